L = 'libamqpprox/amqpprox_'
M = [
 ('close-throws', ['C12'], 'bug', [(L+'maybesecuresocketadaptor.h', '        d_socket->next_layer().close(ec);', '        ec.clear();\n        d_socket->next_layer().close();')]),
 ('listen-close-throws', ['C12'], 'bug', [(L+'server.cpp', '            it->second->close(ec);', '            it->second->close();')]),
 ('control-close-throws', ['C12'], 'bug', [(L+'control.cpp', 'd_socket.close(closeErr);', 'd_socket.close();')]),
 ('control-shutdown-throws', ['C12'], 'bug', [(L+'control.cpp', 'd_socket.shutdown(stream_protocol::socket::shutdown_both,\n                                      shutdownErr);', 'd_socket.shutdown(stream_protocol::socket::shutdown_both);')]),
 ('resolve-throws', ['C12'], 'bug', [(L+'backendcontrolcommand.cpp', 'resolver.resolve(q, ec);', 'resolver.resolve(q);')]),
 ('reverse-resolve-throws', ['C12'], 'bug', [(L+'dnshostnamemapper.cpp', 'resolver.resolve(endpoint, ec);', 'resolver.resolve(endpoint);')]),
 ('tls-file-throws', ['C12'], 'bug', [(L+'tlscontrolcommand.cpp', 'context.use_tmp_dh_file(file, ec);', 'context.use_tmp_dh_file(file);')]),
 ('auth-shutdown-throws', ['C12'], 'bug', [(L+'httpauthintercept.cpp', 'stream->socket().shutdown(tcp::socket::shutdown_both, ec);', 'stream->socket().shutdown(tcp::socket::shutdown_both);')]),
 ('catch-close-only', ['C12'], 'bug', [(L+'session.cpp', 'catch (std::runtime_error &error) {', 'catch (std::logic_error &error) {')]),
 ('frame-logic-error', ['C12'], 'bug', [(L+'frame.cpp', 'throw std::runtime_error(\n                "Cannot decode huge', 'throw std::length_error(\n                "Cannot decode huge')]),
 ('farm-uncaught', ['C12'], 'bug', [(L+'connectionselector.cpp', 'catch (std::runtime_error &e) {', 'catch (std::invalid_argument &e) {')]),
 ('farmstore-out-of-range', ['C12'], 'bug', [(L+'farmstore.cpp', 'throw std::runtime_error', 'throw std::out_of_range')]),
 ('statsd-uncaught', ['C12'], 'bug', [(L+'statcontrolcommand.cpp', 'catch (const boost::system::system_error &error) {', 'catch (const std::logic_error &error) {')]),
 ('field-type-unchecked', ['C12'], 'bug', [(L+'session.cpp', '"connection_name") &&\n        fv.type() == \'S\') {', '"connection_name")) {')]),
 ('field-type-wrong', ['C12'], 'bug', [(L+'session.cpp', "        fv.type() == 'F') {", "        fv.type() != 'V') {")]),
 ('auth-close-type', ['C12'], 'bug', [(L+'session.cpp', "&&\n            fv.type() == 't') {", ") {")]),
 ('vhost-or-default', ['C12'], 'bug', [(L+'limitcontrolcommand.cpp', '               << subcommand;\n        return;\n    }\n\n    auto [isD', '               << subcommand;\n    }\n\n    auto [isD')]),
 ('substr-npos', ['C12'], 'bug', [(L+'control.cpp', '        if (spaceLocation != std::string::npos) {\n            remaining = input.substr(spaceLocation);\n        }', '        remaining = input.substr(spaceLocation + 1);')]),
 ('stoi', ['C12'], 'bug', [(L+'listencontrolcommand.cpp', '    if (iss >> subcommand) {', '    if (iss >> subcommand) {\n        if (subcommand == "PORT") {\n            serverHandle->stopListening(std::stoi(restOfCommand));\n        }')]),
 ('map-at', ['C12'], 'bug', [(L+'server.cpp', '            it->second->close(ec);', '            d_listeningSockets.at(port + 1)->close(ec);')]),
 ('to-v4', ['C12'], 'bug', [(L+'session.cpp', 'return isV6 && address.is_v4()', 'return isV6')]),
 ('remote-endpoint-throws', ['C12'], 'bug', [(L+'maybesecuresocketadaptor.h', 'd_socket->next_layer().local_endpoint(ec);', 'd_socket->next_layer().local_endpoint();')]),
 ('table-tag', ['C12'], 'bug', [(L+'connectorutil.cpp', "FieldValue('t', true)", "FieldValue('t', std::string(\"true\"))")]),
 ('rethrow', ['C12'], 'bug', [(L+'farmcontrolcommand.cpp', "output << \"Farm '\" << name << \"' not found\\n\";\n            return;", "output << \"Farm '\" << name << \"' not found\\n\";\n            throw;")]),
 ('ok-catch-exception', ['C12'], 'ok', [(L+'session.cpp', 'catch (std::runtime_error &error) {', 'catch (const std::exception &error) {')]),
 ('ok-catch-all', ['C12'], 'ok', [(L+'connectionselector.cpp', 'catch (std::runtime_error &e) {', 'catch (std::exception &e) {')]),
 ('ok-at-in-try', ['C12'], 'ok', [(L+'server.cpp', '            it->second->close(ec);', '            d_listeningSockets.at(port)->close(ec);')]),
 ('ok-field-helper', ['C12'], 'ok', [(L+'session.cpp', 'std::string getConnectionName(const Connector &connector)\n{', 'bool isText(const FieldValue &v)\n{\n    return v.type() == \'S\';\n}\n\nstd::string textOf(FieldValue &v)\n{\n    return v.value<std::string>();\n}\n\nstd::string getConnectionName(const Connector &connector)\n{'),
    (L+'session.cpp', '"connection_name") &&\n        fv.type() == \'S\') {\n        return fv.value<std::string>();', '"connection_name") &&\n        isText(fv)) {\n        return textOf(fv);')]),
 ('ok-substr-early', ['C12'], 'ok', [(L+'control.cpp', '        if (spaceLocation != std::string::npos) {\n            remaining = input.substr(spaceLocation);\n        }', '        const bool hasRest = spaceLocation != std::string::npos;\n        if (hasRest) {\n            remaining = input.substr(spaceLocation);\n        }')]),
 ('ok-substr-cond', ['C12'], 'ok', [(L+'control.cpp', '        std::string remaining{""};\n        if (spaceLocation != std::string::npos) {\n            remaining = input.substr(spaceLocation);\n        }', '        std::string remaining =\n            spaceLocation == std::string::npos ? std::string() : input.substr(spaceLocation);')]),
 ('ok-opt-star', ['C12'], 'ok', [(L+'maybesecuresocketadaptor.h', '        if (BOOST_UNLIKELY(d_intercept.has_value())) {\n            d_intercept.value().get().close(ec);\n            return;\n        }\n\n        d_socket->next_layer().close(ec);', '        if (!d_intercept.has_value()) {\n            d_socket->next_layer().close(ec);\n        }\n        else {\n            auto &i = d_intercept.value().get();\n            i.close(ec);\n        }')]),
 ('ok-close-helper', ['C12'], 'ok', [(L+'control.cpp', '                    error_code closeErr;\n                    d_socket.close(closeErr);', '                    try {\n                        d_socket.close();\n                    }\n                    catch (const std::exception &) {\n                    }')]),
]
