S='libamqpprox/amqpprox_session.cpp'
ST='libamqpprox/amqpprox_sessionstate.cpp'
C='libamqpprox/amqpprox_connector.cpp'
M=[
('one close dropped',['C18'],'bug',[(S,'    d_serverSocket->close(serverCloseEc);\n','')]),
('other close dropped',['C18'],'bug',[(S,'    d_clientSocket->close(clientCloseEc);\n','')]),
('close only read',['C18'],'bug',[(S,'    boost::system::error_code clientCloseEc, serverCloseEc;\n','    if (ec == boost::asio::error::operation_aborted) {\n        return;\n    }\n    boost::system::error_code clientCloseEc, serverCloseEc;\n')]),
('kind swapped',['C18'],'bug',[(S,'                SessionState::DisconnectType::DISCONNECTED_CLIENT);\n        }\n        else','                SessionState::DisconnectType::DISCONNECTED_SERVER);\n        }\n        else')]),
('kind overwritten',['C18'],'bug',[(S,'    else if (d_sessionState.getDisconnectType() ==\n             SessionState::DisconnectType::NOT_DISCONNECTED) {','    else {')]),
('clean missing',['C18'],'bug',[(S,'            SessionState::DisconnectType::DISCONNECTED_CLEANLY);','            SessionState::DisconnectType::DISCONNECTED_CLIENT);')]),
('error state ignored',['C18'],'bug',[(S,'        if (d_connector.state() == Connector::State::ERROR) {\n            disconnect(true);\n        }\n    }\n    catch','    }\n    catch')]),
('closed ignored',['C18'],'bug',[(S,'        if (d_connector.state() == Connector::State::CLOSED) {\n            performDisconnectBoth();\n        }\n','')]),
('closed half',['C18'],'bug',[(S,'        if (d_connector.state() == Connector::State::CLOSED) {\n            performDisconnectBoth();\n        }\n','        if (d_connector.state() == Connector::State::CLOSED) {\n            backendDisconnect();\n        }\n')]),
('runtime error not ended',['C18'],'bug',[(S,'        logException(error.what(), d_sessionState, direction);\n\n        disconnect(true);\n','        logException(error.what(), d_sessionState, direction);\n        readData(direction);\n')]),
('close error not ended',['C18'],'bug',[(S,'        logException(oss.str(), d_sessionState, direction);\n\n        disconnect(true);\n','        logException(oss.str(), d_sessionState, direction);\n')]),
('shutdown early return',['C18'],'bug',[(S,'            LOG_INFO << "Server shutdown failed rc: " << shutdownEc;\n','            LOG_INFO << "Server shutdown failed rc: " << shutdownEc;\n            return;\n')]),
('backend shutdown early return',['C18'],'bug',[(S,'                LOG_INFO << "Backend Disconnect shutdown failed rc: "\n                         << shutdownEc;\n','                LOG_INFO << "Backend Disconnect shutdown failed rc: "\n                         << shutdownEc;\n                return;\n')]),
('not marked',['C18'],'bug',[(S,'        d_sessionState.setDisconnected(\n            SessionState::DisconnectType::DISCONNECTED_PROXY);\n        d_ioContext','        d_ioContext')]),
('forced as client',['C18'],'bug',[(S,'            SessionState::DisconnectType::DISCONNECTED_PROXY);\n        d_ioContext','            SessionState::DisconnectType::DISCONNECTED_CLIENT);\n        d_ioContext')]),
('close same twice',['C18'],'bug',[(S,'        d_serverSocket->close(closeEc);\n        if (closeEc) {\n            LOG_INFO << "Server','        d_clientSocket->close(closeEc);\n        if (closeEc) {\n            LOG_INFO << "Server')]),
('write failure ignored',['C18'],'bug',[(S,'            handleSessionError("write", writeSide, ec);\n            return;','            LOG_WARN << "write failed";\n            return;')]),
('handshake failure ignored',['C18'],'bug',[(S,'            handleSessionError("ssl", FlowType::INGRESS, ec);\n            return;','            LOG_WARN << ec;\n            return;')]),
('available failure',['C18'],'bug',[(S,'                handleSessionError("socket-available", direction, ec);\n                return;','                return;')]),
('read retry on any',['C18'],'bug',[(S,'else if (ec == boost::asio::error::would_block) {','else if (ec == boost::asio::error::would_block ||\n                     ec == boost::asio::error::interrupted) {')]),
('graceful loop',['C18'],'bug',[(C,'    d_state = sendToIngressSide ? State::CLIENT_CLOSE_SENT\n                                : State::SERVER_CLOSE_SENT;\n','    if (sendToIngressSide) {\n        d_state = State::CLIENT_CLOSE_SENT;\n    }\n')]),
('graceful no client',['C18'],'bug',[(S,'        d_connector.synthesizeCloseError(true);\n        sendSyntheticData();  // sending Close error to client side\n','')]),
('graceful egress too',['C18'],'bug',[(S,'    else if (direction == FlowType::INGRESS &&\n             d_connector.state() == Connector::State::CLIENT_CLOSE_SENT) {','    else if (d_connector.state() == Connector::State::CLIENT_CLOSE_SENT) {')]),
('finished wrong',['C18'],'bug',[(S,'    return d_sessionState.getDisconnectType() !=\n           SessionState::DisconnectType::NOT_DISCONNECTED;','    return d_sessionState.getDisconnectType() ==\n           SessionState::DisconnectType::DISCONNECTED_CLEANLY;')]),
('keep first',['C18'],'bug',[(ST,'    d_disconnectedStatus = disconnect;','    if (d_disconnectedStatus == DisconnectType::NOT_DISCONNECTED &&\n        disconnect != DisconnectType::DISCONNECTED_PROXY) {\n        d_disconnectedStatus = disconnect;\n    }')]),
('timer forgets',['C18'],'bug',[(S,'                    sendSyntheticData();\n                    disconnect(true);\n','                    sendSyntheticData();\n')]),
# refactors
('r helper',['C18'],'ok',[(S,'    d_clientSocket->close(clientCloseEc);\n    d_serverSocket->close(serverCloseEc);\n','    d_serverSocket->close(serverCloseEc);\n    d_clientSocket->close(clientCloseEc);\n')]),
('r ternary',['C18'],'ok',[(S,'        if (direction == FlowType::INGRESS) {\n            d_sessionState.setDisconnected(\n                SessionState::DisconnectType::DISCONNECTED_CLIENT);\n        }\n        else {\n            d_sessionState.setDisconnected(\n                SessionState::DisconnectType::DISCONNECTED_SERVER);\n        }','        d_sessionState.setDisconnected(\n            direction == FlowType::INGRESS\n                ? SessionState::DisconnectType::DISCONNECTED_CLIENT\n                : SessionState::DisconnectType::DISCONNECTED_SERVER);')]),
('r switch',['C18'],'ok',[(S,'        if (d_connector.state() == Connector::State::CLOSED) {\n            performDisconnectBoth();\n        }\n\n        if (d_connector.state() == Connector::State::ERROR) {\n            disconnect(true);\n        }','        switch (d_connector.state()) {\n        case Connector::State::CLOSED:\n            performDisconnectBoth();\n            break;\n        case Connector::State::ERROR:\n            disconnect(true);\n            break;\n        default:\n            break;\n        }')]),
('r std exception',['C18'],'ok',[(S,'    catch (std::runtime_error &error) {','    catch (const std::exception &error) {')]),
('r order',['C18'],'ok',[(S,'        sendSyntheticData();\n\n        std::ostringstream oss;\n        oss << error.what()\n            << ", Received method from server: " << receivedClose;\n        logException(oss.str(), d_sessionState, direction);\n','        std::ostringstream oss;\n        oss << error.what()\n            << ", Received method from server: " << receivedClose;\n        logException(oss.str(), d_sessionState, direction);\n        sendSyntheticData();\n')]),
('r finished',['C18'],'ok',[(S,'    return d_sessionState.getDisconnectType() !=\n           SessionState::DisconnectType::NOT_DISCONNECTED;','    if (d_sessionState.getDisconnectType() ==\n        SessionState::DisconnectType::NOT_DISCONNECTED) {\n        return false;\n    }\n    return true;')]),
('r shared closer',['C18'],'ok',[(S,'    d_clientSocket->async_shutdown([this, self](error_code shutdownEc) {\n        if (shutdownEc) {\n            LOG_INFO << "Client shutdown','    auto *broker = d_clientSocket.get();\n    broker->async_shutdown([this, self](error_code shutdownEc) {\n        if (shutdownEc) {\n            LOG_INFO << "Client shutdown')]),
('r not finished',['C18'],'ok',[(S,'    else if (d_sessionState.getDisconnectType() ==\n             SessionState::DisconnectType::NOT_DISCONNECTED) {','    else if (!finished()) {')]),
]
