S='libamqpprox/amqpprox_session.cpp'
ST='libamqpprox/amqpprox_sessionstate.cpp'
C='libamqpprox/amqpprox_connector.cpp'
U='libamqpprox/amqpprox_connectorutil.cpp'
H='libamqpprox/amqpprox_proxyprotocolheaderv1.cpp'
K='libamqpprox/amqpprox_constants.h'
SO='libamqpprox/amqpprox_methods_startok.cpp'
F='libamqpprox/amqpprox_fieldtable.h'
M=[
('flag inverted',['C23'],'bug',[(S,'if (!currentBackend->proxyProtocolEnabled()) {','if (currentBackend->proxyProtocolEnabled()) {')]),
('flag tls',['C23'],'bug',[(S,'if (!currentBackend->proxyProtocolEnabled()) {','if (!currentBackend->tlsEnabled()) {')]),
('header only first try',['C23'],'bug',[(S,'if (!currentBackend->proxyProtocolEnabled()) {','if (!currentBackend->proxyProtocolEnabled() ||\n                d_egressRetryCounter > 0) {')]),
('handshake with header',['C23'],'bug',[(S,'                auto writeHandler =\n                    [this, self, hscb','                d_clientSocket->async_handshake(\n                    boost::asio::ssl::stream_base::client, handshake_cb);\n                auto writeHandler =\n                    [this, self, hscb')]),
('failed header goes on',['C23'],'bug',[(S,'                            handleSessionError("write", FlowType::EGRESS, ec);\n                            return;','                            LOG_WARN << "header";')]),
('ingress local',['C23'],'bug',[(S,'auto remoteClient = d_sessionState.getIngress().second;','auto remoteClient = d_sessionState.getIngress().first;')]),
('egress local',['C23'],'bug',[(S,'auto destination  = d_sessionState.getEgress().second.address();','auto destination  = d_sessionState.getEgress().first.address();')]),
('swap',['C23'],'bug',[(S,'        text(source),\n        text(destination),','        text(destination),\n        text(source),')]),
('swap ports',['C23'],'bug',[(S,'        remoteClient.port(),\n        currentBackend->port());','        currentBackend->port(),\n        remoteClient.port());')]),
('family',['C23'],'bug',[(S,'const bool isV6 = source.is_v6() || destination.is_v6();','const bool isV6 = source.is_v6();')]),
('tcp4 always',['C23'],'bug',[(S,'        isV6 ? ProxyProtocolHeaderV1::InetProtocol::TCP6\n             : ProxyProtocolHeaderV1::InetProtocol::TCP4,','        ProxyProtocolHeaderV1::InetProtocol::TCP4,')]),
('hdr swap',['C23'],'bug',[(H,'header.sourceIp() << " " << header.destinationIp()','header.destinationIp() << " " << header.sourceIp()')]),
('hdr port swap',['C23'],'bug',[(H,'header.sourcePort() << " " << header.destinationPort()','header.destinationPort() << " " << header.sourcePort()')]),
('hdr names',['C23'],'bug',[(H,'        os << Constants::inetTcp6() << " ";','        os << Constants::inetTcp4() << " ";')]),
('hdr cr',['C23'],'bug',[(K,'return "\\r\\n";','return "\\n";')]),
('hdr ctor',['C23'],'bug',[(H,', d_sourcePort(sourcePort)\n, d_destinationPort(destinationPort)',', d_sourcePort(destinationPort)\n, d_destinationPort(sourcePort)')]),
('hdr truncated',['C23'],'bug',[(C,'        Buffer(proxyProtocolHeader.data(), proxyProtocolHeader.size()));','        Buffer(proxyProtocolHeader.data(), proxyProtocolHeader.size() - 2));')]),
('setIngress swapped',['C23'],'bug',[(ST,'    d_ingressLocalEndpoint  = local;\n    d_ingressRemoteEndpoint = remote;','    d_ingressLocalEndpoint  = remote;\n    d_ingressRemoteEndpoint = local;')]),
('start swapped',['C23'],'bug',[(S,'                              d_serverSocket->local_endpoint(ecl),\n                              d_serverSocket->remote_endpoint(ecr));','                              d_serverSocket->remote_endpoint(ecl),\n                              d_serverSocket->local_endpoint(ecr));')]),
('egress swapped',['C23'],'bug',[(S,'d_ioContext, local_endpoint, remote_endpoint);','d_ioContext, remote_endpoint, local_endpoint);')]),
('client name dropped',['C23'],'bug',[(U,'    startOk->properties().pushField("amqpprox_client",\n                                    FieldValue(\'S\', remoteClient.str()));\n','')]),
('host text',['C23'],'bug',[(U,'<< inboundListenPort << ") " << localHostname << ":"\n              << outboundLocalPort','<< outboundLocalPort << ") " << localHostname << ":"\n              << inboundListenPort')]),
('tls inverted',['C23'],'bug',[(U,'if (isIngressSecured) {','if (!isIngressSecured) {')]),
('client endpoint',['C23'],'bug',[(C,'auto clientEndpoint    = d_sessionState_p->getIngress().second;','auto clientEndpoint    = d_sessionState_p->getEgress().first;')]),
('arg order',['C23'],'bug',[(C,'            inboundListenPort,\n            outboundLocalPort,','            outboundLocalPort,\n            inboundListenPort,')]),
('props reset',['C23'],'bug',[(U,'    std::stringstream remoteClient;\n','    startOk->properties().reset();\n    std::stringstream remoteClient;\n')]),
('inject after',['C23'],'bug',[(C,'        sendResponse(d_startOk, false);\n        d_state = State::STARTOK_SENT;',''),(C,'        ConnectorUtil::injectProxyClientIdent(','        sendResponse(d_startOk, false);\n        d_state = State::STARTOK_SENT;\n        ConnectorUtil::injectProxyClientIdent(')]),
('creds swapped',['C23'],'bug',[(S,'d_connector.setAuthMechanismCredentials(sasl.authmechanism(),\n                                                        sasl.credentials());','d_connector.setAuthMechanismCredentials(sasl.credentials(),\n                                                        sasl.authmechanism());')]),
('creds always',['C23'],'bug',[(S,'            if (authResponseData.has_authdata()) {','            {')]),
('creds never',['C23'],'bug',[(S,'                d_connector.setAuthMechanismCredentials(sasl.authmechanism(),\n                                                        sasl.credentials());\n','')]),
('creds only with reason',['C23'],'bug',[(S,'            if (authResponseData.has_authdata()) {','            if (authResponseData.has_authdata() &&\n                !authResponseData.reason().empty()) {')]),
('setter',['C23'],'bug',[(C,'    d_startOk.setAuthMechanism(authMechanism);\n    d_startOk.setCredentials(credentials);','    d_startOk.setAuthMechanism(credentials);\n    d_startOk.setCredentials(authMechanism);')]),
('startok setter',['C23'],'bug',[(SO,'    d_response = credentials;','    d_mechanism = credentials;')]),
('push front',['C23'],'bug',[(F,'    d_fields.emplace_back(std::make_pair(name, value));','    d_fields.clear();\n    d_fields.emplace_back(std::make_pair(name, value));')]),
# refactors
('r stream',['C23'],'ok',[(H,'    os << header.sourceIp() << " " << header.destinationIp() << " "\n       << header.sourcePort() << " " << header.destinationPort()\n       << Constants::cr();\n    return os;','    os << header.sourceIp() << \' \' << header.destinationIp();\n    os << " " << header.sourcePort();\n    return os << " " << header.destinationPort() << "\\r\\n";')]),
('r concat',['C23'],'ok',[(U,'    std::stringstream remoteClient;\n    remoteClient << clientHostname << ":" << clientRemotePort;\n    if (isIngressSecured) {\n        remoteClient << " TLS";\n    }','    std::string remoteClient =\n        clientHostname + ":" + std::to_string(clientRemotePort);\n    if (isIngressSecured) {\n        remoteClient += " TLS";\n    }'),(U,'remoteClient.str()','remoteClient')]),
('r invert',['C23'],'ok',[(S,'            if (!currentBackend->proxyProtocolEnabled()) {\n                d_clientSocket->async_handshake(\n                    boost::asio::ssl::stream_base::client, handshake_cb);\n            }\n            else {','            const bool sendHeader = currentBackend->proxyProtocolEnabled();\n            if (!sendHeader) {\n                d_clientSocket->async_handshake(\n                    boost::asio::ssl::stream_base::client, handshake_cb);\n                return;\n            }\n            {')]),
('r props ref',['C23'],'ok',[(U,'    startOk->properties().pushField("amqpprox_client",\n                                    FieldValue(\'S\', remoteClient.str()));','    FieldTable &properties = startOk->properties();\n    properties.pushField("amqpprox_client",\n                         FieldValue(\'S\', remoteClient.str()));')]),
('r direct',['C23'],'ok',[(S,'                authproto::SASL sasl = authResponseData.authdata();\n                d_connector','                const auto &sasl = authResponseData.authdata();\n                d_connector')]),
('r header var',['C23'],'ok',[(S,'                d_connector.synthesizeProxyProtocolHeader(\n                    getProxyProtocolHeader(currentBackend));','                const std::string headerText =\n                    getProxyProtocolHeader(currentBackend);\n                d_connector.synthesizeProxyProtocolHeader(headerText);')]),
('r endpoint port',['C23'],'ok',[(S,'        remoteClient.port(),\n        currentBackend->port());','        remoteClient.port(),\n        d_sessionState.getEgress().second.port());')]),
]
