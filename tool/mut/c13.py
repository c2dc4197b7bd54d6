L='libamqpprox/amqpprox_'
A=L+'maybesecuresocketadaptor.h'; S=L+'session.cpp'; V=L+'server.cpp'; VH=L+'server.h'
M=[
('write-plain',['C13'],'bug',[(A,'''            return d_socket->async_write_some(buffers, handler);
        }
        else {
            return d_socket->next_layer().async_write_some''','''            return d_socket->next_layer().async_write_some(buffers, handler);
        }
        else {
            return d_socket->next_layer().async_write_some''')]),
('issecure-or',['C13'],'bug',[(A,'d_secured && d_handshook','d_secured || d_handshook')]),
('issecure-handshook-only-secured',['C13'],'bug',[(A,'return d_secured && d_handshook','return d_secured')]),
('no-handshook',['C13'],'bug',[(A,'            d_handshook = true;\n','')]),
('ctor-not-secured',['C13'],'bug',[(A,'''    , d_socket(std::make_unique<StreamType>(ioContext, context))
    , d_secured(secured)''','''    , d_socket(std::make_unique<StreamType>(ioContext, context))
    , d_secured(false)''')]),
('read-plain-small',['C13'],'bug',[(A,'size_t result = d_socket->read_some(replacement, ec);','size_t result = d_socket->next_layer().read_some(replacement, ec);')]),
('setsecure-after-handshake',['C13'],'bug',[(S,'''            d_clientSocket->setSecure(currentBackend->tlsEnabled());

''',''),(S,'''                    LOG_TRACE << "Post-handshake sending protocol header for:"''','''                    d_clientSocket->setSecure(connectionManager->getConnection(d_egressRetryCounter)->tlsEnabled());
                    LOG_TRACE << "Post-handshake sending protocol header for:"''')]),
('setsecure-first-backend',['C13'],'bug',[(S,'d_clientSocket->setSecure(currentBackend->tlsEnabled())','d_clientSocket->setSecure(connectionManager->getConnection(0)->tlsEnabled())')]),
('setsecure-proxyproto',['C13'],'bug',[(S,'d_clientSocket->setSecure(currentBackend->tlsEnabled())','d_clientSocket->setSecure(currentBackend->tlsEnabled() && !currentBackend->proxyProtocolEnabled())')]),
('handshake-role',['C13'],'bug',[(S,'''                        d_clientSocket->async_handshake(
                            boost::asio::ssl::stream_base::client, hscb);''','''                        d_clientSocket->async_handshake(
                            boost::asio::ssl::stream_base::server, hscb);''')]),
('contexts-swapped',['C13'],'bug',[(V,'d_ioContext, d_ingressTlsContext, secure','d_ioContext, d_egressTlsContext, secure')]),
('broker-ctx',['C13'],'bug',[(V,'d_ioContext, d_egressTlsContext, false','d_ioContext, d_ingressTlsContext, false')]),
('rearm-insecure',['C13'],'bug',[(V,'doAccept(port, secure, listener);\n        });','doAccept(port, false, listener);\n        });')]),
('accessors',['C13'],'bug',[(V,'    return d_egressTlsContext;','    return d_ingressTlsContext;')]),
('stale-loop',['C13'],'bug',[(V,' || it->second != listener',''),(V,'listener->async_accept(','it->second->async_accept(')]),
('read-client-early',['C13'],'bug',[(S,'''    d_serverSocket->async_handshake(boost::asio::ssl::stream_base::server,
                                    handshake_cb);''','''    d_serverSocket->async_handshake(boost::asio::ssl::stream_base::server,
                                    handshake_cb);
    readData(FlowType::INGRESS);''')]),
('ok-inline-secure',['C13'],'ok',[(A,'''        if (isSecure()) {
            return d_socket->async_write_some(buffers, handler);
        }
        else {
            return d_socket->next_layer().async_write_some(buffers, handler);
        }''','''        if (!d_handshook || !d_secured) {
            return d_socket->next_layer().async_write_some(buffers, handler);
        }
        return d_socket->async_write_some(buffers, handler);''')]),
('ok-helper',['C13'],'ok',[(S,'''            d_clientSocket->setSecure(currentBackend->tlsEnabled());
''','''            const bool useTls = currentBackend->tlsEnabled();
            d_clientSocket->setSecure(useTls);
''')]),
('ok-handshake-order',['C13'],'ok',[(A,'''        if (d_secured) {
            d_handshook = true;
            return d_socket->async_handshake(type, handler);
        }
        else {
            boost::system::error_code ec;
            handler(ec);
        }''','''        if (!d_secured) {
            handler(boost::system::error_code());
            return;
        }
        d_handshook = true;
        d_socket->async_handshake(type, handler);''')]),
('ok-accept-helper',['C13'],'ok',[(V,'''                std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                    std::make_shared<MaybeSecureSocketAdaptor<>>(
                        d_ioContext, d_egressTlsContext, false);
''','''                auto clientSocket =
                    std::make_shared<MaybeSecureSocketAdaptor<>>(
                        d_ioContext, egressTlsContext(), false);
''')]),
('ok-accept-ptr',['C13'],'ok',[(V,'listener->async_accept(','it->second->async_accept(')]),
]
