F='libamqpprox/amqpprox_session.cpp'
P=['C03']
M=[('ident',P,'ok',[]),
('else-allow',P,'bug',[(F,'else if (authResponseData.result() == authproto::AuthResponse::ALLOW) {','else if (authResponseData.result() != authproto::AuthResponse::DENY) {')]),
('deny continues',P,'bug',[(F,'''                                   authResponseData.reason());
            return;
        }
        else if (auth''','''                                   authResponseData.reason());
        }
        if (auth'''),(F,'else if (authResponseData.result() == authproto::AuthResponse::ALLOW) {','if (authResponseData.result() == authproto::AuthResponse::ALLOW || !authResponseData.reason().empty()) {')] if False else [(F,'''            disconnectUnauthClient(d_connector.getClientProperties(),
                                   authResponseData.reason());
            return;
        }
        else if''','''            return;
        }
        else if''')]),
('unpause direct',P,'bug',[(F,'''            d_sessionState.setPaused(false);
            establishConnection();''','''            d_sessionState.setPaused(false);
            std::shared_ptr<ConnectionManager> cm;
            d_connectionSelector_p->acquireConnection(&cm, d_sessionState);
            attemptConnection(cm);''')]),
('swap creds',P,'bug',[(F,'saslPtr->set_credentials(sasl.second)','saslPtr->set_credentials(sasl.first)')]),
('vhost default',P,'bug',[(F,'authRequestData.set_vhostname(d_sessionState.getVirtualHost());','authRequestData.set_vhostname(getConnectionName(d_connector));')]),
('egress addr',P,'bug',[(F,'''        d_sessionState.hostname(d_sessionState.getIngress().second));
    authReq''','''        d_sessionState.hostname(d_sessionState.getIngress().first));
    authReq''')]),
('skip auth when no creds',P,'bug',[(F,'''    // Authenticate connecting clients
''','''    if (sasl.second.empty()) { attemptConnection(connectionManager); return; }
''')]),
('ref switch',P,'ok',[(F,'''        if (authResponseData.result() == authproto::AuthResponse::DENY) {
            LOG_ERROR << "Disconnecting unauthenticated/unauthorized client, "
                         "reason: "
                      << authResponseData.reason();
            disconnectUnauthClient(d_connector.getClientProperties(),
                                   authResponseData.reason());
            return;
        }
        else if (authResponseData.result() == authproto::AuthResponse::ALLOW) {''','''        const bool ok = authResponseData.result() == authproto::AuthResponse::ALLOW;
        if (!ok && authResponseData.result() == authproto::AuthResponse::DENY) {
            disconnectUnauthClient(d_connector.getClientProperties(),
                                   authResponseData.reason());
            return;
        }
        else if (ok) {''')]),
('ref helper',P,'ok',[(F,'''    // Initialize auth request data
    authproto::AuthRequest authRequestData;
    authRequestData.set_vhostname(d_sessionState.getVirtualHost());''','''    // Initialize auth request data
    authproto::AuthRequest authRequestData;
    auto fill = [&](const std::string &v) { authRequestData.set_vhostname(v); };
    fill(d_sessionState.getVirtualHost());''')]),
]
