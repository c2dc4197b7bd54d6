L = 'libamqpprox/amqpprox_'
M = [
 ('disconnect-direct', ['C08'], 'bug', [(L+'session.cpp', '''        d_ioContext.dispatch([this, self] {
            d_connector.synthesizeClose(true);
            sendSyntheticData();
        });''', '''        d_connector.synthesizeClose(true);
        sendSyntheticData();''')]),
 ('disconnect-split', ['C08'], 'bug', [(L+'session.cpp', '''        d_ioContext.dispatch([this, self] {
            d_connector.synthesizeClose(true);
            sendSyntheticData();''', '''        d_connector.synthesizeClose(true);
        d_ioContext.dispatch([this, self] {
            sendSyntheticData();''')]),
 ('print-state', ['C08'], 'bug', [(L+'session.cpp', '    os << d_sessionState << " " << ingressTime.count()', '    os << d_sessionState << " " << (d_connector.state() == Connector::State::OPEN) << ingressTime.count()')]),
 ('pause-reading', ['C08'], 'bug', [(L+'session.cpp', '        d_sessionState.setPaused(true);\n    }', '        d_sessionState.setPaused(true);\n        d_ingressDataHeldByPause = false;\n    }')]),
 ('pause-timer', ['C08'], 'bug', [(L+'session.cpp', '        d_sessionState.setPaused(true);\n    }', '        d_sessionState.setPaused(true);\n        d_connectionRateLimitedTimer.cancel();\n    }')]),
 ('limits-closed', ['C08'], 'bug', [(L+'session.cpp', '    d_serverSocket->setReadRateLimit(limit);', '    if (!d_serverSocket->socket().is_open()) {\n        LOG_TRACE << "plain";\n    }\n    d_serverSocket->setReadRateLimit(limit);')]),
 ('rate-reset', ['C08'], 'bug', [(L+'dataratelimit.cpp', 'void DataRateLimit::setQuota(std::size_t bytesPerSecond)\n{', 'void DataRateLimit::setQuota(std::size_t bytesPerSecond)\n{\n    d_remainingQuota = bytesPerSecond;')]),
 ('unpause-direct', ['C08'], 'bug', [(L+'session.cpp', '    d_ioContext.dispatch([this, self] {\n        if (d_sessionState.getPaused()) {', '    auto resume = [this, self] {\n        if (d_sessionState.getPaused()) {'),
    (L+'session.cpp', '                this->disconnect(true);\n            }\n        }\n    });', '                this->disconnect(true);\n            }\n        }\n    };\n    resume();')]),
 ('listen-direct', ['C08'], 'bug', [(L+'server.cpp', '    d_ioContext.dispatch([this, port] {', '    auto stop = [this, port] {'), (L+'server.cpp', '                LOG_WARN << "Closing listening socket failed: "\n                         << ec.message();\n            }\n        }\n    });', '                LOG_WARN << "Closing listening socket failed: "\n                         << ec.message();\n            }\n        }\n    };\n    stop();')]),
 ('clear-late', ['C08'], 'bug', [(L+'sessioncleanup.cpp', '        sessionsDeleted.clear();\n', ''), ]),
 ('clear-direct', ['C08'], 'bug', [(L+'server.cpp', '    std::unordered_set<SessionPtr> deletionCopy(d_deletingSessions);\n    d_deletingSessions.clear();\n', '    d_deletingSessions.clear();\n    std::unordered_set<SessionPtr> deletionCopy;\n')]),
 ('no-lock-in-post', ['C08'], 'bug', [(L+'server.cpp', '        std::lock_guard<std::mutex> lg(d_mutex);\n        deletionCopy.clear();', '        deletionCopy.clear();')]),
 ('lock-after-copy', ['C08'], 'bug', [(L+'server.cpp', '    std::lock_guard<std::mutex>    lg(d_mutex);\n    std::unordered_set<SessionPtr> deletionCopy(d_deletingSessions);\n', '    std::unordered_set<SessionPtr> deletionCopy;\n    std::lock_guard<std::mutex>    lg(d_mutex);\n    deletionCopy = d_deletingSessions;\n')]),
 ('cleanup-copy', ['C08'], 'bug', [(L+'sessioncleanup.cpp', '    std::size_t numberToDelete = sessionsDeleted.size();', '    std::size_t numberToDelete = sessionsDeleted.size();\n    auto        forLog = sessionsDeleted;')]),
 ('remove-drops', ['C08'], 'bug', [(L+'server.cpp', 'd_deletingSessions.insert(session->second);', '')]),
 ('vhost-visitor', ['C08'], 'bug', [(L+'session.h', 'void backendDisconnect();', 'void backendDisconnect();\n\n    bool busy() const { return d_ingressCurrentlyReading; }'), (L+'vhostcontrolcommand.cpp', '                session->unpause();', '                if (session->busy()) {\n                    return;\n                }\n                session->unpause();')]),
 ('ok-dispatch-helper', ['C08'], 'ok', [(L+'session.cpp', '''        d_ioContext.dispatch([this, self] {
            d_connector.synthesizeClose(true);
            sendSyntheticData();
        });''', '''        auto work = [this, self] {
            d_connector.synthesizeClose(true);
            sendSyntheticData();
        };
        boost::asio::post(d_ioContext, work);''')]),
 ('ok-move', ['C08'], 'ok', [(L+'server.cpp', '    std::unordered_set<SessionPtr> deletionCopy(d_deletingSessions);\n    d_deletingSessions.clear();\n\n    d_ioContext.post([this, deletionCopy]() mutable {', '    std::unordered_set<SessionPtr> deletionCopy;\n    deletionCopy.swap(d_deletingSessions);\n\n    d_ioContext.post([this, deletionCopy = std::move(deletionCopy)]() mutable {')]),
 ('ok-cleanup-swap', ['C08'], 'ok', [(L+'sessioncleanup.cpp', '        sessionsDeleted.clear();\n', '        sessionsDeleted = std::vector<std::shared_ptr<Session>>();\n')]),
 ('ok-cleanup-index', ['C08'], 'ok', [(L+'sessioncleanup.cpp', '        for (auto &session : sessionsDeleted) {\n            d_stat', '        for (std::size_t i = 0; i < sessionsDeleted.size(); ++i) {\n            const auto session = sessionsDeleted[i];\n            d_stat')]),
 ('ok-print-helper', ['C08'], 'ok', [(L+'server.cpp', '        conn.second->print(os);', '        auto session = conn.second;\n        session->print(os);')]),
]
