L='libamqpprox/amqpprox_'
S=L+'server.cpp'; K=L+'sessioncleanup.cpp'; C=L+'statcollector.cpp'; SS=L+'sessionstate.cpp'
M=[
('start-first',['C25'],'bug',[(S,'''                {
                    std::lock_guard<std::mutex> lg(d_mutex);
                    d_sessions[session->state().id()] = session;
                }

                session->start();
''','''                session->start();

                {
                    std::lock_guard<std::mutex> lg(d_mutex);
                    d_sessions[session->state().id()] = session;
                }
''')]),
('not-registered-if-secure',['C25'],'bug',[(S,'''                {
                    std::lock_guard<std::mutex> lg(d_mutex);
                    d_sessions[session''','''                if (!secure) {
                    std::lock_guard<std::mutex> lg(d_mutex);
                    d_sessions[session''')]),
('key-port',['C25'],'bug',[(S,'d_sessions[session->state().id()] = session;','d_sessions[port] = session;')]),
('remove-no-keep',['C25'],'bug',[(S,'        d_deletingSessions.insert(session->second);\n','')]),
('remove-no-erase',['C25'],'bug',[(S,'        d_sessions.erase(identifier);\n','')]),
('remove-all',['C25'],'bug',[(S,'        d_sessions.erase(identifier);\n','        d_sessions.clear();\n')]),
('release-here',['C25'],'bug',[(S,'''    d_ioContext.post([this, deletionCopy]() mutable {''','''    if (deletionCopy.empty()) {
        return;
    }
    [this, deletionCopy]() mutable {'''),(S,'''        std::lock_guard<std::mutex> lg(d_mutex);
        deletionCopy.clear();
    });''','''        deletionCopy.clear();
    }();''')]),
('finished-again',['C25'],'bug',[(K,'        if (ended) {','        if (session->finished()) {')]),
('either',['C25'],'bug',[(K,'        if (ended) {','        if (ended || session->finished()) {')]),
('delete-before-report',['C25'],'bug',[(K,'            sessionsDeleted.push_back(session);','            sessionsDeleted.push_back(session);\n            d_statCollector_p->deletedSession(session->state());'),(K,'''            d_statCollector_p->deletedSession(session->state());
            server''','''            server''')]),
('no-deleted',['C25'],'bug',[(K,'            d_statCollector_p->deletedSession(session->state());\n','')]),
('only-one-removed',['C25'],'bug',[(K,'            server->removeSession(session->state().id());\n','            server->removeSession(session->state().id());\n            break;\n')]),
('skip-paused',['C25'],'bug',[(K,'        const bool ended = d_stat','        if (session->state().getPaused()) {\n            return;\n        }\n        const bool ended = d_stat')]),
('no-clear-defunct',['C25'],'bug',[(K,'        server->clearDefunctSessions();\n','')]),
('reset-only-if-deleted',['C25'],'bug',[(K,'''        LOG_INFO << "Cleaned up " << numberToDelete << " sessions.";
''','''        LOG_INFO << "Cleaned up " << numberToDelete << " sessions.";
        d_statCollector_p->reset();
'''),(K,'''    d_statCollector_p->reset();
    return true;''','''    return true;''')]),
('report-after',['C25'],'bug',[(K,'''    d_eventSource_p->statisticsAvailable().emit(d_statCollector_p);

''',''),(K,'''    d_statCollector_p->reset();
    return true;''','''    d_eventSource_p->statisticsAvailable().emit(d_statCollector_p);
    d_statCollector_p->reset();
    return true;''')]),
('stops',['C25'],'bug',[(K,'    return true;','    return numberToDelete == 0;')]),
('id-not-advanced',['C25'],'bug',[(SS,'d_id(s_nextId++)','d_id(s_nextId)')]),
('collect-reads-late',['C25'],'bug',[(C,'    return discoStatus != DiscoType::NOT_DISCONNECTED;','    return session.getDisconnectType() != DiscoType::NOT_DISCONNECTED;')]),
('ok-range',['C25','C15'],'ok',[(K,'''        const bool ended = d_statCollector_p->collect(session->state());

        if (ended) {''','''        if (d_statCollector_p->collect(session->state())) {''')]),
('ok-guard',['C25'],'ok',[(K,'''        if (ended) {
            LOG_TRACE << "Cleaning session: " << session->state();
            sessionsDeleted.push_back(session);
        }''','''        if (!ended) {
            return;
        }
        LOG_TRACE << "Cleaning session: " << session->state();
        sessionsDeleted.emplace_back(session);''')]),
('ok-emplace',['C25'],'ok',[(S,'d_sessions[session->state().id()] = session;','d_sessions.emplace(session->state().id(), session);')]),
('ok-erase-it',['C25'],'ok',[(S,'d_sessions.erase(identifier);','d_sessions.erase(session);')]),
('ok-swap',['C25'],'ok',[(S,'''    std::unordered_set<SessionPtr> deletionCopy(d_deletingSessions);
    d_deletingSessions.clear();
''','''    std::unordered_set<SessionPtr> deletionCopy;
    deletionCopy.swap(d_deletingSessions);
''')]),
('ok-early-return',['C25'],'ok',[(S,'''    if (session != d_sessions.end()) {
        // Here''','''    if (session == d_sessions.end()) {
        return;
    }
    {
        // Here''')]),
('ok-split',['C25'],'ok',[(K,'''        for (auto &session : sessionsDeleted) {
            d_statCollector_p->deletedSession(session->state());
            server->removeSession(session->state().id());
        }''','''        for (auto &session : sessionsDeleted) {
            d_statCollector_p->deletedSession(session->state());
        }
        for (const auto &session : sessionsDeleted) {
            const auto id = session->state().id();
            server->removeSession(id);
        }''')]),
('ok-index-loop',['C25'],'ok',[(K,'''        for (auto &session : sessionsDeleted) {''','''        for (std::size_t i = 0; i < sessionsDeleted.size(); ++i) {
            auto &session = sessionsDeleted[i];''')]),
('ok-visit-list',['C25'],'ok',[(S,'''    std::unordered_map<uint64_t, SessionPtr> sessions;

    {
        std::lock_guard<std::mutex> lg(d_mutex);
        sessions = std::unordered_map<uint64_t, SessionPtr>(d_sessions);
    }

    for (const auto &conn : sessions) {
        visitor(conn.second);
    }''','''    std::vector<SessionPtr> sessions;

    {
        std::lock_guard<std::mutex> lg(d_mutex);
        for (const auto &conn : d_sessions) {
            sessions.push_back(conn.second);
        }
    }

    for (const auto &session : sessions) {
        visitor(session);
    }''')]),
]
