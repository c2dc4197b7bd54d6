P=['C10']
L='libamqpprox/amqpprox_'
M=[
('visit under lock',P,'bug',[(L+'server.cpp',"""    std::unordered_map<uint64_t, SessionPtr> sessions;

    {
        std::lock_guard<std::mutex> lg(d_mutex);
        sessions = std::unordered_map<uint64_t, SessionPtr>(d_sessions);
    }

    for (const auto &conn : sessions) {""","""    std::lock_guard<std::mutex> lg(d_mutex);
    for (const auto &conn : d_sessions) {""")]),
('stop all under lock',P,'bug',[(L+'server.cpp',"""    // Dispatched work may run here and now, so the lock cannot be held
    for (""","""    std::lock_guard<std::mutex> lg(d_mutex);
    for (""")]),
('store lock within farm lock cycle',P,'bug',[(L+'backendstore.h','    mutable std::mutex','    class FarmStore *d_farms_p = nullptr;\n    mutable std::mutex'),
  (L+'backendstore.cpp','#include <amqpprox_backendstore.h>','#include <amqpprox_backendstore.h>\n#include <amqpprox_farmstore.h>'),
  (L+'backendstore.cpp',"    if (node.empty()) {\n        return 1;\n    }\n","    if (node.empty()) {\n        return 1;\n    }\n    if (d_farms_p) {\n        d_farms_p->repartitionAll();\n    }\n")]),
('relock self',P,'bug',[(L+'backendstore.cpp',"""    auto namedBackend = lookup(backend.name());

    if (namedBackend) {
        return 1;
    }

    std::lock_guard<std::mutex> lg(d_mutex);
""","""    std::lock_guard<std::mutex> lg(d_mutex);
    auto namedBackend = lookup(backend.name());

    if (namedBackend) {
        return 1;
    }

""")]),
('clear posts -> dispatch',P,'bug',[(L+'server.cpp',"    d_ioContext.post([this, deletionCopy]() mutable {","    d_ioContext.dispatch([this, deletionCopy]() mutable {")]),
('prime under lock',P,'bug',[(L+'sessionstate.cpp',"""        d_hostnameMapper = hostnameMapper;
    }
""","""        d_hostnameMapper = hostnameMapper;
        d_hostnameMapper->prime(ioContext, {d_ingressLocalEndpoint});
    }
""")]),
('resolve under lock',P,'bug',[(L+'dnshostnamemapper.cpp',"""        boost::system::error_code ec;
        auto ""","""        boost::shared_lock<boost::shared_mutex> lk(d_lg);
        boost::system::error_code ec;
        auto """)]),
('raw lock, fails only for want of memory',P,'ok',[(L+'vhoststate.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    d_vhosts[vhost].setPaused(paused);""","""    d_mutex.lock();
    d_vhosts[vhost].setPaused(paused);
    d_mutex.unlock();""")]),
('raw lock early return',P,'bug',[(L+'farm.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    d_backendSelector_p = selector;""","""    d_mutex.lock();
    if (!selector) {
        return;
    }
    d_backendSelector_p = selector;
    d_mutex.unlock();""")]),
('dns callback under lock',P,'bug',[(L+'dnsresolver.h',"            d_ioContext.post(cb);","            cb();")]) ,
('emit under lock',P,'bug',[(L+'eventsourcesignal.h',"        lock.unlock();  // UNLOCK\n","")]),
('emit in server under lock',P,'bug',[(L+'server.cpp',"""                    d_sessions[session->state().id()] = session;
                }

                session->start();
                d_eventSource_p""","""                    d_sessions[session->state().id()] = session;
                    d_eventSource_p->connectionReceived().emit(session->state().id());
                }

                session->start();
                if (false) d_eventSource_p""")]),
('release guard',P,'bug',[(L+'farm.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    d_backendSelector_p = selector;""","""    std::unique_lock<std::mutex> lg(d_mutex);
    d_backendSelector_p = selector;
    lg.release();""")]),
('getVirtualHost in locked getter',P,'bug',[(L+'sessionstate.h',"""    std::lock_guard<std::mutex> lg(d_lock);
    return std::make_pair(d_egressLocalEndpoint, d_egressRemoteEndpoint);""","""    std::lock_guard<std::mutex> lg(d_lock);
    getIngress();
    return std::make_pair(d_egressLocalEndpoint, d_egressRemoteEndpoint);""")]),
# fine
('unique unlock before',P,'ok',[(L+'server.cpp',"""    std::unordered_map<uint64_t, SessionPtr> sessions;

    {
        std::lock_guard<std::mutex> lg(d_mutex);
        sessions = std::unordered_map<uint64_t, SessionPtr>(d_sessions);
    }
""","""    std::unordered_map<uint64_t, SessionPtr> sessions;

    std::unique_lock<std::mutex> lg(d_mutex);
    sessions = d_sessions;
    lg.unlock();
""")]),
('vector of sessions',['C10','C09'],'ok',[(L+'server.cpp',"""    std::unordered_map<uint64_t, SessionPtr> sessions;

    {
        std::lock_guard<std::mutex> lg(d_mutex);
        sessions = std::unordered_map<uint64_t, SessionPtr>(d_sessions);
    }

    for (const auto &conn : sessions) {
        visitor(conn.second);
    }""","""    std::vector<SessionPtr> sessions;

    {
        std::lock_guard<std::mutex> lg(d_mutex);
        std::for_each(d_sessions.begin(), d_sessions.end(), [&sessions](const auto &p) { sessions.push_back(p.second); });
    }

    for (const auto &s : sessions) {
        visitor(s);
    }""")]),
('with lock helper',['C10','C09'],'ok',[(L+'vhoststate.h',"\n  public:\n","\n    template <class F> auto withLock(F f)\n    {\n        std::lock_guard<std::mutex> lg(d_mutex);\n        return f();\n    }\n\n  public:\n"),
 (L+'vhoststate.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    return d_vhosts[vhost].isPaused();""","""    return withLock([&] { return d_vhosts[vhost].isPaused(); });""")]),
('raw lock nothrow',P,'ok',[(L+'farm.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    d_backendSelector_p = selector;""","""    d_mutex.lock();
    d_backendSelector_p = selector;
    d_mutex.unlock();""")]),
('insert nested unlocked lookup',['C10','C09'],'ok',[(L+'backendstore.cpp',"""    auto namedBackend = lookup(backend.name());

    if (namedBackend) {
        return 1;
    }

    std::lock_guard<std::mutex> lg(d_mutex);
    d_backends.insert(std::make_pair(backend.name(), backend));""","""    std::lock_guard<std::mutex> lg(d_mutex);
    if (!d_backends.insert(std::make_pair(backend.name(), backend)).second) {
        return 1;
    }""")]),
]
