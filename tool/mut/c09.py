P=['C09']
L='libamqpprox/amqpprox_'
G='    std::lock_guard<std::mutex> lg(d_mutex);\n'
M=[
('unlocked isPaused',P,'bug',[(L+'vhoststate.cpp',"{\n"+G+"    return d_vhosts","{\n    return d_vhosts")]),
('lock after find',P,'bug',[(L+'resourcemapper.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    auto                        it = d_mappings.find(state.getVirtualHost());
    if (""","""    auto                        it = d_mappings.find(state.getVirtualHost());
    std::lock_guard<std::mutex> lg(d_mutex);
    if (""")]),
('scope ends before use of iterator',P,'bug',[(L+'resourcemapper.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    auto                        it = d_mappings.find(state.getVirtualHost());
    if (it != d_mappings.end()) {
""","""    std::unique_lock<std::mutex> lg(d_mutex);
    auto                        it = d_mappings.find(state.getVirtualHost());
    const bool known = it != d_mappings.end();
    lg.unlock();
    if (known) {
""")]),
('iterator assigned in scope',P,'bug',[(L+'dataratelimitmanager.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);

    auto vhostRate = d_vhostDataRateQuota.find(vhostName);
    if (vhostRate == d_vhostDataRateQuota.end()) {
        return d_defaultDataRateQuota;
    }
""","""    decltype(d_vhostDataRateQuota)::const_iterator vhostRate;
    {
        std::lock_guard<std::mutex> lg(d_mutex);
        vhostRate = d_vhostDataRateQuota.find(vhostName);
        if (vhostRate == d_vhostDataRateQuota.end()) {
            return d_defaultDataRateQuota;
        }
    }
""")]),
('temporary guard',P,'bug',[(L+'backendstore.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    auto                        node""","""    (void)std::lock_guard<std::mutex>(d_mutex);
    auto                        node""")]),
('local mutex',P,'bug',[(L+'farm.cpp',"""{
    std::lock_guard<std::mutex> lg(d_mutex);
    return d_backendSet;""","""{
    static std::mutex           s_mutex;
    std::lock_guard<std::mutex> lg(s_mutex);
    return d_backendSet;""")]),
('backend erase',P,'bug',[(L+'backendstore.cpp',"""    d_removedBackends.push_back(std::move(node));
""","")]),
('ref members',P,'bug',[(L+'sessionstate.h',"    inline std::string getVirtualHost() const;","    inline const std::string &getVirtualHost() const;"),(L+'sessionstate.h',"inline std::string SessionState::getVirtualHost() const","inline const std::string &SessionState::getVirtualHost() const")]),
('non-atomic paused',P,'bug',[(L+'sessionstate.h',"    std::atomic<bool>               d_paused;","    bool               d_paused;")]),
('non-atomic counter',P,'bug',[(L+'statcollector.h',"    std::atomic<bool> d_collectPerSourceStats;","    bool d_collectPerSourceStats;")]),
('defaults unlocked setter',P,'bug',[(L+'connectionlimitermanager.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    return d_defaultConnectionRateLimit;""","""    return d_defaultConnectionRateLimit;""")]),
('visit without copy lock',P,'bug',[(L+'server.cpp',"""        std::lock_guard<std::mutex> lg(d_mutex);
        sessions = std::unordered_map""","""        sessions = std::unordered_map""")]),
('accept registers unlocked',P,'bug',[(L+'server.cpp',"""                    std::lock_guard<std::mutex> lg(d_mutex);
                    d_sessions[session->state().id()] = session;""","""                    d_sessions[session->state().id()] = session;""")]),
('hostname insert under shared lock',P,'bug',[(L+'dnshostnamemapper.cpp',"        boost::upgrade_to_unique_lock<boost::shared_mutex> uniqueLock(lock);\n","")] if 'upgrade_to_unique' in open('/repo/libamqpprox/amqpprox_dnshostnamemapper.cpp').read() else [(L+'dnshostnamemapper.cpp',"boost::unique_lock<boost::shared_mutex>","boost::shared_lock<boost::shared_mutex>")]),
('dns cache insert unlocked',P,'bug',[(L+'dnsresolver.cpp',"std::lock_guard lg(d_cacheLock);",";")]),
('repartition from helper without lock',P,'bug',[(L+'farm.cpp',"""void Farm::repartition()
{
    std::lock_guard<std::mutex> lg(d_mutex);
    doRepartitionWhileLocked(lg);""","""void Farm::repartition()
{
    std::mutex                  m;
    std::lock_guard<std::mutex> lg(m);
    doRepartitionWhileLocked(lg);""")]),
('emit in loop without copy',P,'bug',[(L+'eventsourcesignal.h',"""    EventSubscriptionHandle subscribe(const SignalCb &cb)
    {
        std::lock_guard<std::mutex> lg(d_mutex);
""","""    EventSubscriptionHandle subscribe(const SignalCb &cb)
    {
""")]),
# still fine
('unique_lock',P,'ok',[(L+'vhoststate.cpp',"{\n"+G+"    return d_vhosts","{\n    std::unique_lock<std::mutex> lk(d_mutex);\n    return d_vhosts")]),
('scoped_lock ctad',P,'ok',[(L+'vhoststate.cpp',"{\n"+G+"    return d_vhosts","{\n    std::scoped_lock lk(d_mutex);\n    return d_vhosts")]),
('iife',P,'ok',[(L+'vhoststate.cpp',"    return d_vhosts[vhost].isPaused();","    const bool r = [&] { return d_vhosts[vhost].isPaused(); }();\n    return r;")]),
('named lambda',P,'ok',[(L+'vhoststate.cpp',"    return d_vhosts[vhost].isPaused();","    auto look = [&] { return d_vhosts[vhost].isPaused(); };\n    return look();")]),
('helper',P,'ok',[(L+'server.h',"  private:\n","  private:\n    void registerSession(uint64_t i, const SessionPtr &s) { d_sessions[i] = s; }\n"),
  (L+'server.cpp',"                    d_sessions[session->state().id()] = session;","                    registerSession(session->state().id(), session);")]),
('manual lock/unlock',P,'ok',[(L+'vhoststate.cpp',"{\n"+G+"    return d_vhosts[vhost].isPaused();","{\n    d_mutex.lock();\n    const bool p = d_vhosts[vhost].isPaused();\n    d_mutex.unlock();\n    return p;")]),
('mutex renamed',P,'ok',[(L+'vhoststate.cpp','d_mutex','d_guard')]*4+[(L+'vhoststate.h','d_mutex','d_guard')]),
('ctor uses helper',P,'ok',[(L+'farm.cpp',"""    repartition();
}

// MANIP""","""    std::mutex m;
    std::lock_guard<std::mutex> lg(m);
    doRepartitionWhileLocked(lg);
}

// MANIP""")]),
('copy then unlock',P,'ok',[(L+'resourcemapper.cpp',"""    std::lock_guard<std::mutex> lg(d_mutex);
    auto                        it = d_mappings.find(state.getVirtualHost());
    if (it != d_mappings.end()) {
        auto val      = it->second;
""","""    std::unique_lock<std::mutex> lg(d_mutex);
    auto                        it = d_mappings.find(state.getVirtualHost());
    if (it != d_mappings.end()) {
        auto val      = it->second;
        lg.unlock();
""")]),
('any_of',P,'ok',[(L+'vhoststate.cpp',"    return d_vhosts[vhost].isPaused();","    return std::any_of(d_vhosts.begin(), d_vhosts.end(), [&](const auto &p) { return p.first == vhost && d_vhosts.at(vhost).isPaused(); });"),(L+'vhoststate.cpp','#include <map>','#include <map>\n#include <algorithm>')]),
]
