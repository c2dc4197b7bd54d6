L='libamqpprox/amqpprox_'
S=L+'statcollector.cpp'; C=L+'connectionstats.cpp'; J=L+'jsonstatformatter.cpp'; H=L+'humanstatformatter.cpp'; D=L+'statsdpublisher.cpp'; N=L+'statsnapshot.cpp'; SS=L+'sessionstate.cpp'
M=[
('sent-is-ingress',['C15'],'bug',[(S,'statsValue("packetsSent") += egressPackets','statsValue("packetsSent") += ingressPackets')]),
('rem-swapped-frames',['C15'],'bug',[(S,'statsValue("framesSent") -= egressFrames','statsValue("framesSent") -= ingressFrames')]),
('rem-misses-latency',['C15'],'bug',[(S,'''        statsObject.addDistributionStats(
            "receiveLatency", -ingressLatencyTotal, -ingressLatencyCount);''','')]),
('rem-latency-count-kept',['C15'],'bug',[(S,'"sendLatency", -egressLatencyTotal, -egressLatencyCount','"sendLatency", -egressLatencyTotal, 0')]),
('overall-not-removed',['C15'],'bug',[(S,'    remStats(d_current.overall());\n','')]),
('backend-no-port-on-delete',['C15'],'bug',[(S,'''    auto &vhostStats   = d_current.vhosts()[vhost];
    auto &backendStats = d_current.backends()[backend];''','''    auto &vhostStats   = d_current.vhosts()[vhost];
    auto &backendStats = d_current.backends()[session.hostname(session.getEgress().second)];''')]),
('source-always-removed',['C15'],'bug',[(S,'''    if (d_collectPerSourceStats) {
        // For sources we only look at the machine, not the ephemeral port
        auto source = session.hostname(session.getIngress().second);

        auto &sourceStats = d_current.sources()[source];
        remStats''','''    {
        // For sources we only look at the machine, not the ephemeral port
        auto source = session.hostname(session.getIngress().second);

        auto &sourceStats = d_current.sources()[source];
        remStats''')]),
('delete-from-previous',['C15'],'bug',[(S,'remStats(d_current.overall());','remStats(d_previous.overall());')]),
('proxy-disconnect-active',['C15'],'bug',[(S,'''        else if (discoStatus == DiscoType::DISCONNECTED_CLEANLY ||
                 discoStatus == DiscoType::DISCONNECTED_PROXY) {''','''        else if (discoStatus == DiscoType::DISCONNECTED_CLEANLY) {''')]),
('paused-not-active',['C15'],'bug',[(S,'''        else {
            statsObject.statsValue("activeConnectionCount") += 1;''','''        else if (!session.getPaused()) {
            statsObject.statsValue("activeConnectionCount") += 1;''')]),
('limited-as-denied',['C15'],'bug',[(S,'statsValue("limitedConnectionCount") += 1','statsValue("authDeniedConnectionCount") += 1')]),
('map-skips-new',['C15'],'bug',[(S,'''        auto it = previous.find(k.first);
        if (it != previous.end()) {
            prevValue = &it->second;
        }
''','''        auto it = previous.find(k.first);
        if (it == previous.end()) {
            continue;
        }
        prevValue = &it->second;
''')]),
('map-other-tables-previous',['C15'],'bug',[(S,'populateMap(&snap->vhosts(), d_current.vhosts(), d_previous.vhosts());','populateMap(&snap->vhosts(), d_current.vhosts(), d_previous.sources());')]),
('map-wrong-target',['C15'],'bug',[(S,'''    populateMap(&snap->vhosts(), d_current.vhosts(), d_previous.vhosts());
    populateMap(
        &snap->backends(), d_current''','''    populateMap(&snap->backends(), d_current.vhosts(), d_previous.vhosts());
    populateMap(
        &snap->vhosts(), d_current''')]),
('overall-from-current-twice',['C15'],'bug',[(S,'auto &prevStats = d_previous.overall();','auto &prevStats = d_current.overall();')]),
('prog-diff-all-types',['C15'],'bug',[(S,'''    auto &prevStats = d_previous.overall();

    for (auto &name : ConnectionStats::sessionMetrics()) {''','''    auto &prevStats = d_previous.overall();

    for (auto &name : ConnectionStats::statsTypes()) {''')]),
('prog-no-dist',['C15'],'bug',[(S,'''        val.addDistributionStats(
            name, -prevDistribution.first, -prevDistribution.second);
    }

    *programStats''','''        val.addDistributionStats(
            name, -prevDistribution.first, 0);
    }

    *programStats''')]),
('reset-forgets-previous',['C15'],'bug',[(S,'    d_previous.swap(d_current);\n','')]),
('reset-keeps-current',['C15'],'bug',[(S,'    d_previous.swap(d_current);\n    StatSnapshot temp;\n    d_current.swap(temp);','    d_previous.swap(d_current);')]),
('swap-misses-backends',['C15'],'bug',[(N,'    d_backends.swap(rhs.d_backends);\n','')]),
('cs-swap-misses-dist',['C15'],'bug',[(C,'    std::swap(d_distributionStatsMap, rhs.d_distributionStatsMap);\n','')]),
('dist-swapped',['C15'],'bug',[(C,'''.first += total;
    d_distributionStatsMap[name].second += count;''','''.first += count;
    d_distributionStatsMap[name].second += total;''')]),
('names-missing',['C15'],'bug',[(C,'''    "packetsReceived",
    "packetsSent",
    "framesReceived",
    "framesSent",
    "bytesReceived",
    "bytesSent"};''','''    "packetsReceived",
    "packetsSent",
    "framesReceived",
    "framesSent",
    "bytesReceived"};''')]),
('dist-value-inverse',['C15'],'bug',[(C,'return it->second.first / it->second.second;','return it->second.second / it->second.first;')]),
('totals-swapped',['C15'],'bug',[(SS,'*egressFrames   = d_egressFrameTotal','*egressFrames   = d_egressPacketTotal')]),
('count-twice',['C15'],'bug',[(SS,'d_ingressBytesTotal.fetch_add(','d_egressBytesTotal.fetch_add(')]),
('json-swapped',['C15'],'bug',[(J,'statsValue("framesSent")','statsValue("framesReceived")')]),
('human-swapped',['C15'],'bug',[(H,'statsValue("packetsSent")','statsValue("packetsReceived")')]),
('statsd-vhost-tag',['C15'],'bug',[(D,'statSnapshot.backends(), "backends"','statSnapshot.backends(), "sources"')]),
('statsd-dist-gate',['C15'],'bug',[(D,'stats.distributionCount(name) > 0','stats.statsValue("packetsSent") > 0')]),
('cpu-swapped',['C15'],'bug',[(S,'pstats.d_user    = std::round(std::get<0>','pstats.d_user    = std::round(std::get<1>')]),
('lat-swap',['C15'],'bug',[(L+'session.cpp','d_sessionState.addEgressLatency(','d_sessionState.addXLatency('),(L+'session.cpp','d_sessionState.addIngressLatency(','d_sessionState.addEgressLatency('),(L+'session.cpp','d_sessionState.addXLatency(','d_sessionState.addIngressLatency(')]),
# refactorings
('ok-value-local',['C15'],'ok',[(S,'''    auto  vhost      = session.getVirtualHost();
    auto &vhostStats = d_current.vhosts()[vhost];
    addStats(vhostStats);
''','''    addStats(d_current.vhosts()[session.getVirtualHost()]);
''')]),
('ok-order',['C15'],'ok',[(S,'''    remStats(vhostStats);
    remStats(backendStats);
''','''    remStats(backendStats);
    remStats(vhostStats);
''')]),
('ok-reset-assign',['C15'],'ok',[(S,'''    d_previous.swap(d_current);
    StatSnapshot temp;
    d_current.swap(temp);''','''    StatSnapshot fresh;
    fresh.swap(d_current);
    d_previous.swap(fresh);''')]),
('ok-reset-temp2',['C15'],'ok',[(S,'''    StatSnapshot temp;
    d_current.swap(temp);''','''    StatSnapshot().swap(d_current);''')]),
('ok-switch',['C15'],'ok',[(S,'''        if (discoStatus == DiscoType::DISCONNECTED_CLIENT) {
            statsObject.statsValue("removedConnectionClientSnapped") += 1;
        }
        else if (discoStatus == DiscoType::DISCONNECTED_SERVER) {
            statsObject.statsValue("removedConnectionBrokerSnapped") += 1;
        }
        else if (discoStatus == DiscoType::DISCONNECTED_CLEANLY ||
                 discoStatus == DiscoType::DISCONNECTED_PROXY) {
            statsObject.statsValue("removedConnectionGraceful") += 1;
        }
        else {
            statsObject.statsValue("activeConnectionCount") += 1;
        }
''','''        switch (discoStatus) {
        case DiscoType::DISCONNECTED_CLIENT:
            statsObject.statsValue("removedConnectionClientSnapped") += 1;
            break;
        case DiscoType::DISCONNECTED_SERVER:
            statsObject.statsValue("removedConnectionBrokerSnapped") += 1;
            break;
        case DiscoType::DISCONNECTED_CLEANLY:
        case DiscoType::DISCONNECTED_PROXY:
            statsObject.statsValue("removedConnectionGraceful") += 1;
            break;
        default:
            ++statsObject.statsValue("activeConnectionCount");
            break;
        }
''')]),
('ok-helper-subtract',['C15'],'ok',[(S,'''void StatCollector::populateProgramStats(''','''namespace {
void subtract(ConnectionStats *val, const ConnectionStats &prev)
{
    for (const auto &name : ConnectionStats::sessionMetrics()) {
        val->statsValue(name) -= prev.statsValue(name);
    }
    for (const auto &name : ConnectionStats::distributionMetrics()) {
        auto pair = prev.distributionPair(name);
        val->addDistributionStats(name, -pair.first, -pair.second);
    }
}
}

void StatCollector::populateProgramStats('''),(S,'''    for (auto &name : ConnectionStats::sessionMetrics()) {
        val.statsValue(name) -= prevStats.statsValue(name);
    }

    for (auto &name : ConnectionStats::distributionMetrics()) {
        const auto &prevDistribution = prevStats.distributionPair(name);
        val.addDistributionStats(
            name, -prevDistribution.first, -prevDistribution.second);
    }
''','''    subtract(&val, prevStats);
'''),(S,'''        auto &val = k.second;
        for (auto &name : ConnectionStats::sessionMetrics()) {
            val.statsValue(name) -= prevValue->statsValue(name);
        }

        for (auto &name : ConnectionStats::distributionMetrics()) {
            const auto &prevDistribution = prevValue->distributionPair(name);
            val.addDistributionStats(
                name, -prevDistribution.first, -prevDistribution.second);
        }
''','''        subtract(&k.second, *prevValue);
''')]),
('ok-pair-find',['C15'],'ok',[(S,'''        const ConnectionStats *prevValue = &zeroStats;

        auto it = previous.find(k.first);
        if (it != previous.end()) {
            prevValue = &it->second;
        }
''','''        const auto it = previous.find(k.first);
        const ConnectionStats *prevValue =
            it == previous.end() ? &zeroStats : &it->second;
''')]),
]
