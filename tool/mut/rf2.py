# harmless rewrites; every claimed check has to stay quiet on them (tool/cross.py)
L = 'libamqpprox/amqpprox_'
def F(x):
    return L + x + '.cpp'
M = [
('collect switch', ['C15'], 'ok', [(F('statcollector'), """        if (discoStatus == DiscoType::DISCONNECTED_CLIENT) {
            statsObject.statsValue("removedConnectionClientSnapped") += 1;
        }
        else if (discoStatus == DiscoType::DISCONNECTED_SERVER) {
            statsObject.statsValue("removedConnectionBrokerSnapped") += 1;
        }
        else if (discoStatus == DiscoType::DISCONNECTED_CLEANLY ||
                 discoStatus == DiscoType::DISCONNECTED_PROXY) {
            statsObject.statsValue("removedConnectionGraceful") += 1;
        }
        else {
            statsObject.statsValue("activeConnectionCount") += 1;
        }
""", """        switch (discoStatus) {
        case DiscoType::DISCONNECTED_CLIENT:
            ++statsObject.statsValue("removedConnectionClientSnapped");
            break;
        case DiscoType::DISCONNECTED_SERVER:
            ++statsObject.statsValue("removedConnectionBrokerSnapped");
            break;
        case DiscoType::DISCONNECTED_CLEANLY:
        case DiscoType::DISCONNECTED_PROXY:
            ++statsObject.statsValue("removedConnectionGraceful");
            break;
        default:
            ++statsObject.statsValue("activeConnectionCount");
            break;
        }
""")]),
('collect backend helper', ['C15'], 'ok', [(F('statcollector'), """    auto backend =
        session.hostname(session.getEgress().second) + "_" +
        boost::lexical_cast<std::string>(session.getEgress().second.port());
    auto &backendStats = d_current.backends()[backend];
    addStats(backendStats);
""", """    addStats(d_current.backends()[backendName(session)]);
"""), (F('statcollector'), "bool StatCollector::collect(", """static std::string backendName(const SessionState &session)
{
    const auto remote = session.getEgress().second;
    return session.hostname(remote) + "_" + std::to_string(remote.port());
}

bool StatCollector::collect(""")]),
('collect captures', ['C15'], 'ok', [(F('statcollector'), """    auto addStats = [&egressPackets,
                     &ingressPackets,
                     &egressFrames,
                     &ingressFrames,
                     &egressBytes,
                     &ingressBytes,
                     &egressLatencyTotal,
                     &ingressLatencyTotal,
                     &egressLatencyCount,
                     &ingressLatencyCount,
                     &session,
                     &discoStatus](ConnectionStats &statsObject) {""", """    auto addStats = [&](ConnectionStats &statsObject) {""")]),
('rate find ternary', ['C22'], 'ok', [(F('dataratelimitmanager'), """    auto vhostRate = d_vhostDataRateQuota.find(vhostName);
    if (vhostRate == d_vhostDataRateQuota.end()) {
        return d_defaultDataRateQuota;
    }

    return vhostRate->second;
""", """    const auto vhostRate = d_vhostDataRateQuota.find(vhostName);
    return vhostRate != d_vhostDataRateQuota.cend() ? vhostRate->second
                                                    : d_defaultDataRateQuota;
""")]),
('rate template', ['C22'], 'ok', [(F('dataratelimitmanager'), """    auto vhostRate = d_vhostDataRateAlarmQuota.find(vhostName);
    if (vhostRate == d_vhostDataRateAlarmQuota.end()) {
        return d_defaultDataRateAlarmQuota;
    }

    return vhostRate->second;
""", """    return valueOr(
        d_vhostDataRateAlarmQuota, vhostName, d_defaultDataRateAlarmQuota);
"""), (F('dataratelimitmanager'), "DataRateLimitManager::DataRateLimitManager()", """template <typename MAP>
static std::size_t
valueOr(const MAP &map, const std::string &key, std::size_t fallback)
{
    auto it = map.find(key);
    if (it == map.end()) {
        return fallback;
    }
    return it->second;
}

DataRateLimitManager::DataRateLimitManager()""")]),
('rate insert_or_assign', ['C20'], 'ok', [(F('dataratelimitmanager'), "    d_vhostDataRateAlarmQuota[vhostName] = quota;", "    d_vhostDataRateAlarmQuota.insert_or_assign(vhostName, quota);")]),
('rate erase find', ['C20'], 'ok', [(F('dataratelimitmanager'), "    d_vhostDataRateQuota.erase(vhostName);", """    auto it = d_vhostDataRateQuota.find(vhostName);
    if (it != d_vhostDataRateQuota.end()) {
        d_vhostDataRateQuota.erase(it);
    }""")]),
('state prime helper', ['C10'], 'ok', [(F('sessionstate'), """        d_egressLocalEndpoint  = local;
        d_egressRemoteEndpoint = remote;
        hostnameMapper         = d_hostnameMapper;
    }

    // Priming may wait for the name server, so the lock cannot be held
    if (hostnameMapper) {
        hostnameMapper->prime(ioContext, {local, remote});
    }
""", """        d_egressRemoteEndpoint = remote;
        d_egressLocalEndpoint  = local;
        hostnameMapper         = d_hostnameMapper;
    }

    if (!hostnameMapper) {
        return;
    }
    hostnameMapper->prime(ioContext, {local, remote});
""")]),
('state hostname', ['C23'], 'ok', [(F('sessionstate'), """    if (!hostnameMapper) {
        return boost::lexical_cast<std::string>(endpoint.address());
    }
    return hostnameMapper->mapToHostname(endpoint);
""", """    return hostnameMapper
               ? hostnameMapper->mapToHostname(endpoint)
               : boost::lexical_cast<std::string>(endpoint.address());
""")]),
('state totals plus', ['C15'], 'ok', [(F('sessionstate'), """    d_ingressPacketTotal.fetch_add(1, std::memory_order_relaxed);
    d_ingressFrameTotal.fetch_add(frames, std::memory_order_relaxed);
    d_ingressBytesTotal.fetch_add(bytes, std::memory_order_relaxed);
""", """    ++d_ingressPacketTotal;
    d_ingressBytesTotal += bytes;
    d_ingressFrameTotal += frames;
""")]),
('farm member loop', ['C17'], 'ok', [(F('farm'), """    for (const auto &member : d_backendMembers) {
        const Backend *backend = d_backendStore_p->lookup(member);
        if (backend) {
            initialPartition.push_back(backend);
        }
    }
""", """    for (auto it = d_backendMembers.cbegin(); it != d_backendMembers.cend();
         ++it) {
        if (const Backend *backend = d_backendStore_p->lookup(*it)) {
            initialPartition.push_back(backend);
        }
    }
""")]),
('farm members assign', ['C20'], 'ok', [(F('farm'), """    std::copy(d_backendMembers.cbegin(),
              d_backendMembers.cend(),
              std::back_inserter(*members));
""", """    for (const auto &member : d_backendMembers) {
        members->push_back(member);
    }
""")]),
('farm ctor insert', ['C20'], 'ok', [(F('farm'), """    std::copy(members.cbegin(),
              members.cend(),
              std::inserter(d_backendMembers, d_backendMembers.end()));

    repartition();""", """    d_backendMembers.insert(members.begin(), members.end());

    repartition();""")]),
('json first', ['C15'], 'ok', [(F('jsonstatformatter'), """    bool firstIteration = true;
    os << "{";
    for (const auto &stat : statsMap) {
        if (!firstIteration) {
            os << ", ";
        }
        else {
            firstIteration = false;
        }

        os << "\\"" << stat.first << "\\": ";
        format(os, stat.second);
    }
    os << "}";
""", """    const char *separator = "";
    os << "{";
    for (const auto &[name, connectionStats] : statsMap) {
        os << separator << "\\"" << name << "\\": ";
        format(os, connectionStats);
        separator = ", ";
    }
    os << "}";
""")]),
('json process', ['C15'], 'ok', [(F('jsonstatformatter'), """    os << "{"
       << "\\"cpu_percent_overall\\": " << processStats.d_overall << ", "
       << "\\"cpu_percent_user\\": " << processStats.d_user << ", "
""", """    os << "{";
    os << "\\"cpu_percent_overall\\": " << processStats.d_overall << ", ";
    os << "\\"cpu_percent_user\\": " << processStats.d_user << ", "
""")]),
('control find verb', ['C21'], 'ok', [(F('control'), """        auto controlCommand = d_control_p->getControlCommand(commandVerb);
        if (controlCommand) {
            controlCommand->handleCommand(
                commandVerb, remaining, outputFunc, d_server_p, d_control_p);
        }
        else {
            auto helpCommand = d_control_p->getControlCommand("HELP");
            helpCommand->handleCommand(
                "HELP", "", outputFunc, d_server_p, d_control_p);
        }
""", """        auto controlCommand = d_control_p->getControlCommand(commandVerb);
        if (!controlCommand) {
            commandVerb    = "HELP";
            remaining      = "";
            controlCommand = d_control_p->getControlCommand(commandVerb);
        }
        controlCommand->handleCommand(
            commandVerb, remaining, outputFunc, d_server_p, d_control_p);
""")]),
('control split', ['C21'], 'ok', [(F('control'), """        auto spaceLocation = input.find_first_of(' ');

        std::string remaining{""};
        if (spaceLocation != std::string::npos) {
            remaining = input.substr(spaceLocation);
        }

        auto commandVerb = input.substr(0, spaceLocation);
""", """        const auto spaceLocation = input.find(' ');
        auto       commandVerb   = input.substr(0, spaceLocation);

        std::string remaining = spaceLocation == std::string::npos
                                    ? std::string()
                                    : input.substr(spaceLocation);
""")]),
('control read guard', ['C12'], 'ok', [(F('control'), """                if (!ec) {
                    std::istream is(&d_streamBuf);
                    std::string  line;
                    std::getline(is, line);
                    processInput(line);
                    readInput();
                }
                else {
                    d_finished = true;
                }
""", """                if (ec) {
                    d_finished = true;
                    return;
                }

                std::string line;
                {
                    std::istream is(&d_streamBuf);
                    std::getline(is, line);
                }
                processInput(line);
                readInput();
""")]),
('control get ternary', ['C21'], 'ok', [(F('control'), """    if (it != d_controlCommands.end()) {
        return it->second.get();
    }
    else {
        return nullptr;
    }
""", """    return it == d_controlCommands.end() ? nullptr : it->second.get();
""")]),
('control recurring', ['C25'], 'ok', [(F('control'), """        if (event(this, d_server_p)) {
            scheduleRecurringEvent(intervalMs, name, event);
        }
        else {
            LOG_DEBUG << "Recurring event '" << name << "' requested to stop";
        }
""", """        const bool again = event(this, d_server_p);
        if (!again) {
            LOG_DEBUG << "Recurring event '" << name << "' requested to stop";
            return;
        }
        scheduleRecurringEvent(intervalMs, name, event);
""")]),
('mapper known', ['C10'], 'ok', [(F('dnshostnamemapper'), """        {
            boost::shared_lock<boost::shared_mutex> lock(d_lg);
            if (d_hostnameMap.find(address) != d_hostnameMap.end()) {
                continue;
            }
        }
""", """        bool known = false;
        {
            boost::shared_lock<boost::shared_mutex> lock(d_lg);
            known = d_hostnameMap.count(address) != 0;
        }
        if (known) {
            continue;
        }
""")]),
('mapper emplace', ['C26'], 'ok', [(F('dnshostnamemapper'), "        d_hostnameMap.insert({address, destination->host_name()});", "        d_hostnameMap.emplace(address, destination->host_name());")]),
('window ternary', ['C28'], 'ok', [(F('fixedwindowconnectionratelimiter'), """    if (d_currentCount >= d_connectionLimit)
        return false;

    d_currentCount += 1;
    return true;
""", """    if (d_currentCount < d_connectionLimit) {
        ++d_currentCount;
        return true;
    }
    return false;
""")]),
('window elapsed', ['C28'], 'ok', [(F('fixedwindowconnectionratelimiter'), """    std::chrono::time_point<std::chrono::steady_clock,
                            std::chrono::milliseconds>
        currentTime = d_clockPtr->now();

    // Reset the parameters for next time window
    if (std::chrono::duration_cast<std::chrono::milliseconds>(
            currentTime - d_lastTime) >= d_timeWindowInMs) {
""", """    const auto currentTime = d_clockPtr->now();
    const auto elapsed     = currentTime - d_lastTime;

    // Reset the parameters for next time window
    if (!(elapsed < d_timeWindowInMs)) {
""")]),
('quota min', ['C22'], 'ok', [(F('dataratelimit'), """    if (d_quota < d_remainingQuota) {
        // Apply the updated, restricted quota without needing to synchronise
        // setQuota and recordUsage
        d_remainingQuota = d_quota;
    }

    d_remainingQuota -= std::min(d_remainingQuota, bytesRead);
""", """    // Apply the updated, restricted quota without needing to synchronise
    // setQuota and recordUsage
    d_remainingQuota = std::min<std::size_t>(d_remainingQuota, d_quota);
    if (bytesRead >= d_remainingQuota) {
        d_remainingQuota = 0;
    }
    else {
        d_remainingQuota -= bytesRead;
    }
""")]),
('signal copy scope', ['C10'], 'ok', [(L + 'eventsourcesignal.h', """        std::unique_lock<std::mutex>           lock(d_mutex);
        std::unordered_map<uint64_t, SignalCb> subscribers(d_subscribers);

        lock.unlock();  // UNLOCK

        for (auto &&subscriber : subscribers) {
            auto &&cb = subscriber.second;
            cb(args...);
        }
""", """        std::unordered_map<uint64_t, SignalCb> subscribers;
        {
            std::lock_guard<std::mutex> guard(d_mutex);
            subscribers = d_subscribers;
        }

        for (const auto &subscriber : subscribers) {
            subscriber.second(args...);
        }
""")]),
]
