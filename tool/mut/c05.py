F='libamqpprox/amqpprox_connectionlimitermanager.cpp'
M=[
('ident',['C05'],'ok',[]),
('alarm-blocks',['C05'],'bug',[(F,'''                         << vhostName << " should be limited by default "
                         << alarmLimiter->second.second->toString();''','''                         << vhostName << " should be limited by default "
                         << alarmLimiter->second.second->toString(); return false;''')]),
('default-not-blocks',['C05'],'bug',[(F,'''                    << vhostName << " is limited by default "
                    << limiter->second.second->toString();
                return false;''','''                    << vhostName << " is limited by default "
                    << limiter->second.second->toString();''')]),
('swap default',['C05'],'bug',[(F,'''                                 d_defaultConnectionRateLimit,
''','''                                 d_defaultAlarmOnlyConnectionRateLimit,
''')]),
('overwrite specific',['C05'],'bug',[(F,'''    if (limitersPerVhost.find(vhostName) == limitersPerVhost.end()) {''','''    if (true) {''')]),
('remove flag',['C05'],'bug',[(F,'''    if (d_defaultConnectionRateLimit) {
        d_connectionRateLimitersPerVhost[vhostName] = {
            false,''','''    if (d_defaultConnectionRateLimit) {
        d_connectionRateLimitersPerVhost[vhostName] = {
            true,''')]),
('remove erase wrong',['C05'],'bug',[(F,'''        d_alarmOnlyConnectionRateLimitersPerVhost.erase(vhostName);''','''        d_connectionRateLimitersPerVhost.erase(vhostName);''')]),
('removedefault cond',['C05'],'bug',[(F,'''        if (!it->second.first) {
            it = d_connection''','''        if (it->second.first) {
            it = d_connection''')]),
('setdefault cond',['C05'],'bug',[(F,'''        if (!limiter.second.first) {''','''        if (limiter.second.first) {''')]),
('setdefault noref',['C05'],'bug',[(F,'''    for (auto &limiter : d_alarmOnly''','''    for (auto limiter : d_alarmOnly''')]),
('double query',['C05'],'bug',[(F,'''        if (!(limiter->second.second->allowNewConnection())) {''','''        if (!(limiter->second.second->allowNewConnection()) && !(limiter->second.second->allowNewConnection())) {''')]),
('refactor1',['C05'],'ok',[(F,'''    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);
    if (limiter != d_connectionRateLimitersPerVhost.end()) {
        if (!(limiter->second.second->allowNewConnection())) {
            if (limiter->second.first) {
                LOG_DEBUG
                    << "AMQPPROX_CONNECTION_LIMIT: The connection request for "
                    << vhostName << " is limited by "
                    << limiter->second.second->toString();
                return false;
            }
            else {
                LOG_DEBUG
                    << "AMQPPROX_CONNECTION_LIMIT: The connection request for "
                    << vhostName << " is limited by default "
                    << limiter->second.second->toString();
                return false;
            }
        }
    }

    return true;''','''    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);
    if (limiter == d_connectionRateLimitersPerVhost.end()) return true;
    const auto &[specific, lim] = limiter->second;
    const bool ok = lim->allowNewConnection();
    if (!ok && specific) { LOG_DEBUG << "x"; }
    return ok;''')]),
('refactor2',['C05'],'ok',[(F,'''    if (limitersPerVhost.find(vhostName) == limitersPerVhost.end()) {
        if (defaultLimit) {
            limitersPerVhost[vhostName] = {
                false,
                std::make_shared<FixedWindowConnectionRateLimiter>(
                    *defaultLimit)};
        }
    }''','''    if (!defaultLimit || limitersPerVhost.count(vhostName) > 0) return;
    limitersPerVhost.emplace(vhostName, std::make_pair(false, std::make_shared<FixedWindowConnectionRateLimiter>(defaultLimit.value())));
''')]),
('refactor3',['C05'],'ok',[(F,'''    for (auto it = d_connectionRateLimitersPerVhost.cbegin();
         it != d_connectionRateLimitersPerVhost.cend();) {
        if (!it->second.first) {
            it = d_connectionRateLimitersPerVhost.erase(it);
        }
        else {
            ++it;
        }
    }''','''    auto it = d_connectionRateLimitersPerVhost.begin();
    while (it != d_connectionRateLimitersPerVhost.end()) {
        const bool isSpecific = it->second.first;
        if (isSpecific) {
            ++it;
            continue;
        }
        it = d_connectionRateLimitersPerVhost.erase(it);
    }''')]),
]
