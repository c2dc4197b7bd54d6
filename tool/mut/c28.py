F='libamqpprox/amqpprox_fixedwindowconnectionratelimiter.cpp'
M=[('ident',['C28'],'ok',[]),
('gt',['C28'],'bug',[(F,'d_currentCount >= d_connectionLimit','d_currentCount > d_connectionLimit')]),
('nolast',['C28'],'bug',[(F,'d_lastTime     = currentTime;','')]),
('noreset',['C28'],'bug',[(F,'        d_currentCount = 0;','')]),
('always last',['C28'],'bug',[(F,'    if (d_currentCount >=','    d_lastTime = currentTime;\n    if (d_currentCount >=')]),
('dbl',['C28'],'bug',[(F,'d_currentCount += 1;','d_currentCount += 0;')]),
('window',['C28'],'bug',[(F,'>= d_timeWindowInMs','>= d_timeWindowInMs / 2')]),
('ref',['C28'],'ok',[(F,'''    if (d_currentCount >= d_connectionLimit)
        return false;

    d_currentCount += 1;
    return true;''','''    const bool room = d_currentCount < d_connectionLimit;
    if (room) { ++d_currentCount; }
    return room;'''),(F,'''if (std::chrono::duration_cast<std::chrono::milliseconds>(
            currentTime - d_lastTime) >= d_timeWindowInMs) {''','''const auto end = d_lastTime + d_timeWindowInMs; if (!(currentTime < end)) {''')]),
]
