L='libamqpprox/amqpprox_'
P=['C33']
CL=L+'connectionlimitermanager.cpp'
ER='''        if (!it->second.first) {
            it = d_connectionRateLimitersPerVhost.erase(it);
        }
        else {
            ++it;
        }'''
ST=L+'statcontrolcommand.cpp'
SE='''        if (!functor.first(snapshot)) {
            it = d_functors.erase(it);
        }
        else {
            ++it;
        }'''
T=L+'types.cpp'
PP=L+'packetprocessor.cpp'
M=[
('erase-no-inc',P,'bug',[(CL,ER,'''        if (!it->second.first) {
            it = d_connectionRateLimitersPerVhost.erase(it);
        }''')]),
('erase-lost',P,'bug',[(CL,ER,'''        if (!it->second.first) {
            d_connectionRateLimitersPerVhost.erase(it);
        }
        ++it;''')]),
('stat-erase-lost',P,'bug',[(ST,SE,'''        if (!functor.first(snapshot)) {
            d_functors.erase(it);
        }
        ++it;''')]),
('stat-no-inc',P,'bug',[(ST,SE,'''        if (!functor.first(snapshot)) {
            it = d_functors.erase(it);
        }''')]),
('stat-rfor',P,'bug',[(ST,'''    auto it = std::begin(d_functors);
    for (; it != std::end(d_functors);) {
        auto functor = *it;
'''+SE+'''
    }''','''    std::size_t i = 0;
    for (auto &functor : d_functors) {
        if (!functor.first(snapshot)) {
            d_functors.erase(std::next(d_functors.begin(), i));
            continue;
        }
        ++i;
    }''')]),
('pp-continue',P,'bug',[(PP,'''        const void *currFrame = nextFrame;
        bool        decodable = Frame::decode(
            &frame, &nextFrame, &remaining, currFrame, remaining);
''','''        const void *currFrame = nextFrame;
        std::size_t left = remaining;
        bool        decodable = Frame::decode(
            &frame, &nextFrame, &left, currFrame, remaining);
''')]),
('array-continue',P,'bug',[(T,'''        if (!decodeFieldValue(&value, arrayBuffer, depth)) {
            return false;
        }''','''        Buffer item = arrayBuffer;
        if (!decodeFieldValue(&value, item, depth)) {
            return false;
        }''')]),
('encode-dec',P,'bug',[(T,'for (auto i = 0u; i < vector.size(); ++i) {','for (auto i = 0u; i < vector.size(); --i) {')]),
('encode-noinc',P,'bug',[(T,'for (auto i = 0u; i < vector.size(); ++i) {','for (auto i = 0u; i < vector.size();) {')]),
('ok-erase-post',P,'ok',[(CL,ER,'''        auto here = it++;
        if (!here->second.first) {
            d_connectionRateLimitersPerVhost.erase(here);
        }''')]),
('ok-erase-postinc',P,'ok',[(CL,ER,'''        if (!it->second.first) {
            d_connectionRateLimitersPerVhost.erase(it++);
        }
        else {
            it++;
        }''')]),
('ok-erase-cond',P,'ok',[(CL,ER,'''        it = it->second.first ? std::next(it) : d_connectionRateLimitersPerVhost.erase(it);''')]),
('ok-while',P,'ok',[(CL,'''    for (auto it = d_connectionRateLimitersPerVhost.cbegin();
         it != d_connectionRateLimitersPerVhost.cend();) {
'''+ER,'''    auto it = d_connectionRateLimitersPerVhost.cbegin();
    while (it != d_connectionRateLimitersPerVhost.cend()) {
        const bool own = it->second.first;
        if (own) {
            ++it;
            continue;
        }
        it = d_connectionRateLimitersPerVhost.erase(it);''')]),
('ok-pp-forever',P,'ok',[(PP,'''    while (remaining >= Frame::frameOverhead()) {''','''    while (true) {
        if (remaining < Frame::frameOverhead()) {
            break;
        }''')]),
('ok-pp-flag',P,'ok',[(PP,'''    while (remaining >= Frame::frameOverhead()) {''','''    const auto more = [&] { return remaining >= Frame::frameOverhead(); };
    while (more()) {''')]),
('ok-array-do',P,'ok',[(T,'''    while (arrayBuffer.available() > 0) {''','''    for (; arrayBuffer.available() != 0;) {''')]),
('ok-array-flag',P,'ok',[(T,'''    while (arrayBuffer.available() > 0) {
        FieldValue value('V', false);
        if (!decodeFieldValue(&value, arrayBuffer, depth)) {
            return false;
        }
''','''    bool more = arrayBuffer.available() > 0;
    while (more) {
        FieldValue value('V', false);
        if (!decodeFieldValue(&value, arrayBuffer, depth)) {
            return false;
        }
        more = arrayBuffer.available() > 0;
''')]),
('ok-encode-rev',P,'ok',[(T,'''    for (auto i = 0u; i < vector.size(); ++i) {
        if (!encodeFieldValue(writeBuffer, vector[i])) {''','''    for (auto i = vector.size(); i > 0; --i) {
        if (!encodeFieldValue(writeBuffer, vector[vector.size() - i])) {''')]),
('ok-encode-it',P,'ok',[(T,'''    for (auto i = 0u; i < vector.size(); ++i) {
        if (!encodeFieldValue(writeBuffer, vector[i])) {''','''    for (auto i = vector.begin(); i != vector.end(); ++i) {
        if (!encodeFieldValue(writeBuffer, *i)) {''')]),
('ok-encode-ptr',P,'ok',[(T,'''    for (auto i = 0u; i < vector.size(); ++i) {
        if (!encodeFieldValue(writeBuffer, vector[i])) {''','''    std::size_t i = 0;
    while (i != vector.size()) {
        if (!encodeFieldValue(writeBuffer, vector[i++])) {''')]),
]
