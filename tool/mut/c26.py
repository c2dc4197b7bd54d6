
L='libamqpprox/amqpprox_'
H=L+'dnsresolver.h'; C=L+'dnsresolver.cpp'
M=[
('dispatch',['C26'],'bug',[(H,'''            auto cb = [callback, ec, result] { callback(ec, result); };
            d_ioContext.post(cb);''','''            auto cb = [callback, ec, result] { callback(ec, result); };
            d_ioContext.dispatch(cb);''')]),
('direct',['C26'],'bug',[(H,'''            auto cb = [callback, ec, result] { callback(ec, result); };
            d_ioContext.post(cb);''','''            callback(ec, result);''')]),
('cache-failure',['C26'],'bug',[(H,'''            callback(ec, endpoints);

            if (!ec) {
                setCachedResolution(host, service, std::move(endpoints));
            }''','''            callback(ec, endpoints);

            if (ec != boost::asio::error::operation_aborted) {
                setCachedResolution(host, service, std::move(endpoints));
            }''')]),
('cache-key-host',['C26'],'bug',[(H,'setCachedResolution(host, service, std::move(endpoints));','setCachedResolution(host, host, std::move(endpoints));')]),
('cache-find-swap',['C26'],'bug',[(H,'d_cache.find(std::make_pair(host, service))','d_cache.find(std::make_pair(host, host))')]),
('no-answer-on-error',['C26'],'bug',[(H,'''            callback(ec, endpoints);

            if (!ec) {''','''            if (!endpoints.empty()) {
                callback(ec, endpoints);
            }

            if (!ec) {''')]),
('success-always',['C26'],'bug',[(H,'''            callback(ec, endpoints);

            if (!ec) {''','''            callback(boost::system::error_code(), endpoints);

            if (!ec) {''')]),
('fallthrough',['C26'],'bug',[(H,'''            d_ioContext.post(cb);
            return;
        }''','''            d_ioContext.post(cb);
        }''')]),
('override-cached-always',['C26'],'bug',[(H,'''        if (!ec) {
            setCachedResolution(host, service, std::move(vec));
        }''','''        if (!vec.empty()) {
            setCachedResolution(host, service, std::move(vec));
        }''')]),
('set-key',['C26'],'bug',[(C,'d_cache[std::make_pair(query_host, query_service)] = resolution;','d_cache[std::make_pair(query_host, std::string())] = resolution;')]),
('set-emplace',['C26'],'bug',[(C,'d_cache[std::make_pair(query_host, query_service)] = resolution;','d_cache.emplace(std::make_pair(query_service, query_host), resolution);')]),
('clear-all-ok',['C26'],'ok',[(C,'''            CacheType       empty(d_cache.size() / 2);
            d_cache.swap(empty);''','''            d_cache.clear();''')]),
('reorder-ok',['C26'],'ok',[(H,'''            callback(ec, endpoints);

            if (!ec) {
                setCachedResolution(host, service, std::move(endpoints));
            }''','''            if (!ec) {
                auto copy = endpoints;
                setCachedResolution(host, service, std::move(copy));
            }
            callback(ec, endpoints);''')]),
('post-free-ok',['C26'],'ok',[(H,'''            auto cb = [callback, ec, result] { callback(ec, result); };
            d_ioContext.post(cb);
            return;''','''            boost::asio::post(d_ioContext, [callback, ec, result]() {
                callback(ec, result);
            });
            return;''')]),
('key-var-ok',['C26'],'ok',[(H,'''        auto it = d_cache.find(std::make_pair(host, service));''','''        const auto key = std::make_pair(host, service);
        auto it = d_cache.find(key);''')]),
('count-ok',['C26'],'ok',[(C,'d_cache[std::make_pair(query_host, query_service)] = resolution;','auto key = std::make_pair(query_host, query_service);\n    d_cache.insert_or_assign(key, std::move(resolution));')]),
]
