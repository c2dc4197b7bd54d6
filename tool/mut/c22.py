L='libamqpprox/amqpprox_'
A=L+'maybesecuresocketadaptor.h'; S=L+'session.cpp'; D=L+'dataratelimit.cpp'
M=[
('no-charge-tls',['C22'],'bug',[(A,'''            size_t result = d_socket->read_some(buffers, ec);

            recordReadUsage(result);
''','''            size_t result = d_socket->read_some(buffers, ec);
''')]),
('charge-minus-one',['C22'],'bug',[(A,'''                result = 1 + result;

                recordReadUsage(result);
''','''                recordReadUsage(result);
                result = 1 + result;
''')]),
('charge-only-ok',['C22'],'bug',[(A,'''            size_t result = d_socket->next_layer().read_some(buffers, ec);

            recordReadUsage(result);
''','''            size_t result = d_socket->next_layer().read_some(buffers, ec);

            if (result < buffers.size()) { recordReadUsage(result); }
''')]),
('charge-limit-twice',['C22'],'bug',[(A,'''        d_dataRateLimit.recordUsage(amount);
        d_dataRateAlarm.recordUsage(amount);''','''        d_dataRateLimit.recordUsage(amount);
        d_dataRateLimit.recordUsage(amount);''')]),
('charge-alarm-only-if-not-alarmed',['C22'],'bug',[(A,'''        d_dataRateAlarm.recordUsage(amount);''','''        if (!d_alarmed) { d_dataRateAlarm.recordUsage(amount); }''')]),
('set-alarm-on-limit',['C22'],'bug',[(A,'d_dataRateAlarm.setQuota(bytesPerSecond)','d_dataRateLimit.setQuota(bytesPerSecond)')]),
('refill-always',['C22'],'bug',[(A,'''                d_dataRateTimer->cancel();
                d_dataRateTimer->expires_at(d_dataRateTimer->expiry());''','''                d_dataRateTimer->cancel();
                d_dataRateLimit.onTimer();
                d_dataRateTimer->expires_at(d_dataRateTimer->expiry());''')]),
('alarm-delays',['C22'],'bug',[(A,'if (d_dataRateLimit.remainingQuota() == 0) {','if (d_dataRateLimit.remainingQuota() == 0 || d_dataRateAlarm.remainingQuota() == 0) {')]),
('limit-off-when-alarmed',['C22'],'bug',[(A,'if (d_dataRateLimit.remainingQuota() == 0) {','if (!d_alarmed && d_dataRateLimit.remainingQuota() == 0) {')]),
('limit-not-tls',['C22'],'bug',[(A,'if (d_dataRateLimit.remainingQuota() == 0) {','if (!isSecure() && d_dataRateLimit.remainingQuota() == 0) {')]),
('limit-le-1',['C22'],'bug',[(A,'if (d_dataRateLimit.remainingQuota() == 0) {','if (d_dataRateLimit.remainingQuota() <= 1) {')]),
('no-read-after-wait',['C22'],'bug',[(A,'''                        self->onTimer(error);
                        self->async_read_some(null_buffer, handler);''','''                        self->onTimer(error);''')]),
('no-refill-after-wait',['C22'],'bug',[(A,'''                        self->onTimer(error);
                        self->async_read_some(null_buffer, handler);''','''                        self->async_read_some(null_buffer, handler);''')]),
('read-on-abort',['C22'],'bug',[(A,'''                        if (error == boost::asio::error::operation_aborted) {
                            return;
                        }

                        std::shared_ptr''','''                        std::shared_ptr''')]),
('period-100',['C22'],'bug',[(A,'std::chrono::milliseconds(1000)','std::chrono::milliseconds(100)')]),
('period-1-ok',['C22'],'ok',[(A,'std::chrono::milliseconds(1000)','std::chrono::seconds(1)')]),
('half-refill',['C22'],'bug',[(A,'''        d_dataRateLimit.onTimer();
        d_dataRateAlarm.onTimer();''','''        d_dataRateLimit.onTimer();''')]),
('no-rearm',['C22'],'bug',[(A,'''                self->onTimer(error);
            });
''','''                self->d_dataRateLimit.onTimer(); self->d_dataRateAlarm.onTimer();
            });
''')]),
('underflow',['C22'],'bug',[(D,'d_remainingQuota -= std::min(d_remainingQuota, bytesRead);','d_remainingQuota -= bytesRead;')]),
('no-lower',['C22'],'bug',[(D,'        d_remainingQuota = d_quota;\n    }','    }')]),
('ontimer-add',['C22'],'bug',[(D,'''{
    d_remainingQuota = d_quota;''','''{
    d_remainingQuota += d_quota;''')]),
('clamp-refactor-ok',['C22'],'ok',[(D,'''    if (d_quota < d_remainingQuota) {
        // Apply the updated, restricted quota without needing to synchronise
        // setQuota and recordUsage
        d_remainingQuota = d_quota;
    }

    d_remainingQuota -= std::min(d_remainingQuota, bytesRead);''','''    const std::size_t quota = d_quota.load();
    d_remainingQuota = std::min(quota, d_remainingQuota);
    if (bytesRead >= d_remainingQuota) {
        d_remainingQuota = 0;
    }
    else {
        d_remainingQuota = d_remainingQuota - bytesRead;
    }''')]),
('unlimited-still-charged-ok',['C22'],'ok',[(D,'''    if (d_quota == std::numeric_limits<std::size_t>::max()) {
        // We don't trigger quota limits for this d_quota value
        return;
    }
''','''    const bool unlimited =
        d_quota == std::numeric_limits<std::size_t>::max();
    if (unlimited) {
        return;
    }
''')]),
('unlimited-charged',['C22'],'bug',[(D,'''    if (d_quota == std::numeric_limits<std::size_t>::max()) {
        // We don't trigger quota limits for this d_quota value
        return;
    }
''','')]),
('session-swap',['C22'],'bug',[(S,'''    d_serverSocket->setReadRateLimit(limit);
''','''    d_serverSocket->setReadRateAlarm(limit);
''')]),
('session-broker-socket',['C22'],'bug',[(S,'''    d_serverSocket->setReadRateLimit(limit);
''','''    d_clientSocket->setReadRateLimit(limit);
''')]),
('session-default',['C22'],'bug',[(S,'''d_limitManager->getDataRateLimit(d_sessionState.getVirtualHost());
    d_server''','''d_limitManager->getDefaultDataRateLimit();
    d_server''')]),
('session-after-acquire',['C22'],'bug',[(S,'''    this->updateDataRateLimits();

    if (d_sessionState.getPaused()) {''','''    if (d_sessionState.getPaused()) {''')]),
('session-reorder-ok',['C22'],'ok',[(S,'''    const std::size_t limit =
        d_limitManager->getDataRateLimit(d_sessionState.getVirtualHost());
    d_serverSocket->setReadRateLimit(limit);

    const std::size_t alarm =
        d_limitManager->getDataRateAlarm(d_sessionState.getVirtualHost());

    d_serverSocket->setReadRateAlarm(alarm);
''','''    const std::string vhost = d_sessionState.getVirtualHost();
    const std::size_t alarm = d_limitManager->getDataRateAlarm(vhost);
    const std::size_t limit = d_limitManager->getDataRateLimit(vhost);
    auto &socket = d_serverSocket;
    socket->setReadRateAlarm(alarm);
    socket->setReadRateLimit(limit);
''')]),
('helper-ok',['C22'],'ok',[(A,'''        if (d_dataRateLimit.remainingQuota() == 0) {
            if (d_dataRateTimerStarted) {''','''        const bool exhausted = d_dataRateLimit.remainingQuota() == 0;
        if (exhausted) {
            if (d_dataRateTimerStarted) {''')]),
('onehandler-ok',['C22'],'ok',[(A,'''                        if (error == boost::asio::error::operation_aborted) {
                            return;
                        }

                        std::shared_ptr<MaybeSecureSocketAdaptor> self =
                            weakSelf.lock();
                        if (!self) {
                            // This timer callback is being invoked after we've
                            // been destructed.
                            return;
                        }

                        self->onTimer(error);
                        self->async_read_some(null_buffer, handler);''','''                        if (error != boost::asio::error::operation_aborted) {
                            if (auto self = weakSelf.lock()) {
                                self->onTimer(error);
                                self->async_read_some(null_buffer, handler);
                            }
                        }''')]),
('helper2-ok',['C22'],'ok',[(A,'''            size_t result = d_socket->read_some(buffers, ec);

            recordReadUsage(result);

            return result;
        }
        else {
            size_t result = d_socket->next_layer().read_some(buffers, ec);

            recordReadUsage(result);

            return result;
        }
''','''            return charge(d_socket->read_some(buffers, ec));
        }
        return charge(d_socket->next_layer().read_some(buffers, ec));
'''),(A,'''    void onTimer(const boost::system::error_code &error)''','''    std::size_t charge(std::size_t n)
    {
        recordReadUsage(n);
        return n;
    }

    void onTimer(const boost::system::error_code &error)''')]),
]
