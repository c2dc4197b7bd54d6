# harmless rewrites; every claimed check has to stay quiet on them (tool/cross.py)
L = 'libamqpprox/amqpprox_'
CN, LM, LC, HA, SD = (L + x + '.cpp' for x in ('connector', 'connectionlimitermanager', 'limitcontrolcommand', 'httpauthintercept', 'statsdpublisher'))
M = [
('connector early return', ['C06'], 'ok', [(CN, """    if (d_state == State::AWAITING_PROTOCOL_HEADER) {
        if (buffer.equalContents(protocolHeader) ||
            buffer.equalContents(legacyProtocolHeader)) {
            sendResponse(d_synthesizedStart, true);
            d_state = State::START_SENT;
        }
        else {
            LOG_WARN << "Incorrect header passed. " << buffer.size()
                     << "bytes";
            d_buffer            = protocolHeader;
            d_sendToIngressSide = true;
            d_state             = State::ERROR;
        }
    }
    else {
        d_state = State::ERROR;
    }
""", """    if (d_state != State::AWAITING_PROTOCOL_HEADER) {
        d_state = State::ERROR;
        return;
    }

    const bool known = buffer.equalContents(protocolHeader) ||
                       buffer.equalContents(legacyProtocolHeader);
    if (known) {
        sendResponse(d_synthesizedStart, true);
        d_state = State::START_SENT;
        return;
    }

    LOG_WARN << "Incorrect header passed. " << buffer.size() << "bytes";
    d_state             = State::ERROR;
    d_sendToIngressSide = true;
    d_buffer            = protocolHeader;
""")]),
('connector decode helper', ['C06'], 'ok', [(CN, """        if (method.methodType == methods::Close::methodType() &&
            method.classType == methods::Close::classType() &&
            direction == FlowType::EGRESS) {
            methods::Close closeMethod;
            if (!methods::Close::decode(&closeMethod, buffer)) {
                oss << ". And Failed to decode received close method from "
                       "server";
                throw std::runtime_error(oss.str());
            }
            else {
                throw CloseError(oss.str(), closeMethod);
            }
        }
        else {
            throw std::runtime_error(oss.str());
        }
""", """        const bool isClose =
            method.methodType == methods::Close::methodType() &&
            method.classType == methods::Close::classType();
        if (!isClose || direction != FlowType::EGRESS) {
            throw std::runtime_error(oss.str());
        }
        methods::Close closeMethod;
        if (methods::Close::decode(&closeMethod, buffer)) {
            throw CloseError(oss.str(), closeMethod);
        }
        oss << ". And Failed to decode received close method from server";
        throw std::runtime_error(oss.str());
""")]),
('connector open helper', ['C06'], 'ok', [(CN, """const Buffer protocolHeader(Constants::protocolHeader(),""", """bool isAnyClose(const Method &method)
{
    return method.methodType == methods::CloseOk::methodType() ||
           method.methodType == methods::Close::methodType();
}

const Buffer protocolHeader(Constants::protocolHeader(),"""), (CN, """        if (method.methodType == methods::CloseOk::methodType() ||
            method.methodType == methods::Close::methodType()) {
            // We""", """        if (isAnyClose(method)) {
            // We""")]),
('connector client ident vars', ['C23'], 'ok', [(CN, """        auto clientEndpoint    = d_sessionState_p->getIngress().second;
        auto inboundListenPort = d_sessionState_p->getIngress().first.port();
        auto outboundLocalPort = d_sessionState_p->getEgress().first.port();
""", """        const auto ingress           = d_sessionState_p->getIngress();
        const auto &clientEndpoint   = ingress.second;
        const auto inboundListenPort = ingress.first.port();
        const auto outboundLocalPort =
            d_sessionState_p->getEgress().first.port();
""")]),
('connector openok nested', ['C06'], 'ok', [(CN, """        if (direction == FlowType::EGRESS &&
            method.methodType == methods::OpenOk::methodType()) {
            // We are good to go
            d_state = State::OPEN;
""", """        if (direction != FlowType::EGRESS) {
            break;
        }
        if (method.methodType == methods::OpenOk::methodType()) {
            // We are good to go
            d_state = State::OPEN;
""")]),
('connector close order', ['C06'], 'ok', [(CN, """        if (isClose || isCloseOk) {
            LOG_TRACE
                << "Received Close/CloseOk after sending Close to server.";
            if (isClose) {
                sendResponse(d_closeOk,
                             direction ==
                                 FlowType::INGRESS);  // send CloseOk back
            }
            if (direction == FlowType::EGRESS) {
                d_state = State::CLOSED;
            }
        }
        else {""", """        const bool fromClient = direction == FlowType::INGRESS;
        if (isClose) {
            LOG_TRACE << "Received Close after sending Close to server.";
            sendResponse(d_closeOk, fromClient);  // send CloseOk back
        }
        if (isClose || isCloseOk) {
            if (!fromClient) {
                d_state = State::CLOSED;
            }
        }
        else {""")]),
('connector buffer helper', ['C06'], 'ok', [(CN, "    d_buffer = Buffer();\n    Buffer methodPayload", "    resetOutBuffer();\n    Buffer methodPayload")]),
('connector expand helper', ['C11'], 'ok', [(CN, """        if (existingResponseData > 0) {
            // Expand and copy over the existing data in the reply buffer, this
            // happens when we're sending multiple messages in a row, within
            // the same network write, such as TuneOK + Open.
            BufferHandle expandedBuffer;
            d_bufferPool_p->acquireBuffer(&expandedBuffer,
                                          newLength + existingResponseData);
            memcpy(expandedBuffer.data(),
                   d_synthesizedReplyBuffer.data(),
                   existingResponseData);
            d_synthesizedReplyBuffer.swap(expandedBuffer);
        }
        else {
            d_bufferPool_p->acquireBuffer(&d_synthesizedReplyBuffer,
                                          newLength);
        }
""", """        if (existingResponseData == 0) {
            d_bufferPool_p->acquireBuffer(&d_synthesizedReplyBuffer,
                                          newLength);
        }
        else {
            const std::size_t total = existingResponseData + newLength;
            BufferHandle      expandedBuffer;
            d_bufferPool_p->acquireBuffer(&expandedBuffer, total);
            memcpy(expandedBuffer.data(),
                   d_synthesizedReplyBuffer.data(),
                   existingResponseData);
            expandedBuffer.swap(d_synthesizedReplyBuffer);
        }
""")]),
('limits for_each', ['C05'], 'ok', [(LM, """    for (auto &limiter : d_connectionRateLimitersPerVhost) {
        if (!limiter.second.first) {
            limiter.second.second =
                std::make_shared<FixedWindowConnectionRateLimiter>(
                    *d_defaultConnectionRateLimit);
        }
    }
""", """    std::for_each(d_connectionRateLimitersPerVhost.begin(),
                  d_connectionRateLimitersPerVhost.end(),
                  [&](auto &limiter) {
                      if (limiter.second.first) {
                          return;
                      }
                      limiter.second.second =
                          std::make_shared<FixedWindowConnectionRateLimiter>(
                              defaultConnectionRateLimit);
                  });
"""), (LM, '#include <memory>', '#include <algorithm>\n#include <memory>')]),
('limits bindings', ['C05'], 'ok', [(LM, """    for (auto &limiter : d_alarmOnlyConnectionRateLimitersPerVhost) {
        if (!limiter.second.first) {
            limiter.second.second =
                std::make_shared<FixedWindowConnectionRateLimiter>(
                    *d_defaultAlarmOnlyConnectionRateLimit);
        }
    }
""", """    for (auto &[vhost, entry] : d_alarmOnlyConnectionRateLimitersPerVhost) {
        auto &[isSpecific, limiter] = entry;
        if (isSpecific) {
            continue;
        }
        limiter = std::make_shared<FixedWindowConnectionRateLimiter>(
            *d_defaultAlarmOnlyConnectionRateLimit);
    }
""")]),
('limits while erase', ['C05'], 'ok', [(LM, """    for (auto it = d_connectionRateLimitersPerVhost.cbegin();
         it != d_connectionRateLimitersPerVhost.cend();) {
        if (!it->second.first) {
            it = d_connectionRateLimitersPerVhost.erase(it);
        }
        else {
            ++it;
        }
    }
""", """    auto it = d_connectionRateLimitersPerVhost.begin();
    while (it != d_connectionRateLimitersPerVhost.end()) {
        if (it->second.first) {
            ++it;
            continue;
        }
        it = d_connectionRateLimitersPerVhost.erase(it);
    }
""")]),
('limits erase helper', ['C05'], 'ok', [(LM, """    d_defaultAlarmOnlyConnectionRateLimit.reset();
    for (auto it = d_alarmOnlyConnectionRateLimitersPerVhost.cbegin();
         it != d_alarmOnlyConnectionRateLimitersPerVhost.cend();) {
        if (!it->second.first) {
            it = d_alarmOnlyConnectionRateLimitersPerVhost.erase(it);
        }
        else {
            ++it;
        }
    }
""", """    d_defaultAlarmOnlyConnectionRateLimit.reset();
    eraseDefaults(d_alarmOnlyConnectionRateLimitersPerVhost);
"""), (LM, "void ConnectionLimiterManager::removeConnectionRateLimiter(", """template <typename MAP>
static void eraseDefaults(MAP &limiters)
{
    for (auto it = limiters.begin(); it != limiters.end();) {
        it = it->second.first ? std::next(it) : limiters.erase(it);
    }
}

void ConnectionLimiterManager::removeConnectionRateLimiter(""")]),
('limits allow flat', ['C05'], 'ok', [(LM, """    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);
    if (limiter != d_connectionRateLimitersPerVhost.end()) {
        if (!(limiter->second.second->allowNewConnection())) {
            if (limiter->second.first) {
                LOG_DEBUG
                    << "AMQPPROX_CONNECTION_LIMIT: The connection request for "
                    << vhostName << " is limited by "
                    << limiter->second.second->toString();
                return false;
            }
            else {
                LOG_DEBUG
                    << "AMQPPROX_CONNECTION_LIMIT: The connection request for "
                    << vhostName << " is limited by default "
                    << limiter->second.second->toString();
                return false;
            }
        }
    }

    return true;
""", """    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);
    if (limiter == d_connectionRateLimitersPerVhost.end()) {
        return true;
    }

    const auto &[isSpecific, rate] = limiter->second;
    if (rate->allowNewConnection()) {
        return true;
    }

    LOG_DEBUG << "AMQPPROX_CONNECTION_LIMIT: The connection request for "
              << vhostName << " is limited by "
              << (isSpecific ? "" : "default ") << rate->toString();
    return false;
""")]),
('limits get ternary', ['C05'], 'ok', [(LM, """    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);
    if (limiter != d_connectionRateLimitersPerVhost.end()) {
        return limiter->second.second;
    }
    return nullptr;
""", """    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);
    return limiter == d_connectionRateLimitersPerVhost.end()
               ? nullptr
               : limiter->second.second;
""")]),
('limit cmd direct visitor', ['C20'], 'ok', [(LC, """    auto visitor = [](const std::shared_ptr<Session> &session) {
        session->updateDataRateLimits();
    };

    serverHandle->visitSessions(visitor);
""", """    serverHandle->visitSessions(
        [](const std::shared_ptr<Session> &s) { s->updateDataRateLimits(); });
""")]),
('limit cmd hoist', ['C20'], 'ok', [(LC, """    if (isDisable) {
        if (isDefault) {
            const size_t DISABLED_LIMIT = std::numeric_limits<size_t>::max();
            limitManager->setDefaultDataRateAlarm(DISABLED_LIMIT);

            updateDefaultLimits(serverHandle);
        }
        else {
            limitManager->disableVhostDataRateAlarm(vhostName);

            updateVhostLimits(serverHandle, vhostName);
        }
    }
    else {
        size_t bytesPerSecond = 0;
        if (!(iss >> bytesPerSecond)) {
            output << "Failed to read bytesPerSecond";
            return;
        }

        if (isDefault) {
            limitManager->setDefaultDataRateAlarm(bytesPerSecond);

            updateDefaultLimits(serverHandle);
        }
        else {
            limitManager->setVhostDataRateAlarm(vhostName, bytesPerSecond);

            updateVhostLimits(serverHandle, vhostName);
        }
    }
""", """    size_t bytesPerSecond = std::numeric_limits<size_t>::max();
    if (!isDisable && !(iss >> bytesPerSecond)) {
        output << "Failed to read bytesPerSecond";
        return;
    }

    if (isDefault) {
        limitManager->setDefaultDataRateAlarm(bytesPerSecond);
        updateDefaultLimits(serverHandle);
        return;
    }

    if (isDisable) {
        limitManager->disableVhostDataRateAlarm(vhostName);
    }
    else {
        limitManager->setVhostDataRateAlarm(vhostName, bytesPerSecond);
    }
    updateVhostLimits(serverHandle, vhostName);
""")]),
('auth deny helper', ['C04'], 'ok', [(HA, """        LOG_ERROR << errorMsg;
        authproto::AuthResponse errorResponseData;
        errorResponseData.set_result(authproto::AuthResponse::DENY);
        errorResponseData.set_reason(errorMsg);
        responseCb(errorResponseData);
        return;
    }

    std::shared_ptr<beast::tcp_stream> stream =""", """        denyWith(errorMsg, responseCb);
        return;
    }

    std::shared_ptr<beast::tcp_stream> stream ="""), (HA, """        LOG_ERROR << errorMsg;
        authproto::AuthResponse errorResponseData;
        errorResponseData.set_result(authproto::AuthResponse::DENY);
        errorResponseData.set_reason(errorMsg);
        responseCb(errorResponseData);
        return;
    }
    LOG_TRACE <<""", """        denyWith(errorMsg, responseCb);
        return;
    }
    LOG_TRACE <<"""), (HA, "void HttpAuthIntercept::onResolve(", """static void denyWith(const std::string                          &reason,
                     const AuthInterceptInterface::ReceiveResponseCb &cb)
{
    LOG_ERROR << reason;
    authproto::AuthResponse response;
    response.set_result(authproto::AuthResponse::DENY);
    response.set_reason(reason);
    cb(response);
}

void HttpAuthIntercept::onResolve(""")]),
('auth status positive', ['C04'], 'ok', [(HA, """    if (beast::http::to_status_class(response->result()) !=
        beast::http::status_class::successful) {""", """    const auto statusClass = beast::http::to_status_class(response->result());
    const bool successful =
        statusClass == beast::http::status_class::successful;
    if (!successful) {""")]),
('auth result var', ['C04'], 'ok', [(HA, """    responseCb(authResponseData);

    // Gracefully close the socket
    stream->socket().shutdown(tcp::socket::shutdown_both, ec);
""", """    responseCb(authResponseData);

    // Gracefully close the socket
    auto &socket = stream->socket();
    socket.shutdown(tcp::socket::shutdown_both, ec);
""")]),
('auth lambdas', ['C04'], 'ok', [(HA, """        beast::bind_front_handler(&HttpAuthIntercept::onConnect,
                                  shared_from_this(),
                                  stream,
                                  request,
                                  responseCb));""", """        [self = shared_from_this(), stream, request, responseCb](
            beast::error_code                          ec,
            tcp::resolver::results_type::endpoint_type endpoint) {
            self->onConnect(stream, request, responseCb, ec, endpoint);
        });""")]),
('statsd switch', ['C15'], 'ok', [(SD, """    if (type == MetricType::GAUGE) {
        metric += "g";
    }
    else if (type == MetricType::COUNTER) {
        metric += "c";
    }
    else if (type == MetricType::DISTRIBUTION) {
        metric += "d";
    }

    return metric;""", """    switch (type) {
    case MetricType::GAUGE:
        return metric + "g";
    case MetricType::COUNTER:
        return metric + "c";
    case MetricType::DISTRIBUTION:
        return metric + "d";
    }

    return metric;""")]),
('statsd stream', ['C15'], 'ok', [(SD, """    for (const auto &tag : tags) {
        metric += ",";
        metric += tag.first;
        metric += "=";
        metric += tag.second;
    }
    metric += ":";
    metric += std::to_string(value);
    metric += "|";
""", """    for (const auto &[key, tagValue] : tags) {
        metric += "," + key + "=" + tagValue;
    }
    metric += ":" + std::to_string(value) + "|";
""")]),
('statsd pool prefix', ['C15'], 'ok', [(SD, """        sendMetric(formatMetric(MetricType::COUNTER,
                                "pools_" + std::to_string(pool.d_bufferSize) +
                                    "_current",
                                pool.d_currentAllocation,
                                {}));
        sendMetric(formatMetric(MetricType::COUNTER,
                                "pools_" + std::to_string(pool.d_bufferSize) +
                                    "_highest",
                                pool.d_highwaterMark,
                                {}));
""", """        const std::string prefix =
            "pools_" + std::to_string(pool.d_bufferSize);
        auto emitPool = [&](const std::string &suffix, uint64_t value) {
            sendMetric(
                formatMetric(MetricType::COUNTER, prefix + suffix, value, {}));
        };
        emitPool("_current", pool.d_currentAllocation);
        emitPool("_highest", pool.d_highwaterMark);
""")]),
('statsd gauge ternary', ['C15'], 'ok', [(SD, """        MetricType type = MetricType::COUNTER;

        if (std::find(gaugeMetrics.begin(), gaugeMetrics.end(), name) !=
            gaugeMetrics.end()) {
            type = MetricType::GAUGE;
        }
        sendMetric(""", """        const bool isGauge =
            std::find(gaugeMetrics.begin(), gaugeMetrics.end(), name) !=
            gaugeMetrics.end();
        const MetricType type =
            isGauge ? MetricType::GAUGE : MetricType::COUNTER;
        sendMetric(""")]),
]
