C='libamqpprox/amqpprox_connector.cpp'
M=[
('any-dir openok',['C06'],'bug',[(C,'if (direction == FlowType::EGRESS &&\n            method.methodType == methods::OpenOk','if (method.methodType == methods::OpenOk')]),
('no server check',['C06'],'bug',[(C,'        requireFromServer(method, direction);\n        decodeMethod(&d_receivedTune','        decodeMethod(&d_receivedTune')]),
('vhost late',['C06'],'bug',[(C,'        d_sessionState_p->setVirtualHost(d_open.virtualHost());\n',''),(C,'        d_connectionCreationHandler();\n','        d_connectionCreationHandler();\n        d_sessionState_p->setVirtualHost(d_open.virtualHost());\n')]),
('openok wrong side',['C06'],'bug',[(C,'sendResponse(d_openOk, true)','sendResponse(d_openOk, false)')]),
('ignore decode fail',['C06'],'bug',[(C,'        oss << "Failed to decode " << typeid(T).name();\n        throw std::runtime_error(oss.str());','        LOG_WARN << "Failed to decode " << typeid(T).name();')]),
('stale reply',['C06'],'bug',[(C,'    d_buffer = Buffer();\n    Buffer methodPayload','    Buffer methodPayload')]),
('skip state',['C06'],'bug',[(C,'d_state = State::AWAITING_OPEN;','d_state = State::AWAITING_CONNECTION;')]),
('order',['C06'],'bug',[(C,'        sendResponse(d_tuneOk, false);\n        sendResponse(d_open, false);','        sendResponse(d_open, false);\n        sendResponse(d_tuneOk, false);')]),
('synthclose',['C06'],'bug',[(C,': State::SERVER_CLOSE_SENT;',': State::CLIENT_CLOSE_SENT;')]),
('only close',['C06'],'bug',[(C,'    if (method.methodType != T::methodType()) {','    if (method.methodType != T::methodType() && method.methodType == methods::Close::methodType()) {')]),
('sends server tune',['C06'],'bug',[(C,'sendResponse(d_tuneOk, false);','sendResponse(d_receivedTune, false);')]),
('channel',['C06'],'bug',[(C,'f.channel                        = 0;','f.channel                        = 1;')]),
('expanded drop',['C06'],'bug',[(C,'''            d_buffer            = Buffer(d_synthesizedReplyBuffer.data(),
                              existingResponseData + returnedData);''','''            d_buffer            = Buffer(d_synthesizedReplyBuffer.data(),
                              returnedData);''')]),
('srv close',['C06'],'bug',[(C,'            if (direction == FlowType::EGRESS) {\n                d_state = State::CLOSED;\n            }','            d_state = State::CLOSED;')]),
('hdr state',['C06'],'bug',[(C,'    else {\n        d_state = State::ERROR;\n    }\n}','}')]),
('ok reorder',['C06'],'ok',[(C,'        sendResponse(d_synthesizedTune, true);\n        d_state = State::TUNE_SENT;','        d_state = State::TUNE_SENT;\n        sendResponse(d_synthesizedTune, true);')]),
('ok ifs',['C06'],'ok',[(C,'''        const bool isClose = method.methodType == methods::Close::methodType();
        const bool isCloseOk =
            method.methodType == methods::CloseOk::methodType();
        if (isClose || isCloseOk) {''','''        const bool isClose = method.methodType == methods::Close::methodType();
        const bool isCloseOk =
            method.methodType == methods::CloseOk::methodType();
        const bool isEither = isCloseOk || isClose;
        if (isEither) {''')]),
('ok early',['C06'],'ok',[(C,'''    // Normal pass-through: just look for CloseOk
    switch (d_state) {''','''    if (d_state == State::CLOSED || State::ERROR == d_state) {
        return;
    }
    // Normal pass-through: just look for CloseOk
    switch (d_state) {''')]),
('ok helper',['C06'],'ok',[('libamqpprox/amqpprox_connector.h','    template <typename T>\n','    void moveTo(State s) { d_state = s; }\n    template <typename T>\n'),(C,'d_state = State::TUNE_SENT;','moveTo(State::TUNE_SENT);'),(C,'d_state = State::OPEN_SENT;','moveTo(State::OPEN_SENT);')]),
]
