S='libamqpprox/amqpprox_session.cpp'
K='libamqpprox/amqpprox_connector.cpp'
P=['C32']
M=[
('limit-drop',P,'bug',[(S,'''                            ", is limited by proxy.");
                    sendSyntheticData();''','''                            ", is limited by proxy.");''')]),
('limit-side',P,'bug',[(S,'''                    d_connector.synthesizeCustomCloseError(
                        true,
                        Reply::Codes::resource_error,''','''                    d_connector.synthesizeCustomCloseError(
                        false,
                        Reply::Codes::resource_error,''')]),
('limit-code',P,'bug',[(S,'''                        Reply::Codes::resource_error,
                        "The conn''','''                        Reply::Codes::reply_success,
                        "The conn''')]),
('limit-on-error-silent',P,'bug',[(S,'''                [this, self](const boost::system::error_code &error) {
                    d_connector''','''                [this, self](const boost::system::error_code &error) {
                    if (error) {
                        disconnect(true);
                        return;
                    }
                    d_connector''')]),
('noroute-drop',P,'bug',[(S,'''                    d_sessionState.getVirtualHost());
            sendSyntheticData();''','''                    d_sessionState.getVirtualHost());''')]),
('noroute-case-moved',P,'bug',[(S,'''        case SessionState::ConnectionStatus::NO_BACKEND:
            d_connector''','''            d_connector'''),(S,'''        default:
            LOG_INFO << "Failed to acquire connection for''','''        case SessionState::ConnectionStatus::NO_BACKEND:
            disconnect(true);
            break;

        default:
            LOG_INFO << "Failed to acquire connection for''')]),
('unauth-drop',P,'bug',[(S,'''                    methods::StartOk::methodType());
                sendSyntheticData();''','''                    methods::StartOk::methodType());''')]),
('unauth-inverted',P,'bug',[(S,'if (authenticationFailureClose) {','if (!authenticationFailureClose) {')]),
('unauth-always',P,'bug',[(S,'if (authenticationFailureClose) {','{')]),
('unauth-code',P,'bug',[(S,'Reply::Codes::access_refused','Reply::Codes::resource_error')]),
('unauth-type',P,'bug',[(S,"fv.type() == 't'","fv.type() == 'b'")]),
('close-drop',P,'bug',[(S,'''receivedClose.replyString());
        sendSyntheticData();''','''receivedClose.replyString());''')]),
('close-code',P,'bug',[(S,'true, receivedClose.replyCode(),','true, Reply::Codes::channel_error,')]),
('close-side',P,'bug',[(S,'true, receivedClose.replyCode(),','false, receivedClose.replyCode(),')]),
('close-none',P,'bug',[(S,'''        d_connector.synthesizeCustomCloseError(
            true, receivedClose.replyCode(), receivedClose.replyString());
        sendSyntheticData();
''','')]),
('orderly-drop',P,'bug',[(S,'''            d_connector.synthesizeClose(true);
            sendSyntheticData();''','''            d_connector.synthesizeClose(true);''')]),
('orderly-side',P,'bug',[(S,'''            d_connector.synthesizeClose(true);
            sendSyntheticData();''','''            d_connector.synthesizeClose(false);
            sendSyntheticData();''')]),
('nocloseok-drop',P,'bug',[(S,'''        d_connector.synthesizeClose(false);
        sendSyntheticData();  // sending Close to server side
''','''        d_connector.synthesizeClose(false);
''')]),
('send-side',P,'bug',[(S,'''        auto &writeSocket = d_connector.sendToIngressSide() ? *d_serverSocket
                                                            : *d_clientSocket;
        handleWriteData(d_connector''','''        auto &writeSocket = d_connector.sendToIngressSide() ? *d_clientSocket
                                                            : *d_serverSocket;
        handleWriteData(d_connector''')]),
('nolimit',P,'bug',[(K,'std::string(text.substr(0, Constants::shortStringLimit()))','std::string(text)')]),
('code-swapped',P,'bug',[(K,'d_close, sendToIngressSide, code, text, classId, methodId','d_close, sendToIngressSide, Reply::Codes::reply_success, text, classId, methodId')]),
('class-swapped',P,'bug',[(K,'''        classId,
        methodId);
    sendResponse(replyMethod''','''        methodId,
        classId);
    sendResponse(replyMethod''')]),
('text-lost',P,'bug',[(K,'d_close, sendToIngressSide, code, text, classId, methodId','d_close, sendToIngressSide, code, "OK", classId, methodId')]),
('side-flipped',P,'bug',[(K,'''        methodId);
    sendResponse(replyMethod, sendToIngressSide);''','''        methodId);
    sendResponse(replyMethod, !sendToIngressSide);''')]),
('not-encoded',P,'bug',[(K,'''        methodId);
    sendResponse(replyMethod, sendToIngressSide);''','''        methodId);
    if (code != Reply::Codes::access_refused) {
        sendResponse(replyMethod, sendToIngressSide);
    }''')]),
('text-first-part',P,'bug',[(K,'d_close, sendToIngressSide, code, text, classId, methodId','d_close, sendToIngressSide, code, text.substr(0, text.find(\';\')), classId, methodId')]),
('text-short',P,'bug',[(K,'d_close, sendToIngressSide, code, text, classId, methodId','d_close, sendToIngressSide, code, text.substr(0, 64), classId, methodId')]),
('ok-min',P,'ok',[(K,'std::string(text.substr(0, Constants::shortStringLimit()))','std::string(text.substr(0, std::min(text.size(), Constants::shortStringLimit())))')]),
('ok-local',P,'ok',[(K,'''    replyMethod.setReply(
        code,
        std::string(text.substr(0, Constants::shortStringLimit())),''','''    const std::string reason(text.substr(0, Constants::shortStringLimit()));
    replyMethod.setReply(
        code,
        reason,''')]),
('ok-if',P,'ok',[(K,'''    replyMethod.setReply(
        code,
        std::string(text.substr(0, Constants::shortStringLimit())),''','''    if (text.size() > Constants::shortStringLimit()) {
        text = text.substr(0, Constants::shortStringLimit());
    }
    replyMethod.setReply(
        code,
        std::string(text),''')]),
('ok-remove-suffix',P,'ok',[(K,'''    replyMethod.setReply(
        code,
        std::string(text.substr(0, Constants::shortStringLimit())),''','''    if (text.size() > Constants::shortStringLimit()) {
        text.remove_suffix(text.size() - Constants::shortStringLimit());
    }
    replyMethod.setReply(
        code,
        std::string(text),''')]),
('ok-ctor2',P,'ok',[(K,'std::string(text.substr(0, Constants::shortStringLimit()))','std::string(text.data(), std::min(text.size(), Constants::shortStringLimit()))')]),
('ok-unauth-early',P,'ok',[(S,'''            if (authenticationFailureClose) {
                d_connector''','''            const bool tell = authenticationFailureClose;
            if (tell) {
                d_connector''')]),
('ok-unauth-nested',P,'ok',[(S,'''    if (clientProperties.findFieldValue(&fv, Constants::capabilities()) &&
        fv.type() == 'F') {
        capa''','''    const bool found = clientProperties.findFieldValue(&fv, Constants::capabilities());
    if (found && fv.type() == 'F') {
        capa''')]),
('ok-helper',P,'ok',[(S,'''            d_connector.synthesizeClose(true);
            sendSyntheticData();''','''            auto tell = [this] {
                d_connector.synthesizeClose(true);
                sendSyntheticData();
            };
            tell();''')]),
('ok-log-first',P,'ok',[(S,'''        d_connector.synthesizeCustomCloseError(
            true, receivedClose.replyCode(), receivedClose.replyString());
        sendSyntheticData();

        std::ostringstream oss;
        oss << error.what()
            << ", Received method from server: " << receivedClose;
        logException(oss.str(), d_sessionState, direction);
''','''        std::ostringstream oss;
        oss << error.what()
            << ", Received method from server: " << receivedClose;
        logException(oss.str(), d_sessionState, direction);

        const auto code = receivedClose.replyCode();
        d_connector.synthesizeCustomCloseError(
            true, code, receivedClose.replyString());
        sendSyntheticData();
''')]),
('ok-ifs',P,'ok',[(S,'''        // Failure reason logged within acquireConnection
        switch (rc) {''','''        // Failure reason logged within acquireConnection
        const std::string message = "No known broker mapping for vhost " +
                    d_sessionState.getVirtualHost();
        switch (rc) {'''),(S,'''                "No known broker mapping for vhost " +
                    d_sessionState.getVirtualHost());
            sendS''','''                message);
            sendS''')]),
('ok-send-if',P,'ok',[(S,'''        auto &writeSocket = d_connector.sendToIngressSide() ? *d_serverSocket
                                                            : *d_clientSocket;
        handleWriteData(d_connector.sendToIngressSide() ? FlowType::INGRESS
                                                        : FlowType::EGRESS,
                        writeSocket,
                        outBuffer);
''','''        if (d_connector.sendToIngressSide()) {
            handleWriteData(FlowType::INGRESS, *d_serverSocket, outBuffer);
        }
        else {
            handleWriteData(FlowType::EGRESS, *d_clientSocket, outBuffer);
        }
''')]),
('ok-close-order',P,'ok',[(K,'''    d_state = sendToIngressSide ? State::CLIENT_CLOSE_SENT
                                : State::SERVER_CLOSE_SENT;
    synthesizeMessage(
        d_close, sendToIngressSide, Reply::Codes::reply_success, "OK");''','''    synthesizeMessage(
        d_close, sendToIngressSide, Reply::Codes::reply_success, "OK");
    if (sendToIngressSide) {
        d_state = State::CLIENT_CLOSE_SENT;
    }
    else {
        d_state = State::SERVER_CLOSE_SENT;
    }''')]),
]
