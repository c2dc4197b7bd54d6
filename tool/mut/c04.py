H='libamqpprox/amqpprox_httpauthintercept.cpp'; D='libamqpprox/amqpprox_defaultauthintercept.cpp'
ERR='''        errorResponseData.set_result(authproto::AuthResponse::DENY);
        errorResponseData.set_reason(errorMsg);
        responseCb(errorResponseData);
        return;
'''
M=[('ident',['C04'],'ok',[]),
('no return',['C04'],'bug',[(H,ERR,ERR.replace('        return;\n',''))]),
('allow',['C04'],'bug',[(H,ERR,ERR.replace('DENY','ALLOW'))]),
('unset',['C04'],'bug',[(H,ERR,ERR.replace('errorResponseData.set_result(authproto::AuthResponse::DENY);',''))]),
('no cb',['C04'],'bug',[(H,ERR,ERR.replace('responseCb(errorResponseData);',''))]),
('ignore eof',['C04'],'bug',[(H,'''    boost::ignore_unused(bytes_transferred);

    if (ec) {
        const std::string errorMsg =
            "Unable to receive''','''    boost::ignore_unused(bytes_transferred);

    if (ec && ec != beast::http::error::end_of_stream) {
        const std::string errorMsg =
            "Unable to receive''')]),
('parse ignored',['C04'],'bug',[(H,'if (!authResponseData.ParseFromString(response->body())) {','authResponseData.ParseFromString(response->body());\n    if (response->body().empty()) {')]),
('verdict twice',['C04'],'bug',[(H,'        LOG_WARN << errorMsg;\n        return;','        LOG_WARN << errorMsg;\n        authResponseData.set_result(authproto::AuthResponse::DENY);\n        responseCb(authResponseData);\n        return;')]),
('forced allow',['C04'],'bug',[(H,'    LOG_TRACE << "Response from','    if (authResponseData.has_authdata()) {\n        authResponseData.set_result(authproto::AuthResponse::ALLOW);\n    }\n    LOG_TRACE << "Response from')]),
('default twice',['C04'],'bug',[(D,'responseCb(','responseCb(authproto::AuthResponse()); responseCb(')]),
('r helper',['C04'],'ok',[(H,'void HttpAuthIntercept::authenticate(','''namespace {
void deny(const std::string &msg, const AuthInterceptInterface::ReceiveResponseCb &cb)
{
    LOG_ERROR << msg;
    authproto::AuthResponse r;
    r.set_result(authproto::AuthResponse::DENY);
    r.set_reason(msg);
    cb(r);
}
}

void HttpAuthIntercept::authenticate('''),(H,'''        LOG_ERROR << errorMsg;
        authproto::AuthResponse errorResponseData;
'''+ERR,'        deny(errorMsg, responseCb);\n        return;\n')]),
('r lambda',['C04'],'ok',[(H,'''                             std::bind(&HttpAuthIntercept::onResolve,
                                       shared_from_this(),
                                       request,
                                       responseCb,
                                       std::placeholders::_1,
                                       std::placeholders::_2));''','''                             [self = shared_from_this(), request, responseCb](const boost::system::error_code &ec, std::vector<tcp::endpoint> results) { self->onResolve(request, responseCb, ec, results); });''')]),
('r else',['C04'],'ok',[(H,'''        return;
    }

    std::shared_ptr<beast::tcp_stream> stream =
        std::make_shared<beast::tcp_stream>(
            boost::asio::make_strand(d_ioContext));
    // Set a timeout on the operation
    stream->expires_after(std::chrono::seconds(TIMEOUT_SECONDS));

    // Make the connection on the IP address we get from a lookup
    stream->async_connect(
        results,
        beast::bind_front_handler(&HttpAuthIntercept::onConnect,
                                  shared_from_this(),
                                  stream,
                                  request,
                                  responseCb));
''','''    }
    else {
    std::shared_ptr<beast::tcp_stream> stream =
        std::make_shared<beast::tcp_stream>(
            boost::asio::make_strand(d_ioContext));
    // Set a timeout on the operation
    stream->expires_after(std::chrono::seconds(TIMEOUT_SECONDS));

    // Make the connection on the IP address we get from a lookup
    stream->async_connect(
        results,
        beast::bind_front_handler(&HttpAuthIntercept::onConnect,
                                  shared_from_this(),
                                  stream,
                                  request,
                                  responseCb));
    }
''')]),
]
