L='libamqpprox/amqpprox_'
S=L+'session.cpp'; K=L+'control.cpp'; H=L+'httpauthintercept.cpp'; A=L+'maybesecuresocketadaptor.h'; D=L+'dnsresolver.h'; SD=L+'statsdpublisher.cpp'
M=[
('read-no-self',['C11'],'bug',[(S,'[this, self, direction](error_code ec, std::size_t) {','[this, direction](error_code ec, std::size_t) {')]),
('resolve-ref',['C11'],'bug',[(S,'auto callback = [this, self, connectionManager](','auto callback = [this, self, &connectionManager](')]),
('timer-weak',['C11'],'bug',[(S,'''                [this, self](const boost::system::error_code &error) {''','''                [this, self = weak_from_this()](const boost::system::error_code &error) {''')]),
('auth-raw',['C11'],'bug',[(S,'auto authResponseCb = [this, self, connectionManager](','auto authResponseCb = [this, connectionManager](')]),
('raw-session',['C11'],'bug',[(S,'    d_ioContext.dispatch([this, self] {','    Session *session = self.get();\n    d_ioContext.dispatch([session, this, self] {\n        (void)session;')]),
('bind-this',['C11'],'bug',[(H,'''        beast::bind_front_handler(&HttpAuthIntercept::onWrite,
                                  shared_from_this(),''','''        beast::bind_front_handler(&HttpAuthIntercept::onWrite,
                                  this,''')]),
('drop-buffer',['C11'],'bug',[(H,'''    std::shared_ptr<beast::flat_buffer> buffer =
        std::make_shared<beast::flat_buffer>();
''','''    std::shared_ptr<beast::flat_buffer> buffer =
        std::make_shared<beast::flat_buffer>();
    std::shared_ptr<beast::flat_buffer> keep =
        std::make_shared<beast::flat_buffer>();
'''),(H,'''                                  shared_from_this(),
                                  buffer,''','''                                  shared_from_this(),
                                  keep,''')]),
('control-local',['C11'],'bug',[(K,'''            boost::asio::buffer(spOutput->data(), spOutput->length()),''','''            boost::asio::buffer(output.data(), output.length()),'''),(K,'bool sendOutput(const std::string &output, bool finishOutput)','bool sendOutput(const std::string output, bool finishOutput)')]),
('control-sp-not-kept',['C11'],'bug',[(K,'[this, finishOutput, self, spOutput](error_code  ec,','[this, finishOutput, self](error_code  ec,')]),
('control-read',['C11'],'bug',[(K,'            [this, self](error_code ec, std::size_t length) {','            [this](error_code ec, std::size_t length) {')]),
('control-output-listener',['C11'],'bug',[(K,'auto outputFunc = [this, self, input](','auto outputFunc = [this, input](')]),
('adaptor-timer-this',['C11'],'bug',[(A,'''        d_dataRateTimer->async_wait(
            [weakSelf, dataRateTimer = d_dataRateTimer](
                const boost::system::error_code &error) {
                // Pass d_dataRateTimer in by value only to extend
                // lifetime
                (void)dataRateTimer;

                std::shared_ptr<MaybeSecureSocketAdaptor> self =
                    weakSelf.lock();
                if (!self) {
                    return;
                }

                self->onTimer(error);''','''        d_dataRateTimer->async_wait(
            [this, dataRateTimer = d_dataRateTimer](
                const boost::system::error_code &error) {
                (void)dataRateTimer;
                this->onTimer(error);''')]),
('dns-ref',['C11'],'bug',[(D,'''        [this, host, service, callback](const boost::system::error_code &ec,''','''        [this, host, service, &callback](const boost::system::error_code &ec,''')]),
('dns-cb-implicit',['C11'],'bug',[(D,'auto cb = [callback, ec, vec] { callback(ec, vec); };','auto cb = [&] { callback(ec, vec); };')]),
('statsd-local',['C11'],'bug',[(SD,'''    d_socket.async_send_to(
        boost::asio::buffer(*buffer)''','''    std::string text = metric + "\\n";
    d_socket.async_send_to(
        boost::asio::buffer(text)''')]),
('shutdown-no-self',['C11'],'bug',[(S,'        d_clientSocket->async_shutdown([this, self](error_code shutdownEc) {','        d_clientSocket->async_shutdown([this](error_code shutdownEc) {')]),
('view-capture',['C11'],'bug',[(S,'    auto callback = [this, self, connectionManager](','    std::string     note = "resolved";\n    std::string_view seen(note);\n    auto callback = [this, self, seen, connectionManager](')]),
# behaviour kept
('ok-init-capture',['C11'],'ok',[(S,'[this, self, direction](error_code ec, std::size_t) {','[this, keep = shared_from_this(), direction](error_code ec, std::size_t) {')]),
('ok-self-only',['C11'],'ok',[(K,'''            [this, self](error_code ec, std::size_t length) {
                if (!ec) {
                    std::istream is(&d_streamBuf);
                    std::string  line;
                    std::getline(is, line);
                    processInput(line);
                    readInput();
                }
                else {
                    d_finished = true;
                }''','''            [self](error_code ec, std::size_t length) {
                if (!ec) {
                    std::istream is(&self->d_streamBuf);
                    std::string  line;
                    std::getline(is, line);
                    self->processInput(line);
                    self->readInput();
                }
                else {
                    self->d_finished = true;
                }''')]),
('ok-named-lambda',['C11'],'ok',[(K,'''        boost::asio::async_read_until(
            d_socket,
            d_streamBuf,
            '\\n',
            [this, self](error_code ec, std::size_t length) {
                if (!ec) {
                    std::istream is(&d_streamBuf);
                    std::string  line;
                    std::getline(is, line);
                    processInput(line);
                    readInput();
                }
                else {
                    d_finished = true;
                }
            });''','''        auto onInput = [this, self](error_code ec, std::size_t length) {
            if (ec) {
                d_finished = true;
                return;
            }
            std::istream is(&d_streamBuf);
            std::string  line;
            std::getline(is, line);
            processInput(line);
            readInput();
        };
        boost::asio::async_read_until(
            d_socket, d_streamBuf, '\\n', std::move(onInput));''')]),
('ok-copy-all',['C11'],'ok',[(S,'[this, self, direction](error_code ec, std::size_t) {','[=, self = self](error_code ec, std::size_t) {')]),
('ok-buffer-var',['C11'],'ok',[(K,'''        boost::asio::async_write(
            d_socket,
            boost::asio::buffer(spOutput->data(), spOutput->length()),''','''        const auto outgoing = boost::asio::buffer(*spOutput);
        boost::asio::async_write(
            d_socket,
            outgoing,''')]),
('ok-bind-lambda',['C11'],'ok',[(H,'''        beast::bind_front_handler(&HttpAuthIntercept::onConnect,
                                  shared_from_this(),
                                  stream,
                                  request,
                                  responseCb));''','''        [self = shared_from_this(), stream, request, responseCb](
            beast::error_code ec, tcp::endpoint endpoint) {
            self->onConnect(stream, request, responseCb, ec, endpoint);
        });''')]),
('ok-helper-fn',['C11'],'ok',[(S,'''    d_ioContext.dispatch([this, self] {''','''    auto work = [this, self] {'''),]),
]
M.pop()
