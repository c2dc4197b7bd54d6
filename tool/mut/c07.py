P='libamqpprox/amqpprox_packetprocessor.cpp'
S='libamqpprox/amqpprox_session.cpp'
H='libamqpprox/amqpprox_session.h'
SS='libamqpprox/amqpprox_sessionstate.cpp'
F='libamqpprox/amqpprox_frame.cpp'
M=[
('swap totals',['C07'],'bug',[(P,'d_state.incrementEgressTotals(frameCount, byteCount)','d_state.incrementIngressTotals(frameCount, byteCount)')]),
('bytes incl rest',['C07'],'bug',[(P,'size_t byteCount = readBuffer.offset() - remaining;','size_t byteCount = readBuffer.offset();')]),
('count before decode',['C07'],'bug',[(P,'        ++frameCount;\n',''),(P,'        const void *currFrame = nextFrame;','        ++frameCount;\n        const void *currFrame = nextFrame;')]),
('count only non-heartbeat',['C07'],'bug',[(P,'        ++frameCount;\n','        if (frame.type != 8)\n            ++frameCount;\n')]),
('limit frames',['C07'],'bug',[(P,'while (remaining >= Frame::frameOverhead()) {','while (remaining >= Frame::frameOverhead() && frameCount < 100) {')]),
('gt overhead',['C07'],'bug',[(P,'while (remaining >= Frame::frameOverhead()) {','while (remaining > Frame::frameOverhead()) {')]),
('wrong side',['C07'],'bug',[(P,'            d_egressWriteBuffer  = Buffer();\n            d_ingressWriteBuffer = Buffer(readBuffer.originalPtr(), byteCount);','            d_ingressWriteBuffer  = Buffer();\n            d_egressWriteBuffer = Buffer(readBuffer.originalPtr(), byteCount);')]),
('open at start',['C07'],'bug',[(P,'    Frame frame;\n','    const bool open = d_connector.state() == Connector::State::OPEN;\n    Frame frame;\n'),(P,'    // Pass through the data\n    if (d_connector.state() == Connector::State::OPEN) {','    if (open) {')]),
('drop rest when open',['C07'],'bug',[(P,'    d_remainingBuffer = Buffer(nextFrame, remaining);','    d_remainingBuffer = Buffer(nextFrame, d_connector.state() == Connector::State::OPEN && remaining < 8 ? 0 : remaining);')]),
('mark reset',['C07'],'bug',[(H,'            d_serverWaterMark = remaining.size();','            d_serverWaterMark = remaining.available() > 7 ? remaining.size() : 0;')]),
('client copy from server',['C07'],'bug',[(H,'                d_clientDataHandle.data(), remaining.ptr(), d_clientWaterMark','                d_clientDataHandle.data(), remaining.ptr(), d_serverWaterMark')]),
('no swap',['C07'],'bug',[(H,'            d_clientWriteDataHandle.swap(d_clientDataHandle);\n','')]),
('release always',['C07'],'bug',[(S,'        if (0 == watermark) {\n            bufferHandle(direction).release();','        bufferHandle(direction).release();\n        if (0 == watermark) {')]),
('resume wrong',['C07'],'bug',[(S,'handleWriteData(isOpen ? FlowType::INGRESS : FlowType::EGRESS,','handleWriteData(FlowType::EGRESS,')]),
('write some',['C07'],'bug',[(S,'boost::asio::buffer(data.ptr(), data.available()),\n                             writeHandler','boost::asio::buffer(data.ptr(), std::min(data.available(), std::size_t(65536))),\n                             writeHandler')]),
('watermark assign',['C07'],'bug',[(S,'watermark += readAmount;','watermark = readAmount;')]),
('max read',['C07'],'bug',[(S,'if (0 == watermark) {\n                d_bufferPool_p','if (0 == watermark || available > bufh.size()) {\n                d_bufferPool_p')]),
('read on error',['C07'],'bug',[(S,'            else if (ec == boost::asio::error::would_block) {\n                readData(direction);\n            }','            else if (ec == boost::asio::error::would_block) {\n                if (!currentlyReading(direction)) readData(direction);\n            }')]),
('paused egress',['C07'],'bug',[(S,'if (direction == FlowType::EGRESS ||\n                    !d_sessionState.getPaused()) {','if (!d_sessionState.getPaused()) {')]),
('both writes',['C07'],'bug',[(S,'        else if (egressWrite.size()) {','        if (egressWrite.size()) {')]),
('bytes counter',['C07'],'bug',[(SS,'d_egressFrameTotal.fetch_add(frames','d_egressFrameTotal.fetch_add(bytes')]),
('frame end',['C07'],'bug',[(F,'*remaining  = bufferLen - (','*remaining  = bufferLen - 1 - (')]),
('dispatch all classes',['C06'],'bug',[(P,'if (method.classType == 10) {  // Connection','if (method.classType <= 10) {')]),
('dispatch direction',['C06'],'bug',[(P,'d_connector.receive(method, direction);','d_connector.receive(method, FlowType::INGRESS);')]),
('dispatch open',['C06'],'bug',[(P,'if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {','if (1 == frame.type) {')]),
('route',['C06'],'bug',[(P,'''                if (d_connector.sendToIngressSide()) {
                    d_ingressWriteBuffer = d_connector.outBuffer();
                    d_egressWriteBuffer  = Buffer();''','''                if (direction == FlowType::INGRESS) {
                    d_ingressWriteBuffer = d_connector.outBuffer();
                    d_egressWriteBuffer  = Buffer();''')]),
('header twice',['C06'],'bug',[(P,'if (remaining < Constants::protocolHeaderLength()) {','if (remaining < 1) {')]),
('ok const',['C07','C06','C01'],'ok',[(P,'        size_t byteCount = readBuffer.offset() - remaining;','        const size_t total = readBuffer.offset();\n        const size_t byteCount = total - remaining;')]),
('ok route helper',['C07','C06','C01'],'ok',[('libamqpprox/amqpprox_packetprocessor.h','  public:\n','    void route();\n  public:\n'),(P,'void PacketProcessor::process','''void PacketProcessor::route()
{
    const bool toIngress = d_connector.sendToIngressSide();
    d_ingressWriteBuffer = toIngress ? d_connector.outBuffer() : Buffer();
    d_egressWriteBuffer = toIngress ? Buffer() : d_connector.outBuffer();
}

void PacketProcessor::process'''),(P,'''        if (d_connector.sendToIngressSide()) {
            d_ingressWriteBuffer = d_connector.outBuffer();
            d_egressWriteBuffer  = Buffer();
        }
        else {
            d_ingressWriteBuffer = Buffer();
            d_egressWriteBuffer  = d_connector.outBuffer();
        }
''','        route();\n'),(P,'''                if (d_connector.sendToIngressSide()) {
                    d_ingressWriteBuffer = d_connector.outBuffer();
                    d_egressWriteBuffer  = Buffer();
                }
                else {
                    d_ingressWriteBuffer = Buffer();
                    d_egressWriteBuffer  = d_connector.outBuffer();
                }
''','                route();\n')]),
('ok loop for',['C07','C06','C01'],'ok',[(P,'''    while (remaining >= Frame::frameOverhead()) {
        const void *currFrame = nextFrame;
        bool        decodable = Frame::decode(
            &frame, &nextFrame, &remaining, currFrame, remaining);

        if (!decodable) {
            break;
        }

        ++frameCount;
''','''    for (; remaining >= Frame::frameOverhead() &&
           Frame::decode(&frame, &nextFrame, &remaining, nextFrame, remaining);) {
        frameCount += 1;
''')]),
('ok tail',['C07','C01'],'ok',[(P,'''        if (direction == FlowType::INGRESS) {
            d_egressWriteBuffer  = Buffer(readBuffer.originalPtr(), byteCount);
            d_ingressWriteBuffer = Buffer();
            d_state.incrementIngressTotals(frameCount, byteCount);
        }''','''        const Buffer run(readBuffer.originalPtr(), byteCount);
        if (FlowType::EGRESS != direction) {
            d_state.incrementIngressTotals(frameCount, byteCount);
            d_ingressWriteBuffer = Buffer();
            d_egressWriteBuffer  = run;
        }''')]),
('ok copyRemaining',['C07','C01','C02'],'ok',[(H,'''    if (direction == FlowType::INGRESS) {
        if (remaining.size()) {
            d_serverWaterMark = remaining.size();
            d_serverWriteDataHandle.swap(d_serverDataHandle);
            d_bufferPool_p->acquireBuffer(
                &d_serverDataHandle,
                std::max(d_serverWaterMark, Frame::getMaxFrameSize()));

            memcpy(
                d_serverDataHandle.data(), remaining.ptr(), d_serverWaterMark);
        }
        else {
            d_serverWaterMark = 0;
        }
    }
''','''    if (direction == FlowType::INGRESS) {
        d_serverWaterMark = remaining.size();
        if (d_serverWaterMark == 0) {
            return;
        }
        bufferHandle(direction).swap(bufferWriteDataHandle(direction));
        d_bufferPool_p->acquireBuffer(
            &bufferHandle(direction),
            std::max(remaining.size(), Frame::getMaxFrameSize()));
        memcpy(bufferHandle(direction).data(), remaining.ptr(), remaining.size());
    }
''')]),
('ok handleData',['C07','C01'],'ok',[(S,'''        if (ingressWrite.size()) {
            handleWriteData(isOpen ? FlowType::EGRESS : FlowType::INGRESS,
                            *d_serverSocket,
                            ingressWrite);
        }
        else if (egressWrite.size()) {
            handleWriteData(isOpen ? FlowType::INGRESS : FlowType::EGRESS,
                            *d_clientSocket,
                            egressWrite);
        }
        else {
            readData(direction);
        }
''','''        if (ingressWrite.size() == 0 && egressWrite.size() == 0) {
            readData(direction);
        }
        else if (ingressWrite.size() > 0) {
            const FlowType next = isOpen ? FlowType::EGRESS : FlowType::INGRESS;
            handleWriteData(next, *d_serverSocket, ingressWrite);
        }
        else {
            const FlowType next = isOpen ? FlowType::INGRESS : FlowType::EGRESS;
            handleWriteData(next, *d_clientSocket, egressWrite);
        }
''')]),
('ok read handler member',['C07','C03'],'ok',[(H,'    void handleData(FlowType direction);','    void handleData(FlowType direction);\n    void onRead(FlowType direction, boost::system::error_code ec);'),
  (S,'        [this, self, direction](error_code ec, std::size_t) {\n            BOOST_LOG_SCOPED_THREAD_ATTR(\n                "Vhost",\n                boost::log::attributes::constant<std::string>(\n                    d_sessionState.getVirtualHost()));\n            BOOST_LOG_SCOPED_THREAD_ATTR(\n                "ConnID",\n                boost::log::attributes::constant<uint64_t>(\n                    d_sessionState.id()));\n\n            auto &socket         = readSocket(direction);','        [this, self, direction](error_code ec, std::size_t) {\n            onRead(direction, ec);\n        });\n}\n\nvoid Session::onRead(FlowType direction, boost::system::error_code ec)\n{\n            auto &socket         = readSocket(direction);'),
  (S,'                handleSessionError("read_some", direction, ec);\n                return;\n            }\n        });\n}','                handleSessionError("read_some", direction, ec);\n                return;\n            }\n}')]),
('ok write handler',['C07'],'ok',[(S,'''        auto &watermark = waterMark(direction);
        if (0 == watermark) {
            bufferHandle(direction).release();
            bufferWriteDataHandle(direction).release();
        }

        if (ec) {
            handleSessionError("write", direction, ec);
            return;
        }
''','''        if (waterMark(direction) < 1) {
            bufferWriteDataHandle(direction).release();
            bufferHandle(direction).release();
        }

        if (ec.failed()) {
            return handleSessionError("write", direction, ec);
        }
''')]),
('ok incr',['C07'],'ok',[(SS,'    d_ingressPacketTotal.fetch_add(1, std::memory_order_relaxed);','    ++d_ingressPacketTotal;')]),
]
