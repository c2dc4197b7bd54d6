T='libamqpprox/amqpprox_types.cpp'; P='libamqpprox/amqpprox_packetprocessor.cpp'; FR='libamqpprox/amqpprox_frame.cpp'; S='libamqpprox/amqpprox_session.cpp'; SH='libamqpprox/amqpprox_session.h'; CL='libamqpprox/amqpprox_methods_close.cpp'; TU='libamqpprox/amqpprox_methods_tune.cpp'; BH='libamqpprox/amqpprox_buffer.h'; ME='libamqpprox/amqpprox_method.cpp'; CO='libamqpprox/amqpprox_connector.cpp'
M=[('ident',['C01'],'ok',[]),
('no continue',['C01'],'bug',[(P,'                continue;\n','')]),
('string len check wrong var',['C01'],'bug',[(T,'if (stringLength > buffer.available()) {','if (stringLength > buffer.size()) {')]),
('string len check off',['C01'],'bug',[(T,'if (stringLength > buffer.available()) {','if (stringLength > buffer.available() + 1) {')]),
('bytevector',['C01'],'bug',[(T,'if (bytes > buffer.available()) {','if (bytes > buffer.size()) {')]),
('arraylen',['C01'],'bug',[(T,'if (arrayLength > buffer.available()) {','if (arrayLength > buffer.size()) {')]),
('tablelen offset',['C01'],'bug',[(T,'if (fieldTableLength > buffer.available()) {','if (fieldTableLength > buffer.available() + sizeof(big_uint32_t)) {')]),
('x len check',['C01'],'bug',[(T,"        if (buffer.available() < sizeof(uint32_t)) {\n            return false;\n        }\n\n        uint32_t length",'        uint32_t length')]),
('frame header',['C01'],'bug',[(FR,'if (bufferLen < frameOverhead()) {','if (bufferLen < frameHeaderSize() - 1) {')]),
('frame len',['C01'],'bug',[(FR,'if ((frameOverhead() + frame->length) > bufferLen) {','if ((frameHeaderSize() + frame->length) > bufferLen) {')]),
('frame len32',['C01'],'bug',[(FR,'if ((frameOverhead() + frame->length) > bufferLen) {','const uint32_t needed = frameOverhead() + frame->length;\n    if (needed > bufferLen) {')]),
('frame remaining',['C01'],'bug',[(FR,'*remaining  = bufferLen - (frameOverhead() + frame->length);','*remaining  = bufferLen - (frameHeaderSize() + frame->length);')]),
('frame loop ge',['C01'],'ok',[(P,'while (remaining >= Frame::frameOverhead()) {','while (remaining > 0) {')]),
('method decode lt',['C01'],'bug',[(ME,'if (bufferLen < sizeof(method->classType) + sizeof(method->methodType)) {','if (bufferLen < sizeof(method->methodType)) {')]),
('method length',['C01'],'bug',[(ME,'        bufferLen - sizeof(method->methodType) - sizeof(method->classType);','        bufferLen - sizeof(method->methodType);')]),
('close 4',['C01'],'bug',[(CL,'if (buffer.available() < 4) {','if (buffer.available() < 3) {')]),
('tune',['C01'],'bug',[(TU,'sizeof(tune->d_channelMax) + sizeof(tune->d_frameMax) +\n            sizeof(tune->d_heartbeatInterval) >','sizeof(tune->d_channelMax) + sizeof(tune->d_frameMax) >')]),
('copyRemaining size',['C01','C02'],'bug',[(SH,'std::max(d_serverWaterMark, Frame::getMaxFrameSize()));','d_serverWaterMark / 2);')]),
('copyRemaining client const',['C01','C02'],'bug',[(SH,'std::max(d_clientWaterMark, Frame::getMaxFrameSize()));','Frame::getMaxFrameSize());')]),
('watermark twice',['C01'],'bug',[(S,'watermark += readAmount;','watermark += available;')]),
('acquire cond',['C07'],'bug',[(S,'if (0 == watermark) {\n                d_bufferPool_p->acq','if (watermark < available) {\n                d_bufferPool_p->acq')]),
('read size',['C01','C02'],'bug',[(S,'boost::asio::buffer(readBuf.ptr(), readBuf.available()), ec)','boost::asio::buffer(readBuf.ptr(), readBuf.size()), ec)')]),
('write size',['C01'],'bug',[(S,'boost::asio::buffer(data.ptr(), data.available()),\n                             writeHandler','boost::asio::buffer(data.ptr(), data.size()),\n                             writeHandler')]),
('passthrough',['C01'],'bug',[(P,'Buffer(readBuffer.originalPtr(), byteCount);\n            d_ingressWriteBuffer = Buffer();','Buffer(readBuffer.ptr(), byteCount);\n            d_ingressWriteBuffer = Buffer();')]),
('pp remaining start',['C01'],'bug',[(P,'d_remainingBuffer = Buffer(nextFrame, remaining);','d_remainingBuffer = Buffer(nextFrame, remaining + 1);')]),
('decode ignored',['C01'],'bug',[(CL,'    if (!Types::decodeShortString(&close->d_replyString, buffer)) {\n        return false;\n    }\n','    Types::decodeShortString(&close->d_replyString, buffer);\n')]),
('connector size',['C01'],'bug',[(CO,'existingResponseData + returnedData);','existingResponseData + returnedData + 1);')]),
('r helper ref',['C01','C02'],'ok',[(CL,'bool Close::decode(','namespace {\nbool has(Buffer &b, std::size_t n) { return b.available() >= n; }\n}\n\nbool Close::decode('),(CL,'if (buffer.available() < 4) {','if (!has(buffer, 4)) {')]),
('r helper cref',['C01','C02'],'ok',[(CL,'bool Close::decode(','static bool has(const Buffer &b, std::size_t n) { return !(b.available() < n); }\n\nbool Close::decode('),(CL,'if (buffer.available() < 4) {','if (!has(buffer, 2 * sizeof(uint16_t))) {')]),
('r read16',['C01','C02'],'ok',[(CL,'bool Close::decode(','static bool readU16(boost::endian::big_uint16_t *out, Buffer &b) { if (b.available() < 2) return false; *out = b.copy<boost::endian::big_uint16_t>(); return true; }\n\nbool Close::decode('),(CL,'''    if (buffer.available() < 4) {
        return false;
    }

    close->d_classId  = buffer.copy<boost::endian::big_uint16_t>();
    close->d_methodId = buffer.copy<boost::endian::big_uint16_t>();

    return true;''','    return readU16(&close->d_classId, buffer) && readU16(&close->d_methodId, buffer);')]),
('r frame total',['C01','C02'],'ok',[(FR,'    if ((frameOverhead() + frame->length) > bufferLen) {\n        if ((frameOverhead() + frame->length) > getMaxFrameSize()) {','    const std::size_t total = frameOverhead() + frame->length;\n    if (bufferLen < total) {\n        if (total > getMaxFrameSize()) {'),(FR,'*remaining  = bufferLen - (frameOverhead() + frame->length);','*remaining  = bufferLen - total;'),(FR,'*endOfFrame = buffer + frame->length + frameOverhead();','*endOfFrame = buffer + total;')]),
('r copyRemaining',['C01','C02'],'ok',[(SH,'''            d_serverWaterMark = remaining.size();
            d_serverWriteDataHandle.swap(d_serverDataHandle);
            d_bufferPool_p->acquireBuffer(
                &d_serverDataHandle,
                std::max(d_serverWaterMark, Frame::getMaxFrameSize()));
''','''            const std::size_t kept = remaining.size();
            const std::size_t want = kept > Frame::getMaxFrameSize() ? kept : Frame::getMaxFrameSize();
            d_serverWriteDataHandle.swap(d_serverDataHandle);
            d_bufferPool_p->acquireBuffer(&d_serverDataHandle, want);
            d_serverWaterMark = kept;
''')]),
('r pp loop',['C01','C02'],'ok',[(P,'''        if (!decodable) {
            break;
        }

        ++frameCount;
''','''        if (decodable) {
            ++frameCount;
        }
        else {
            break;
        }
''')]),
('r array for',['C01','C02'],'ok',[(T,'while (arrayBuffer.available() > 0) {','for (; arrayBuffer.available() != 0;) {')]),
('r decodeString',['C01','C02'],'ok',[(T,'''    auto stringBuffer = buffer.consume(stringLength);
    string->assign(static_cast<const char *>(stringBuffer.ptr()),
                   stringBuffer.size());''','''    const char *p = static_cast<const char *>(buffer.ptr());
    *string = std::string(p, stringLength);
    buffer.skip(stringLength);''')]),
('r tune',['C01','C02'],'ok',[(TU,'''    if (sizeof(tune->d_channelMax) + sizeof(tune->d_frameMax) +
            sizeof(tune->d_heartbeatInterval) >
        buffer.available()) {
        return false;
    }
''','''    constexpr std::size_t wireSize = sizeof(big_uint16_t) + sizeof(big_uint32_t) + sizeof(big_uint16_t);
    const bool enough = buffer.available() >= wireSize;
    if (!enough) {
        return false;
    }
''')]),
]
