T='libamqpprox/amqpprox_types.cpp'; FR='libamqpprox/amqpprox_frame.cpp'; SH='libamqpprox/amqpprox_session.h'; CL='libamqpprox/amqpprox_methods_close.cpp'; BH='libamqpprox/amqpprox_buffer.h'; MH='libamqpprox/amqpprox_method.h'; CO='libamqpprox/amqpprox_connector.cpp'; ST='libamqpprox/amqpprox_methods_startok.cpp'
M=[('longstring prefix',['C02'],'bug',[(T,'if (buffer.available() < (string.size() + sizeof(big_uint32_t))) {','if (buffer.available() < string.size()) {')]),
('shortstring',['C02'],'bug',[(T,'if (buffer.available() < (string.size() + sizeof(big_uint8_t))) {','if (buffer.available() <= 0) {')]),
('bytevec',['C02'],'bug',[(T,'    if (buffer.available() < (vector.size())) {\n        return false;\n    }\n\n','')]),
('writein check',['C02'],'bug',[(BH,'if (sizeof(T) > available()) {','if (sizeof(T) > size()) {')]),
('assign check',['C02'],'bug',[(BH,'if (value.available() > available()) {','if (value.available() > size()) {')]),
('frame enc',['C02'],'bug',[(CO,'std::size_t newLength            = f.length + Frame::frameOverhead();','std::size_t newLength            = f.length + Frame::frameHeaderSize();')]),
('expanded',['C02'],'bug',[(CO,'newLength + existingResponseData);','newLength);')]),
('frame end',['C02'],'bug',[(FR,'buffer[*writtenSize] = 0xCE;','buffer[*writtenSize + 1] = 0xCE;')]),
('enc ignored',['C02'],'bug',[(CL,'Types::encodeShortString(buffer, close.replyString()) &&','(Types::encodeShortString(buffer, close.replyString()), true) &&')]),
('value ignored',['C02'],'bug',[(T,'        if (!encodeFieldValue(writeBuffer, vector[i])) {\n            return false;\n        }','        encodeFieldValue(writeBuffer, vector[i]);')]),
('r assign',['C01','C02'],'ok',[(BH,'''        if (value.available() > available()) {
            return false;
        }

        memcpy(ptr(), value.ptr(), value.available());
        return true;''','''        const std::size_t n = value.available();
        const bool fits = n <= available();
        if (fits) {
            memcpy(ptr(), value.ptr(), n);
        }
        return fits;''')]),
('r enc',['C01','C02'],'ok',[(CL,'''    return buffer.writeIn<big_uint16_t>(close.replyCode()) &&
           Types::encodeShortString(buffer, close.replyString()) &&
           buffer.writeIn<big_uint16_t>(close.classId()) &&
           buffer.writeIn<big_uint16_t>(close.methodId());''','''    if (!buffer.writeIn<big_uint16_t>(close.replyCode())) {
        return false;
    }
    if (!Types::encodeShortString(buffer, close.replyString())) {
        return false;
    }
    if (!buffer.writeIn<big_uint16_t>(close.classId())) {
        return false;
    }
    return buffer.writeIn<big_uint16_t>(close.methodId());''')]),
('r frame enc',['C01','C02'],'ok',[(FR,'''    memcpy(buffer, &frame.type, sizeof(frame.type));
    *writtenSize += sizeof(frame.type);
    memcpy(buffer + *writtenSize, &frame.channel, sizeof(frame.channel));
    *writtenSize += sizeof(frame.channel);
    memcpy(buffer + *writtenSize, &frame.length, sizeof(frame.length));
    *writtenSize += sizeof(frame.length);
    memcpy(buffer + *writtenSize, frame.payload, frame.length);
    *writtenSize += frame.length;
    buffer[*writtenSize] = 0xCE;
    *writtenSize += 1;
    return true;''','''    std::size_t pos = *writtenSize;
    auto put = [&](const void *p, std::size_t n) { memcpy(buffer + pos, p, n); pos += n; };
    put(&frame.type, sizeof(frame.type));
    put(&frame.channel, sizeof(frame.channel));
    put(&frame.length, sizeof(frame.length));
    put(frame.payload, frame.length);
    buffer[pos++] = 0xCE;
    *writtenSize = pos;
    return true;''')]),
]
