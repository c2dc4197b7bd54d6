F='libamqpprox/amqpprox_frame.cpp'
M=[
('no marker',['C24'],'bug',[(F,'if (buffer[buffer_len] != Constants::frameEnd()) {','if (frame->type != 8 && buffer[buffer_len] != Constants::frameEnd()) {')]),
('marker off',['C24'],'bug',[(F,'if (buffer[buffer_len] != Constants::frameEnd()) {','if (buffer[buffer_len - 1] != Constants::frameEnd()) {')]),
('marker const',['C24'],'bug',[('libamqpprox/amqpprox_constants.h','return 0xCE;','return 0xCF;'),(F,'= 0xCE','= 0xCF')]),
('>=',['C24'],'bug',[(F,'if ((frameOverhead() + frame->length) > bufferLen) {','if ((frameOverhead() + frame->length) >= bufferLen) {')]),
('max',['C24'],'bug',[(F,'if ((frameOverhead() + frame->length) > getMaxFrameSize()) {','if (frame->length > getMaxFrameSize()) {')]),
('enc max',['C24'],'bug',[(F,'if ((frame.length + frameOverhead()) > getMaxFrameSize()) {','if (frame.length > getMaxFrameSize()) {')]),
('little',['C24'],'bug',[('libamqpprox/amqpprox_frame.h','boost::endian::big_uint16_t channel','boost::endian::little_uint16_t channel')]),
('enc short',['C24'],'bug',[(F,'    buffer[*writtenSize] = 0xCE;','    if (frame.length)\n        buffer[*writtenSize] = 0xCE;')]),
('ok loop',['C24'],'ok',[(F,'    std::size_t buffer_len = frameHeaderSize() + frame->length;\n    if (buffer[buffer_len] != Constants::frameEnd()) {','    const std::size_t buffer_len = frameHeaderSize() + frame->length;\n    const uint8_t endMark = *(buffer + buffer_len);\n    if (!(endMark == Constants::frameEnd())) {')]),
('ok enc',['C24','C02'],'ok',[(F,'''    memcpy(buffer, &frame.type, sizeof(frame.type));
    *writtenSize += sizeof(frame.type);
''','''    buffer[0] = frame.type;
    *writtenSize += sizeof(frame.type);
'''),(F,'    buffer[*writtenSize] = 0xCE;','    buffer[*writtenSize] = Constants::frameEnd();')]),
('ok total',['C24','C01','C07'],'ok',[(F,'    if ((frameOverhead() + frame->length) > bufferLen) {\n        if ((frameOverhead() + frame->length) > getMaxFrameSize()) {','    const std::size_t total = frameOverhead() + frame->length;\n    if (bufferLen < total) {\n        if (total > getMaxFrameSize()) {')]),
('ok reject early',['C24','C01','C07'],'ok',[(F,'    if ((frameOverhead() + frame->length) > bufferLen) {\n        if','    if ((frameOverhead() + frame->length) > getMaxFrameSize()) {\n        throw std::runtime_error("too large");\n    }\n    if ((frameOverhead() + frame->length) > bufferLen) {\n        if')]),
]
