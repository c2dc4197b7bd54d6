L='libamqpprox/amqpprox_'
T=L+'types.cpp'; FR=L+'frame.cpp'; ME=L+'methods_'
M=[
('dec-i-signed',['C16'],'bug',[(T,'FieldValue value(type, (uint64_t)buffer.copy<big_uint32_t>());','FieldValue value(type, (uint64_t)(int64_t)buffer.copy<big_int32_t>());')]),
('enc-u-width',['C16'],'bug',[(T,'writeBuffer.writeIn<big_uint16_t>(fv.value<uint64_t>())','writeBuffer.writeIn<big_uint32_t>(fv.value<uint64_t>())')]),
('little',['C16'],'bug',[(T,'writeBuffer.writeIn<big_uint64_t>(fv.value<uint64_t>())','writeBuffer.writeIn<little_uint64_t>(fv.value<uint64_t>())')]),
('L-becomes-l',['C16'],'bug',[(T,"FieldValue value(type, (int64_t)buffer.copy<big_int64_t>());","FieldValue value('l', (int64_t)buffer.copy<big_int64_t>());")]),
('decimal-4',['C16'],'bug',[(T,'const int DECIMAL_OCTETS = 5;','const int DECIMAL_OCTETS = 4;')]),
('x-no-length',['C16'],'bug',[(T,'''        if (!writeBuffer.writeIn<big_uint32_t>(byteArray.size())) {
            return false;
        }
''','')]),
('x-short-length',['C16'],'bug',[(T,'''        if (!writeBuffer.writeIn<big_uint32_t>(byteArray.size())) {''','''        if (!writeBuffer.writeIn<big_uint16_t>(byteArray.size())) {''')]),
('array-length-incl',['C16'],'bug',[(T,'''    std::size_t length    = endOffset - originalOffset;
    writeBuffer.seek(0);
    writeBuffer.writeIn<big_uint32_t>(length);
    buffer.skip(endOffset);
    return true;
}

bool Types::decodeFieldTable''','''    std::size_t length    = endOffset;
    writeBuffer.seek(0);
    writeBuffer.writeIn<big_uint32_t>(length);
    buffer.skip(endOffset);
    return true;
}

bool Types::decodeFieldTable''')]),
('array-skips-first',['C16'],'bug',[(T,'for (auto i = 0u; i < vector.size(); ++i) {','for (auto i = vector.size() > 8 ? 1u : 0u; i < vector.size(); ++i) {')]),
('table-value-hoisted',['C16'],'bug',[(T,'''    while (tBuffer.available() > 0) {
        std::string fieldName;''','''    FieldValue value('V', false);
    while (tBuffer.available() > 0) {
        std::string fieldName;'''),(T,'''        FieldValue value('V', false);
        if (!decodeFieldValue(&value, tBuffer, depth)) {''','''        if (!decodeFieldValue(&value, tBuffer, depth)) {''')]),
('table-stops-early',['C16'],'bug',[(T,'while (tBuffer.available() > 0) {','while (tBuffer.available() > 1) {')]),
('table-drops-empty-name',['C16'],'bug',[(T,'        table->pushField(fieldName, value);','        if (!fieldName.empty()) {\n            table->pushField(fieldName, value);\n        }')]),
('offset-off',['C16'],'bug',[(T,'''        writeBuffer.skip(spaceLeft.offset());
    } break;
    case 'T':''','''    } break;
    case 'T':''')]),
('tune-order',['C16'],'bug',[(ME+'tuneok.cpp','buffer.writeIn<big_uint16_t>(tuneOk.channelMax()) &&','buffer.writeIn<big_uint16_t>(tuneOk.heartbeatInterval()) &&'),]),
('close-refuse',['C16'],'bug',[(ME+'close.cpp','if (buffer.available() < 4) {','if (buffer.available() < 5) {')]),
('close-swap-both',['C16'],'bug',[(ME+'close.cpp','close->d_classId  = ','close->d_methodId  = '),(ME+'close.cpp','close->d_methodId = ','close->d_classId = ')]),
('locale-long',['C16'],'bug',[(ME+'startok.cpp','Types::decodeShortString(&startOk->d_locale, buffer)','Types::decodeLongString(&startOk->d_locale, buffer)')]),
('open-no-reserved',['C16'],'bug',[(ME+'open.cpp',''' &&
           buffer.writeIn<boost::endian::big_uint8_t>(0)''','')]),
('bool-inverse',['C16'],'bug',[(T,'(buffer.copy<char>() != 0)','(buffer.copy<char>() == 1)')]),
('long-limit',['C16'],'bug',[(T,'''    if (stringLength > buffer.available()) {''','''    if (stringLength >= 0x10000 || stringLength > buffer.available()) {''')]),
('frame-end',['C16'],'bug',[(FR,'buffer[*writtenSize] = 0xCE;','buffer[*writtenSize] = frame.length > 65535 ? 0 : 0xCE;')]),
('frame-channel',['C16'],'bug',[(FR,'memcpy(buffer + *writtenSize, &frame.channel, sizeof(frame.channel));','uint16_t channel = frame.channel;\n    memcpy(buffer + *writtenSize, &channel, sizeof(channel));')]),
# behaviour kept
('ok-helper',['C16'],'ok',[(T,'''template <typename T>
bool decodeString(''','''template <typename T>
bool putString(Buffer &buffer, const std::string &string)
{
    const std::size_t needed = sizeof(T) + string.size();
    if (needed > buffer.available()) {
        return false;
    }
    const bool head = buffer.writeIn<T>(static_cast<T>(string.size()));
    return head && buffer.writeIn(Buffer(string.data(), string.size()));
}

template <typename T>
bool decodeString('''),(T,'''    if (buffer.available() < (string.size() + sizeof(big_uint32_t))) {
        return false;
    }

    buffer.writeIn<boost::endian::big_uint32_t>(string.size());
    buffer.writeIn(Buffer(string.data(), string.size()));
    return true;''','''    return putString<big_uint32_t>(buffer, string);''')]),
('ok-seek',['C16'],'ok',[(T,'''    std::size_t endOffset = writeBuffer.offset();
    std::size_t length    = endOffset - originalOffset;
    writeBuffer.seek(0);
    writeBuffer.writeIn<big_uint32_t>(length);
    buffer.skip(endOffset);
    return true;
}

}''','''    const std::size_t written = writeBuffer.offset();
    buffer.writeIn<big_uint32_t>(written - originalOffset);
    buffer.skip(written - sizeof(big_uint32_t));
    return true;
}

}''')]),
('ok-rfor',['C16'],'ok',[(T,'''    for (auto i = 0u; i < vector.size(); ++i) {
        if (!encodeFieldValue(writeBuffer, vector[i])) {''','''    for (const auto &element : vector) {
        if (!encodeFieldValue(writeBuffer, element)) {''')]),
('ok-bool',['C16'],'ok',[(T,'''        bool value   = fv.value<bool>();
        bool success = false;
        if (value) {
            success = writeBuffer.writeIn<big_uint8_t>(1);
        }
        else {
            success = writeBuffer.writeIn<big_uint8_t>(0);
        }
        if (!success) {''','''        if (!writeBuffer.writeIn<big_uint8_t>(fv.value<bool>() ? 1 : 0)) {''')]),
('ok-vec-assign',['C16'],'ok',[(T,'''    vector->resize(vectorBuffer.size());
    memcpy(vector->data(), vectorBuffer.ptr(), vectorBuffer.size());
''','''    const uint8_t *first = static_cast<const uint8_t *>(vectorBuffer.ptr());
    vector->assign(first, first + vectorBuffer.size());
''')]),
('ok-assign-direct',['C16'],'ok',[(T,'''        FieldValue value(type, (uint64_t)buffer.copy<big_uint16_t>());
        *outValue = value;''','''        const uint64_t number = buffer.copy<big_uint16_t>();
        *outValue = FieldValue(type, number);''')]),
('ok-V',['C16'],'ok',[(T,'''        // There is no value to return.''','''        *outValue = FieldValue(type, false);''')]),
('ok-close-ifs',['C16'],'ok',[(ME+'close.cpp','''    return buffer.writeIn<big_uint16_t>(close.replyCode()) &&
           Types::encodeShortString(buffer, close.replyString()) &&
           buffer.writeIn<big_uint16_t>(close.classId()) &&
           buffer.writeIn<big_uint16_t>(close.methodId());''','''    if (!buffer.writeIn<big_uint16_t>(close.d_replyCode)) {
        return false;
    }
    if (!Types::encodeShortString(buffer, close.d_replyString)) {
        return false;
    }
    bool ok = buffer.writeIn<big_uint16_t>(close.d_classId);
    ok      = ok && buffer.writeIn<big_uint16_t>(close.d_methodId);
    return ok;''')]),
('ok-frame-offsets',['C16'],'ok',[(FR,'''    memcpy(buffer + *writtenSize, &frame.channel, sizeof(frame.channel));
    *writtenSize += sizeof(frame.channel);
    memcpy(buffer + *writtenSize, &frame.length, sizeof(frame.length));
    *writtenSize += sizeof(frame.length);
''','''    memcpy(&buffer[1], &frame.channel, sizeof(frame.channel));
    memcpy(&buffer[3], &frame.length, sizeof(frame.length));
    *writtenSize = frameHeaderSize();
''')]),
('ok-table-dec',['C16'],'ok',[(T,'''    Buffer tBuffer = buffer.consume(fieldTableLength);
    while (tBuffer.available() > 0) {''','''    Buffer tBuffer = buffer.remaining();
    tBuffer        = Buffer(tBuffer.ptr(), fieldTableLength);
    buffer.skip(fieldTableLength);
    while (tBuffer.available()) {''')]),
]
