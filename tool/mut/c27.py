L='libamqpprox/amqpprox_'
H=L+'bufferhandle.cpp'; S=L+'buffersource.cpp'; P=L+'bufferpool.cpp'; HH=L+'bufferhandle.h'
M=[
('assign-no-release',['C27'],'bug',[(H,'''    release();
    d_data   = data;''','''    d_data   = data;''')]),
('assign-release-if-different-source',['C27'],'bug',[(H,'''    release();
    d_data   = data;''','''    if (d_source != source || !source) {
        release();
    }
    d_data   = data;''')]),
('release-keeps-data',['C27'],'bug',[(H,'''    d_data   = nullptr;
    d_source = nullptr;
    d_size   = 0;''','''    d_source = nullptr;
    d_size   = 0;''')]),
('release-keeps-source',['C27'],'bug',[(H,'''    d_data   = nullptr;
    d_source = nullptr;
    d_size   = 0;''','''    d_data   = nullptr;
    d_size   = 0;''')]),
('swap-misses-source',['C27'],'bug',[(H,'    std::swap(d_source, rhs.d_source);\n','')]),
('dtor-none',['C27'],'bug',[(H,'''BufferHandle::~BufferHandle()
{
    release();''','''BufferHandle::~BufferHandle()
{''')]),
('dtor-pooled-only',['C27'],'bug',[(H,'''BufferHandle::~BufferHandle()
{
    release();''','''BufferHandle::~BufferHandle()
{
    if (d_source) {
        release();
    }''')]),
('scalar-delete',['C27'],'bug',[(H,'delete[] static_cast','delete static_cast')]),
('le-off',['C27'],'bug',[(P,'if (sz <= source->bufferSize()) {','if (sz <= source->bufferSize() + 1) {')]),
('wrong-source',['C27'],'bug',[(P,'handle->assign(source->acquire(), sz, source.get());','handle->assign(source->acquire(), sz, d_bufferSources.front().get());')]),
('heap-source',['C27'],'bug',[(P,'handle->assign(new char[sz], sz, nullptr);','handle->assign(new char[sz], sz, d_bufferSources.back().get());')]),
('heap-small',['C27'],'bug',[(P,'new char[sz]','new char[sz - 1]')]),
('no-return',['C27'],'bug',[(P,'''source.get());
            return;''','''source.get());
            break;''')]),
('size-bucket',['C27'],'bug',[(P,'handle->assign(source->acquire(), sz, source.get());','handle->assign(source->acquire(), source->bufferSize(), source.get());')]),
('pool-small',['C27'],'bug',[(S,': d_pool(bufferSize)',': d_pool(bufferSize / 2)')]),
('release-drop',['C27'],'bug',[(S,'    d_pool.free(data);','    if (d_deallocationCount > d_allocationCount) { return; }\n    d_pool.free(data);')]),
('acquire-nothrow',['C27'],'bug',[(S,'''    if (!buf) {
        throw std::bad_alloc();
    }
''','')]),
('release-order-ok',['C27'],'ok',[(H,'''    if (d_source) {
        d_source->release(d_data);
    }
    else {
        if (d_data) {
            delete[] static_cast<char *>(d_data);
        }
    }
''','''    if (!d_source) {
        delete[] static_cast<char *>(d_data);
    }
    else {
        d_source->release(d_data);
    }
''')]),
('release-local-ok',['C27'],'ok',[(H,'''    if (d_source) {
        d_source->release(d_data);
    }
    else {
        if (d_data) {
            delete[] static_cast<char *>(d_data);
        }
    }

    d_data   = nullptr;
    d_source = nullptr;
    d_size   = 0;''','''    BufferSource *source = d_source;
    void         *data   = d_data;
    d_data   = nullptr;
    d_source = nullptr;
    d_size   = 0;
    if (source) {
        source->release(data);
        return;
    }
    if (data) {
        delete[] static_cast<char *>(data);
    }''')]),
('findif-ok',['C27'],'ok',[(P,'''    for (auto &source : d_bufferSources) {
        if (sz <= source->bufferSize()) {
            handle->assign(source->acquire(), sz, source.get());
            return;
        }
    }

    handle->assign(new char[sz], sz, nullptr);''','''    for (std::size_t i = 0; i < d_bufferSources.size(); ++i) {
        BufferSource *candidate = d_bufferSources[i].get();
        if (candidate->bufferSize() < sz) {
            continue;
        }
        void *data = candidate->acquire();
        handle->assign(data, sz, candidate);
        return;
    }

    handle->assign(new char[sz], sz, nullptr);''')]),
('swap-temp-ok',['C27'],'ok',[(H,'    std::swap(d_size, rhs.d_size);','    const std::size_t size = d_size;\n    d_size = rhs.d_size;\n    rhs.d_size = size;')]),
]
