S = []
def s(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
L = 'libamqpprox/amqpprox_'

s('c33-limiter-erase', 'C33', 'removing the default connection rate limit after clients of several virtual hosts without a limit of their own connected',
  'the walk goes on from a position that was just removed (freed memory)',
  [(L + 'connectionlimitermanager.cpp', '''            it = d_connectionRateLimitersPerVhost.erase(it);
        }
        else {
            ++it;
        }''', '''            d_connectionRateLimitersPerVhost.erase(it);
        }
        ++it;''')],
  r'''
#include <amqpprox_connectionlimitermanager.h>
#include <string>
using namespace Bloomberg::amqpprox;
int main()
{
    ConnectionLimiterManager m;
    m.setDefaultConnectionRateLimit(5);
    for (int i = 0; i < 20; ++i) {
        m.allowNewConnectionForVhost("vhost" + std::to_string(i));
    }
    m.removeDefaultConnectionRateLimit();
    return m.getDefaultConnectionRateLimit() ? 1 : 0;
}
''', flags='-fsanitize=address', src='libamqpprox/amqpprox_connectionlimitermanager.cpp')

s('c32-reason-cut', 'C32', 'a client that is refused with a reason of more than 64 characters',
  'the client gets only part of the reason',
  [(L + 'connector.cpp', '''        d_close, sendToIngressSide, code, text, classId, methodId);''', '''        d_close, sendToIngressSide, code, text.substr(0, 64), classId, methodId);''')],
  r'''
#include <amqpprox_bufferpool.h>
#include <amqpprox_connector.h>
#include <amqpprox_dnshostnamemapper.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_frame.h>
#include <amqpprox_method.h>
#include <amqpprox_methods_close.h>
#include <amqpprox_reply.h>
#include <amqpprox_sessionstate.h>
#include <cstdio>
#include <memory>
using namespace Bloomberg::amqpprox;
int main()
{
    EventSource  es;
    BufferPool   pool({32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536,
                       Frame::getMaxFrameSize()});
    SessionState state(std::make_shared<DNSHostnameMapper>());
    Connector    c(&state, &es, &pool, "");
    const std::string why(200, 'x');
    c.synthesizeCustomCloseError(true, 403, why, 10, 11);
    Buffer      out = c.outBuffer();
    Frame       f;
    const void *end = nullptr;
    std::size_t rem = 0;
    if (!Frame::decode(&f, &end, &rem, out.originalPtr(), out.offset() ? out.offset() : out.size())) {
        std::puts("no frame");
        return 2;
    }
    Method m;
    if (!Method::decode(&m, f.payload, f.length)) {
        return 3;
    }
    Buffer         b(m.payload, m.length);
    methods::Close close;
    if (!methods::Close::decode(&close, b)) {
        return 4;
    }
    std::printf("%d %d %d\n", close.replyCode(), close.classId(), close.methodId());
    return close.replyCode() == 403 && close.classId() == 10 && close.methodId() == 11 &&
                   close.replyString() == why
               ? 0 : 1;
}
''')
