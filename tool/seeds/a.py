S = []
def s(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
L = 'libamqpprox/amqpprox_'

s('c01-byte-vector-total', 'C01', 'a declared byte array length between what is left and the size of the whole buffer',
  'the declared length is compared with the whole buffer instead of what is left of it, so bytes after the received data are read',
  [(L + 'types.cpp', 'if (bytes > buffer.available()) {', 'if (bytes > buffer.size()) {')],
  r'''
#include <amqpprox_types.h>
#include <amqpprox_buffer.h>
#include <amqpprox_fieldvalue.h>
#include <cstring>
#include <vector>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    int bad = 0;
    for (unsigned declared = 0; declared < 64; ++declared) {
        char mem[128];
        memset(mem, 'X', sizeof mem);
        memset(mem, 'r', 20);
        mem[0] = 'x';
        mem[1] = mem[2] = mem[3] = 0;
        mem[4] = (char)declared;
        Buffer     b(mem, 20);
        FieldValue out('t', false);
        bool       ok = Types::decodeFieldValue(&out, b);
        if (ok != (declared <= 15)) {
            printf("declared %u: ok=%d\n", declared, ok);
            bad = 1;
        }
    }
    return bad;
}
''')

s('c02-short-string-space', 'C02', 'an output buffer with exactly the string length left',
  'the length octet is left out of the space check, so a truncated short string is reported as written',
  [(L + 'types.cpp', 'if (buffer.available() < (string.size() + sizeof(big_uint8_t))) {', 'if (buffer.available() < string.size()) {')],
  r'''
#include <amqpprox_types.h>
#include <amqpprox_buffer.h>
#include <string>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    int bad = 0;
    std::string s = "abcdefgh";
    for (unsigned n = 0; n < 16; ++n) {
        char   mem[64] = {};
        Buffer b(mem, n);
        bool   ok = Types::encodeShortString(b, s);
        if (ok != (n >= s.size() + 1)) {
            printf("space %u: ok=%d\n", n, ok);
            bad = 1;
        }
    }
    return bad;
}
''')

s('c05-removed-limit-sticks', 'C05', 'remove a specific limit while a default exists, then change the default',
  'after removing a specific limit the copied default is marked as specific, so a later change of the default does not reach that virtual host',
  [(L + 'connectionlimitermanager.cpp', '''        d_connectionRateLimitersPerVhost[vhostName] = {
            false,''', '''        d_connectionRateLimitersPerVhost[vhostName] = {
            true,''')],
  r'''
#include <amqpprox_connectionlimitermanager.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    ConnectionLimiterManager m;
    m.setDefaultConnectionRateLimit(1000);
    m.addConnectionRateLimiter("v", 5);
    m.removeConnectionRateLimiter("v");
    m.setDefaultConnectionRateLimit(2);
    int allowed = 0;
    for (int i = 0; i < 20; ++i)
        allowed += m.allowNewConnectionForVhost("v");
    printf("allowed %d\n", allowed);
    return allowed <= 4 ? 0 : 1;
}
''')

s('c28-window-catch-up', 'C28', 'an idle period of several windows followed by a burst',
  'the window start advances by one window length instead of to the current time, so after an idle period every request starts a new window with an empty count',
  [(L + 'fixedwindowconnectionratelimiter.cpp', 'd_lastTime     = currentTime;', 'd_lastTime += d_timeWindowInMs;')],
  r'''
#include <amqpprox_fixedwindowconnectionratelimiter.h>
#include <chrono>
#include <memory>
#include <cstdio>
using namespace Bloomberg::amqpprox;
using TP = std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds>;
struct Clk : LimiterClock {
    TP d_now{std::chrono::milliseconds(100000)};
    TP now() override { return d_now; }
};
struct Lim : FixedWindowConnectionRateLimiter {
    Lim(const std::shared_ptr<LimiterClock> &c) : FixedWindowConnectionRateLimiter(c, 2, 1) {}
};
int main()
{
    auto c = std::make_shared<Clk>();
    Lim  l(c);
    l.allowNewConnection();
    c->d_now += std::chrono::milliseconds(10500);
    int n = 0;
    for (int i = 0; i < 20; ++i)
        n += l.allowNewConnection();
    printf("admitted %d\n", n);
    return n == 2 ? 0 : 1;
}
''')
