S = []
def s(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
L = 'libamqpprox/amqpprox_'

s('c16-short-uint-sign', 'C16', 'a client property of type short-uint with the top bit set',
  'an unsigned 16 bit field is read as signed, so 65535 becomes a number near 2^64',
  [(L + 'types.cpp', '(uint64_t)buffer.copy<big_uint16_t>()', '(uint64_t)(int64_t)buffer.copy<big_int16_t>()')],
  r'''
#include <amqpprox_types.h>
#include <amqpprox_buffer.h>
#include <amqpprox_fieldvalue.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    int bad = 0;
    for (unsigned v = 0; v < 65536; v += 257) {
        unsigned char mem[3] = {'u', (unsigned char)(v >> 8), (unsigned char)v};
        Buffer        b(mem, 3);
        FieldValue    out('t', false);
        if (!Types::decodeFieldValue(&out, b) || out.value<uint64_t>() != v)
            bad = 1;
    }
    return bad;
}
''')

s('c19-direct-fallback', 'C19', 'a virtual host mapped to a broker that was removed, while a default farm is configured',
  'the connection is sent to the default farm instead of being refused, so traffic reaches brokers it was not mapped to',
  [(L + 'connectionselector.cpp', '''        if (!backend) {
            return SessionState::ConnectionStatus::NO_BACKEND;
        }
''', '''        if (!backend) {
            std::lock_guard<std::mutex> lg(d_mutex);
            if (d_defaultFarmName.empty()) {
                return SessionState::ConnectionStatus::NO_BACKEND;
            }
            try {
                const auto &farm =
                    d_farmStore_p->getFarmByName(d_defaultFarmName);
                connectionOut->reset(new ConnectionManager(
                    farm.backendSet(), farm.backendSelector()));
                return SessionState::ConnectionStatus::SUCCESS;
            }
            catch (std::runtime_error &e) {
                return SessionState::ConnectionStatus::NO_BACKEND;
            }
        }
''')],
  r'''
#include <amqpprox_connectionselector.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_farm.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_backend.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_dnshostnamemapper.h>
#include <memory>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    FarmStore                farms;
    BackendStore             backends;
    ResourceMapper           mapper;
    ConnectionLimiterManager limits;
    RobinBackendSelector     robin;
    backends.insert(Backend("b1", "dc", "h1", "127.0.0.1", 5672, false));
    backends.insert(Backend("b2", "dc", "h2", "127.0.0.2", 5672, false));
    farms.addFarm(std::make_unique<Farm>(
        "fallback", std::vector<std::string>{"b1"}, &backends, &robin));
    ConnectionSelector sel(&farms, &backends, &mapper, &limits);
    sel.setDefaultFarm("fallback");
    mapper.mapVhostToBackend("v", "b2");
    backends.remove("b2");
    SessionState st(nullptr);
    st.setVirtualHost("v");
    std::shared_ptr<ConnectionManager> out;
    auto r = sel.acquireConnection(&out, st);
    printf("%d %d\n", (int)r, (bool)out);
    return r == SessionState::ConnectionStatus::NO_BACKEND && !out ? 0 : 1;
}
''')

s('c12-tls-dh-throws', 'C12', 'a TLS TMP_DH_FILE command naming a file that cannot be read',
  'the failure is thrown through the control loop, which ends the process',
  [(L + 'tlscontrolcommand.cpp', 'context.use_tmp_dh_file(file, ec);', 'context.use_tmp_dh_file(file);')],
  r'''
#include <amqpprox_tlscontrolcommand.h>
#include <amqpprox_server.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_farmstore.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    FarmStore                farms;
    BackendStore             backends;
    ResourceMapper           mapper;
    ConnectionLimiterManager limits;
    ConnectionSelector       sel(&farms, &backends, &mapper, &limits);
    EventSource              ev;
    BufferPool               pool({64, 1024});
    DataRateLimitManager     rates;
    Server                   server(&sel, &ev, &pool, &rates);
    TlsControlCommand        cmd;
    std::string              out;
    for (const char *c : {"INGRESS TMP_DH_FILE /nonexistent/file",
                          "EGRESS TMP_DH_FILE /nonexistent/file",
                          "INGRESS CA_CERT_FILE /nonexistent/file"}) {
        try {
            cmd.handleCommand(
                "TLS",
                c,
                [&](const std::string &s, bool) {
                    out += s;
                    return true;
                },
                &server,
                nullptr);
        }
        catch (...) {
            printf("thrown for %s\n", c);
            return 1;
        }
    }
    printf("%s\n", out.c_str());
    return 0;
}
''')

s('c20-alarm-disable', 'C20', 'disabling the default connection rate alarm while an enforced default limit is set',
  'the command removes the enforced default limit instead of the alarm',
  [(L + 'limitcontrolcommand.cpp', '->removeAlarmOnlyDefaultConnectionRateLimit();', '->removeDefaultConnectionRateLimit();')],
  r'''
#include <amqpprox_limitcontrolcommand.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_dataratelimitmanager.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    ConnectionLimiterManager m;
    DataRateLimitManager     d;
    m.setDefaultConnectionRateLimit(7);
    m.setAlarmOnlyDefaultConnectionRateLimit(3);
    LimitControlCommand cmd(&m, &d);
    cmd.handleCommand(
        "LIMIT",
        "DISABLE CONN_RATE_ALARM DEFAULT",
        [](const std::string &, bool) { return true; },
        nullptr,
        nullptr);
    return m.getDefaultConnectionRateLimit() == 7u &&
                   !m.getAlarmOnlyDefaultConnectionRateLimit()
               ? 0
               : 1;
}
''')

s('c09-vhost-unlocked', 'C09', 'a session asking for the pause state of a virtual host while a command pauses another',
  'the map of virtual hosts is read and grown without its lock',
  [(L + 'vhoststate.cpp', '''bool VhostState::isPaused(const std::string &vhost)
{
    std::lock_guard<std::mutex> lg(d_mutex);
    return d_vhosts[vhost].isPaused();''', '''bool VhostState::isPaused(const std::string &vhost)
{
    return d_vhosts[vhost].isPaused();''')],
  r'''
#include <amqpprox_vhoststate.h>
#include <atomic>
#include <string>
#include <thread>
using namespace Bloomberg::amqpprox;
extern "C" const char *__tsan_default_options() { return "halt_on_error=1"; }
int main()
{
    VhostState  st;
    std::atomic<int> go{0};
    auto meet = [&] { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < 2) {} };
    std::thread a([&] {
        meet();
        for (int i = 0; i < 20000; ++i)
            st.setPaused("p" + std::to_string(i % 200), i & 1);
    });
    std::thread b([&] {
        meet();
        for (int i = 0; i < 20000; ++i)
            st.isPaused("q" + std::to_string(i % 200));
    });
    a.join();
    b.join();
    return 0;
}
''', flags='-fsanitize=thread', src='libamqpprox/amqpprox_vhoststate.cpp')

s('c10-emit-under-lock', 'C10', 'an event handler that subscribes or unsubscribes on the same event',
  'handlers are called with the subscriber lock held, so a handler that touches the subscription waits for itself for ever',
  [(L + 'eventsourcesignal.h', '        lock.unlock();  // UNLOCK\n', '')],
  r'''
#include <amqpprox_eventsourcesignal.h>
#include <unistd.h>
using namespace Bloomberg::amqpprox;
int main()
{
    alarm(10);
    auto                    sig = EventSourceSignal<int>::create();
    EventSubscriptionHandle other = sig->subscribe([](int) {});
    int                     n     = 0;
    EventSubscriptionHandle h     = sig->subscribe([&](int) {
        ++n;
        other.release();
    });
    sig->emit(1);
    return n == 1 ? 0 : 1;
}
''')

s('c15-json-highest', 'C15', 'a buffer pool whose current use is below its peak',
  'the JSON output reports the current use of a buffer pool as its peak',
  [(L + 'jsonstatformatter.cpp', '<< ", \\"highest\\": " << pool.d_highwaterMark', '<< ", \\"highest\\": " << pool.d_currentAllocation')],
  r'''
#include <amqpprox_jsonstatformatter.h>
#include <amqpprox_statsnapshot.h>
#include <sstream>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    std::vector<StatSnapshot::PoolStats> v(1);
    v[0].d_bufferSize        = 64;
    v[0].d_highwaterMark     = 901;
    v[0].d_currentAllocation = 17;
    JsonStatFormatter  f;
    StatFormatter     &base = f;
    std::ostringstream os;
    base.format(os, v, 5);
    printf("%s\n", os.str().c_str());
    return os.str().find("901") != std::string::npos ? 0 : 1;
}
''')


s('c27-empty-request', 'C27', 'a pooled buffer acquired for zero bytes',
  'a pooled buffer of zero size is given to the heap instead of the pool it came from',
  [(L + 'bufferhandle.cpp', 'if (d_source) {', 'if (d_source && d_size != 0) {')],
  r'''
#include <amqpprox_bufferpool.h>
#include <amqpprox_bufferhandle.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    BufferPool pool({64, 1024});
    {
        BufferHandle h;
        pool.acquireBuffer(&h, 0);
    }
    std::vector<BufferPool::BufferAllocationStat> st;
    uint64_t                                      spill = 0;
    pool.getPoolStatistics(&st, &spill);
    int bad = 0;
    for (auto &e : st)
        bad |= std::get<1>(e) != 0;
    return bad;
}
''')
