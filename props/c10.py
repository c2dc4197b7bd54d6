"""C10: locks are not held across callbacks, waiting or each other in a cycle, and are always released."""
import re
from checklib import *
from absint import base_qn
from locks import Locks, nm, refd, SYNC

EXPLANATION = ('Which locks each function may acquire, directly or through what it calls (virtual calls to every override, lambdas where they run, dispatched work as run at once), gives the order in which '
               'locks nest; no lock is acquired twice or in both orders. No callback is invoked, and nothing waits, with a lock held. Locks are released by scope, on every exit.')
BLOCK = {'boost::asio::ip::basic_resolver::resolve', 'boost::asio::connect', 'boost::asio::read', 'boost::asio::write', 'boost::asio::read_until', 'boost::asio::read_at', 'boost::asio::write_at',
         'boost::asio::basic_socket::connect', 'boost::asio::basic_socket_acceptor::accept', 'boost::asio::basic_waitable_timer::wait', 'boost::asio::basic_deadline_timer::wait',
         'std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'std::thread::join', 'boost::thread::join', 'std::future::get', 'std::future::wait', 'std::shared_future::get',
         'std::condition_variable::wait', 'std::condition_variable::wait_for', 'std::condition_variable::wait_until', 'system', 'popen', 'sleep', 'usleep', 'nanosleep', 'getaddrinfo', 'getnameinfo',
         'gethostbyname', 'gethostbyaddr', 'poll', 'select', 'epoll_wait', 'boost::asio::ssl::stream::handshake', 'boost::asio::ssl::stream::shutdown', 'boost::this_thread::sleep_for',
         'boost::asio::basic_datagram_socket::send_to', 'boost::asio::basic_datagram_socket::send', 'boost::asio::basic_datagram_socket::receive', 'boost::asio::basic_datagram_socket::receive_from',
         'boost::asio::basic_stream_socket::read_some', 'boost::asio::basic_stream_socket::write_some', 'boost::asio::basic_stream_socket::send', 'boost::asio::basic_stream_socket::receive',
         'boost::asio::basic_socket::wait', 'boost::asio::io_context::run', 'boost::asio::io_context::run_one', 'boost::asio::io_context::run_for', 'boost::beast::http::read', 'boost::beast::http::write'}


def short(c):
    return c.replace(NS, '')


def lk(l):
    return '%s::%s' % (short(l[0]), l[1])


def fname(f):
    return short(f['qn']) if not f.get('lam') else 'a function object in %s' % short(f['qn'].split('::(anonymous')[0].split('(')[0])


def real(h):
    return frozenset(x[:2] for x in h if x[0] != 'RAW')


def memory_only(b, n):
    """a container or string operation that can fail only for want of memory"""
    return bool(re.match(r'std::(?:__cxx11::)?(vector|(unordered_)?(multi)?(map|set)|deque|list|queue|basic_string)\b', b)) and n not in ('at', 'substr', 'compare', 'erase_if')


def harmless(P, fn, seen=()):
    """a function of the repository that throws nothing and calls nothing that can"""
    f = P.functions.get(fn)
    if not f or not f.get('b') or f.get('virt') or fn in seen or len(seen) > 6:
        return False
    todo = [f['b'], f.get('inits')]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += x
        elif isinstance(x, dict):
            if x.get('k') in ('throw', 'new', 'lambda', 'dyncast'):
                return False
            if x.get('k') in ('call', 'ctor') and not x.get('nx'):
                b = base_qn(x.get('qn') or x.get('cl') or '')
                if not memory_only(b, b.rsplit('::', 1)[-1]) and not harmless(P, x.get('fn'), seen + (fn,)):
                    return False
            todo += x.values()
    return True


def run(ctx):
    P = ctx.P
    L = Locks(P)
    ctx.require(len(L.mutexes) >= 5, 'the classes that own locks')
    ctx.rule('no lock is acquired, directly or by a callee, while it is held, and the order in which locks nest has no cycle')
    ctx.rule('no std::function or function parameter is invoked, no work is dispatched and no waiting call is made, directly or by a callee, while a lock is held')
    ctx.rule('a lock taken without a scope guard is released before anything that can throw, before each return and at the end')
    ctx.assume('Locks are told apart by class and member: two objects of one class count as one lock.')
    over = {}
    for f in P.functions.values():
        for o in f.get('ov', ()) or ():
            over.setdefault(o, []).append(f['id'])

    def targets(fn, e):
        out = [fn] if fn in L.fns else []
        if e.get('virt', True):
            todo = list(over.get(fn, ()))
            while todo:
                x = todo.pop()
                if x in L.fns and x not in out:
                    out.append(x)
                todo += over.get(x, ())
        return out

    # summaries
    calls, acq, block, cbs = {}, {}, {}, {}
    recursive = {(base_qn(q), f['n']) for q, r in P.records.items() for f in r.get('fields', ()) if 'recursive' in f['t'] and 'mutex' in f['t']}
    for i, R in L.fns.items():
        ctx.functions.add(R.f['qn'])
        calls[i] = [(t, h, l) for fn, qn, h, l, e in R.calls for t in targets(fn, e)]
        for ids, h, l, s in R.lams:
            if s:
                calls[i] += [(x, h, l) for x in ids if x in L.fns]
        acq[i] = {l[:2]: None for l, h, ln in R.acq}
        block[i] = next((qn for fn, qn, h, l, e in R.calls if base_qn(qn) in BLOCK), None)
        cbs[i] = next(((i, l) for fn, qn, h, l, e in R.calls if nm(e) == 'dispatch' and base_qn(qn).startswith('boost::asio')), None)
        for h, l, o in R.cb:
            d = refd(o)
            k = next((k for k, p in enumerate(R.f.get('p', ())) if p.get('d') == d), None)
            if k is not None and k in L.given.get(i, ()) and R.f.get('acc') in (1, 2):
                continue  # a private helper: what it is given is checked as code of its callers
            cbs[i] = (i, l)
    ch = True
    while ch:
        ch = False
        for i in L.fns:
            for t, h, l in calls[i]:
                for x in acq[t]:
                    if x not in acq[i]:
                        acq[i][x] = t
                        ch = True
                if block[t] and not block[i]:
                    block[i] = (t, block[t] if isinstance(block[t], str) else block[t][1])
                    ch = True
                if cbs[t] and not cbs[i]:
                    cbs[i] = cbs[t]
                    ch = True
    # nesting
    edges = {}
    for i, R in L.fns.items():
        f = R.f
        for l, h, ln in R.acq:
            ctx.count('acquisitions')
            for x in real(h | L.entry[i]):
                edges.setdefault((x, l[:2]), []).append((f, ln, None))
        for t, h, ln in calls[i]:
            hh = real(h | L.entry[i])
            if not hh:
                continue
            ctx.count('calls_with_a_lock_held')
            for l in acq[t]:
                if L.fns[t].f.get('lam') and l in real(L.entry[t]) and l not in {a[0][:2] for a in L.fns[t].acq}:
                    continue
                for x in hh:
                    edges.setdefault((x, l), []).append((f, ln, L.fns[t].f))
            if cbs[t]:
                g = L.fns[cbs[t][0]].f
                ctx.violation('%s holds %s across %s' % (fname(f), lk(min(hh)), fname(g)), '%s calls %s with %s held, which invokes a callback or dispatches a handler (%s:%s)' % (
                    fname(f), fname(L.fns[t].f), lk(min(hh)), g['file'], cbs[t][1]), '%s:%s' % (f['file'], ln))
            if block[t]:
                b = block[t] if isinstance(block[t], str) else block[t][1]
                ctx.violation('%s waits with %s held' % (fname(f), lk(min(hh))), '%s calls %s with %s held, which waits in %s' % (
                    fname(f), fname(L.fns[t].f), lk(min(hh)), base_qn(b)), '%s:%s' % (f['file'], ln))
        for fn, qn, h, ln, e in R.calls:
            hh = real(h | L.entry[i])
            b = base_qn(qn)
            n = nm(e)
            if hh and b in BLOCK:
                own = n.startswith('wait') and 'condition_variable' in b and len(hh) == 1
                if not own:
                    ctx.violation('%s waits with %s held' % (fname(f), lk(min(hh))), '%s waits in %s with %s held' % (fname(f), b, lk(min(hh))), '%s:%s' % (f['file'], ln))
            if hh and n == 'dispatch' and b.startswith('boost::asio'):
                ctx.violation('%s dispatches with %s held' % (fname(f), lk(min(hh))), '%s dispatches work, which may run at once, with %s held' % (fname(f), lk(min(hh))), '%s:%s' % (f['file'], ln))
            if hh and n in SYNC and b.startswith('std::'):
                for a in e.get('a', ()):
                    while isinstance(a, dict) and a.get('k') in ('icast', 'cast', 'ctor'):
                        a = a.get('e') or (a.get('a') or [None])[0]
                    if isinstance(a, dict) and a.get('k') in ('ref', 'mem') and 'std::function<' in a.get('t', '')[:30]:
                        ctx.violation('%s invokes a callback with %s held' % (fname(f), lk(min(hh))), '%s has a callback invoked with %s held' % (fname(f), lk(min(hh))), '%s:%s' % (f['file'], ln))
            # released on exceptional exits too
            if any(x[0] == 'RAW' for x in h) and not e.get('nx') and n not in ('lock', 'unlock') and not memory_only(b, n) and not harmless(P, e.get('fn')):
                ctx.violation('%s can leave locked by exception' % fname(f), '%s can throw in %s while it holds a lock that no scope releases' % (fname(f), b), '%s:%s' % (f['file'], ln))
            if n == 'release' and b in ('std::unique_lock::release', 'boost::unique_lock::release', 'std::shared_lock::release'):
                ctx.violation('%s abandons a lock' % fname(f), '%s gives up the guard of a lock without unlocking it' % fname(f), '%s:%s' % (f['file'], ln))
        for e, h, ln in R.rets:
            if any(x[0] == 'RAW' for x in h):
                ctx.violation('%s returns locked' % fname(f), '%s returns with a lock held that no scope releases' % fname(f), '%s:%s' % (f['file'], ln))
        if any(x[0] == 'RAW' for x in R.end):
            ctx.violation('%s ends locked' % fname(f), '%s ends with a lock held that no scope releases' % fname(f), loc_of(f))
        for h, ln, o in R.cb:
            ctx.count('callback_invocations')
            hh = real(h | L.entry[i])
            d = refd(o)
            k = next((k for k, p in enumerate(f.get('p', ())) if p.get('d') == d), None)
            if k is not None and k in L.given.get(i, ()) and f.get('acc') in (1, 2):
                continue
            if hh:
                ctx.violation('%s invokes a callback with %s held' % (fname(f), lk(min(hh))), '%s invokes a callback with %s held' % (fname(f), lk(min(hh))), '%s:%s' % (f['file'], ln))
    graph = {}
    for (a, b), ws in edges.items():
        f, ln, g = ws[0]
        via = ' (in %s)' % fname(g) if g else ''
        if a == b:
            if a not in recursive:
                ctx.violation('%s acquires %s twice' % (fname(f), lk(a)), '%s acquires %s%s while holding it' % (fname(f), lk(a), via), '%s:%s' % (f['file'], ln))
            continue
        ctx.count('nested_pairs')
        ctx.sample('%s then %s: %s%s' % (lk(a), lk(b), fname(f), via))
        graph.setdefault(a, set()).add(b)
    # cycles
    def reach(a, b, seen):
        if a == b:
            return [a]
        for c in sorted(graph.get(a, ())):
            if c not in seen:
                seen.add(c)
                p = reach(c, b, seen)
                if p:
                    return [a] + p
        return None
    for (a, b), ws in sorted(edges.items(), key=lambda x: str(x[0])):
        if a != b:
            p = reach(b, a, {b})
            if p:
                f, ln, g = ws[0]
                cyc = [a] + p
                ctx.violation('lock cycle %s' % ' '.join(sorted(set(map(lk, cyc)))), 'locks nest in both orders: %s' % ' -> '.join(map(lk, cyc)), '%s:%s' % (f['file'], ln),
                              ['%s -> %s: %s at %s:%s' % (lk(x), lk(y), fname(edges[(x, y)][0][0]), edges[(x, y)][0][0]['file'], edges[(x, y)][0][1]) for x, y in zip(cyc, cyc[1:]) if (x, y) in edges])
