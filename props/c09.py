"""C09: state shared by the two threads is accessed under its lock and not referred to beyond it."""
from checklib import *
from absint import base_qn
from locks import Locks, nm

EXPLANATION = ('Lockset analysis of every class that owns a lock (and of the fields other classes share as atomics): each access to a field that changes after construction, also through a '
               'local reference, pointer or iterator, holds the lock of that field; nothing that refers into such a field is returned, unless what it refers to is never destroyed.')
# classes whose objects are used by both threads
SHARED = ('DNSResolver', 'HttpAuthIntercept', 'Server', 'SessionState', 'BackendStore', 'ConnectionLimiterManager', 'ConnectionSelector', 'Farm', 'FarmStore', 'CpuMonitor',
          'DNSHostnameMapper', 'DataRateLimitManager', 'EventSourceSignal', 'ResourceMapper', 'VhostState')
# single fields that both threads use, in classes that otherwise belong to one of them
ATOMS = (('BufferPool', 'd_spillover'), ('BufferSource', 'd_allocationCount'), ('BufferSource', 'd_deallocationCount'), ('BufferSource', 'd_highWater'), ('DataRateLimit', 'd_quota'),
         ('StatCollector', 'd_collectPerSourceStats'))
DESTROY = ('erase', 'clear', 'pop_back', 'pop_front', 'pop', 'operator=', 'swap', 'resize', 'assign', 'insert_or_assign', 'merge', 'reset', 'remove', 'remove_if', 'release')
NODES = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::list', 'std::multimap', 'std::unordered_multimap')


def short(c):
    return c.replace(NS, '')


def selfsync(t, L):
    t = t.replace('const ', '').strip()
    if t.startswith(('std::atomic', 'boost::asio::', 'boost::atomic')) or 'mutex' in t or t.startswith('std::condition_variable'):
        return True
    if t.startswith('std::array<std::atomic'):
        return True
    return base_qn(t.rstrip('&* ')) in L.mutexes and not t.endswith('*') or t.endswith('&')


def fname(f):
    return short(f['qn']) if not f.get('lam') else 'a function object in %s' % short(f['qn'].split('(anonymous')[0].split('::operator()')[0].rstrip(':'))


def run(ctx):
    P = ctx.P
    L = Locks(P)
    ctx.L = L
    ctx.rule('every access to a changing, non-atomic field of a class shared by the two threads, outside its constructors and destructor, holds one common lock of that class; writes hold it exclusively')
    ctx.rule('no function returns a reference, pointer or iterator into such a field, unless the referred-to object is never destroyed before the store itself')
    ctx.assume('Objects of boost::asio, and references to other self-locking objects, are not fields in the sense of this rule; which thread uses them is C08.')
    ctx.assume('Two threads exist: the data plane and control; a class not listed as shared is confined to one of them.')
    fields = {}
    atoms = set()
    for q, r in P.records.items():
        b = base_qn(q)
        if not b.startswith(NS):
            continue
        for f in r.get('fields', ()):
            if short(b) in SHARED or b in L.mutexes:
                if not selfsync(f['t'], L) and not f['t'].startswith('const '):
                    fields[(b, f['n'])] = f
            elif (short(b), f['n']) in ATOMS:
                atoms.add((b, f['n']))
                if not selfsync(f['t'], L):
                    fields[(b, f['n'])] = f
    ctx.require(sum(1 for c in L.mutexes if short(c) in SHARED) >= 5, 'the classes that own locks')
    acc = {}
    for i, R in L.fns.items():
        f = R.f
        ctx.functions.add(f['qn'])
        own = base_qn(f.get('cl') or '')
        for c, fl, m, h, l, th in R.acc:
            if (c, fl) not in fields:
                continue
            if f.get('kind') in ('ctor', 'dtor') and own == c or i in L.unreached and own == c and not f.get('lam'):
                continue
            held = h | L.entry[i]
            acc.setdefault((c, fl), []).append((m, frozenset(x for x in held if x[0] == c), R, l))
    for (c, fl), xs in sorted(acc.items()):
        ctx.count('fields')
        if not any(m == 'w' for m, h, R, l in xs):
            ctx.count('fields_never_changed')
            continue
        ctx.count('accesses', len(xs))
        # the lock of the field: the one held at most accesses
        n = {}
        for m, h, R, l in xs:
            for x in {x[:2] for x in h}:
                n[x] = n.get(x, 0) + 1
        lock = max(n, key=lambda x: n[x]) if n else None
        for m, h, R, l in xs:
            ok = lock is not None and (lock in h or m == 'r' and lock + ('S',) in h)
            if not ok:
                ctx.violation('%s::%s in %s' % (short(c), fl, fname(R.f)), '%s %s %s::%s, which the other thread may be using, without %s' % (
                    fname(R.f), 'changes' if m == 'w' else 'reads', short(c), fl, 'its lock ' + lock[1] if lock else 'any lock'), '%s:%s' % (R.f['file'], l))
        if lock:
            ctx.sample('%s::%s: %d accesses under %s' % (short(c), fl, len(xs), lock[1]))
    escapes(ctx, L, fields, acc)
    ctx.count('atomic_fields', len(atoms))


def escapes(ctx, L, fields, acc):
    changing = {k for k, xs in acc.items() if any(m == 'w' for m, h, R, l in xs)}
    for i, R in L.fns.items():
        if R.f.get('lam'):
            continue
        for e in R.esc:
            c, fl, own, l = e[0], e[1], len(e) == 4, e[-1]
            if (c, fl) not in changing:
                continue
            if R.f.get('acc') in (1, 2) and L.entry[i]:
                continue  # a private helper, used with the lock held
            ctx.count('returned_references')
            why = unstable(L, fields[(c, fl)], c, fl, own)
            if why:
                ctx.violation('%s escapes from %s' % (fl, fname(R.f)), '%s returns something that refers into %s::%s, beyond the lock: %s' % (fname(R.f), short(c), fl, why), '%s:%s' % (R.f['file'], l))


def unstable(L, field, c, fl, owned):
    """why what a reference into the field designates can be destroyed (None if it cannot)"""
    t = base_qn(field['t'].replace('const ', ''))
    if not owned and t not in NODES:
        return 'the other thread may change it meanwhile'
    for i, R in L.fns.items():
        if base_qn(R.f.get('cl') or '') != c or R.f.get('kind') in ('ctor', 'dtor'):
            continue
        for fn, qn, h, l, e in R.calls:
            o = e.get('o')
            if not isinstance(o, dict) or o.get('k') != 'mem' or o.get('f') != fl or base_qn(o.get('fc', '')) != c:
                if nm(e) == 'operator=' and isinstance(o, dict) and rooted(o, c, fl):
                    return '%s replaces the object referred to' % fname(R.f)
                continue
            n = nm(e) if e.get('op') != '=' else 'operator='
            if n in DESTROY:
                return '%s destroys elements with %s' % (fname(R.f), n)
            if n == 'extract' and not kept(R.f, c):
                return '%s takes an element out and does not keep it' % fname(R.f)
    return None


def rooted(e, c, fl):
    while isinstance(e, dict):
        if e.get('k') == 'mem' and e.get('f') == fl and base_qn(e.get('fc', '')) == c:
            return True
        e = e.get('o') or e.get('b') or e.get('e')
    return False


def kept(f, c):
    """the result of extract goes into another member container"""
    found = []

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') == 'call' and nm(n) in ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace', 'emplace_front'):
                o = n.get('o') or {}
                if o.get('k') == 'mem' and base_qn(o.get('fc', '')) == c and any('node' in str(a.get('t', '')).lower() or has_move(a) for a in n.get('a', ()) if isinstance(a, dict)):
                    found.append(n)
            for x in n.values():
                walk(x)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk(f['b'])
    return bool(found)


def has_move(a):
    return a.get('k') == 'call' and nm(a) == 'move' or any(has_move(x) for x in (a.get('a') or ()) if isinstance(x, dict)) or isinstance(a.get('e'), dict) and has_move(a['e'])
