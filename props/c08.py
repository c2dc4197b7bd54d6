"""C08: connection state is only touched by the data-plane thread."""
import re
from checklib import *
from tab import *
from c11 import Flow, walk, short, strip, related
from locks import Locks

CONTROL = ('Control', 'ControlSession', 'ControlCommand', 'SessionCleanup', 'CpuMonitor', 'StatsDPublisher')


ASIO_IO = re.compile(r'^boost::asio::(basic_(\w+_)?socket|basic_socket_acceptor|ssl::stream)::')


def control_class(P, c):
    return any(c == NS + x for x in CONTROL) or bool(c) and related(P, NS + 'ControlCommand', c)


def reach(ctx, F):
    P = ctx.P
    ctl = lambda c: control_class(P, c)
    roots = {}
    for f in P.functions.values():
        if '/tests/' in f['file'] or not f.get('b'):
            continue
        if short(f['qn']) == 'handleCommand' and f.get('virt'):
            roots[f['id']] = 'command'
    for node, fid, via in F.deferred.values():
        own = F.owner(fid)
        enc = fid
        while enc in F.encl:
            enc = F.encl[enc]
        ef = P.functions[enc]
        isctl = ctl(own) or (not own and re.search(r'controlcommand|control\.cpp|amqpprox\.m\.cpp', ef['file'].split('/')[-1]))
        fns = list(node.get('fns', ())) if node['k'] == 'lambda' else [m['fn'] for m in walk(node.get('a')) if m.get('k') in ('mfn', 'fref') and m.get('fn') in P.functions]
        if isctl:
            for g in fns:
                roots[g] = 'control loop'
    par = dict.fromkeys(roots)
    todo = list(roots)
    while todo:
        i = todo.pop()
        f = P.functions.get(i)
        if not f or not f.get('b'):
            continue
        for m in own_nodes(F, [f['b'], f.get('inits')]):
            ts = []
            if m.get('k') == 'lambda':
                ts = list(m.get('fns', ()))
            elif m.get('fn') in P.functions:
                ts = [m['fn']]
                if m.get('k') == 'call' and P.functions[m['fn']].get('virt'):
                    ts += F.over.get((short(m['qn']), len(m.get('a', ()))), [])
            elif m.get('k') == 'call' and (m.get('qn') or '').startswith(NS):
                ts = F.over.get((short(m['qn']), len(m.get('a', ()))), [])
            elif m.get('k') == 'call' and short(m.get('qn') or '') in ('make_shared', 'make_unique'):
                pass
            for t in ts:
                if t not in par:
                    par[t] = (i, m.get('l'))
                    todo.append(t)
    return roots, par


def own_nodes(F, n):
    """nodes evaluated here: not the bodies of anything, and deferred closures only as values"""
    if isinstance(n, list):
        for y in n:
            yield from own_nodes(F, y)
    elif isinstance(n, dict):
        if n.get('k') == 'lambda' and id(n) in F.deferred:
            for c in n.get('caps', ()):
                yield from own_nodes(F, c.get('i'))
            return
        yield n
        for y in n.values():
            if isinstance(y, (dict, list)):
                yield from own_nodes(F, y)



CONFINED = ('Session', 'Connector', 'MaybeSecureSocketAdaptor', 'BufferHandle', 'BufferPool', 'BufferSource', 'DataRateLimit', 'DNSResolver')
# asio objects that perform or schedule I/O; an io_context may be handed work from anywhere
IO = re.compile(r'basic_(\w+_)?socket|basic_socket_acceptor|ssl::stream|_timer|basic_resolver|tcp::(socket|acceptor|resolver)|SocketType|TimerType|StreamType')
PTR = re.compile(r'shared_ptr<|unique_ptr<|\*( const)?$')
SYNC = re.compile(r'atomic')


def strip_ptr(t):
    return re.sub(r'^(const )?(std::(shared_ptr|unique_ptr|optional)<)?(const )?', '', t)


def fields(ctx, L):
    """-> {(class, field): why it must not be used on the control thread}"""
    P = ctx.P
    ft = {}
    for q, r in P.records.items():
        b = base_qn(q)
        if b.startswith(NS):
            for f in r.get('fields', ()):
                ft[(b, f['n'])] = f['t']
    changing, repoint = set(), set()
    for i, R in L.fns.items():
        own = base_qn(R.f.get('cl') or '')
        if R.f.get('kind') != 'ctor':
            for c, fl, m, h, l, th in R.acc:
                if m == 'w':
                    changing.add((c, fl))
        for m in walk([R.f.get('b')]):
            # the field itself is handed out to be written
            if m.get('s') == 'return' and not R.f.get('cst') and (R.f.get('rt') or '').endswith('&') and not (R.f.get('rt') or '').startswith('const '):
                for x in walk(m.get('e')):
                    if x.get('k') == 'mem' and x.get('fc'):
                        changing.add((base_qn(x['fc']), x['f']))
            t = None
            if m.get('k') == 'asg':
                t = strip(m.get('x'))
            elif m.get('k') == 'call' and (m.get('op') == '=' or short(m.get('qn') or '') in ('operator=', 'reset', 'swap', 'release', 'emplace')):
                t = strip(m.get('o')) if m.get('o') is not None else strip((m.get('a') or [None])[0])
            if isinstance(t, dict) and t.get('k') == 'mem' and t.get('fc') and not (R.f.get('kind') == 'ctor' and own == base_qn(t['fc'])):
                repoint.add((base_qn(t['fc']), t['f']))
    out = {}
    classes = set()
    for (c, f), t in ft.items():
        sc = c.replace(NS, '')
        if sc not in CONFINED and not (sc == 'Server' and IO.search(t) and not re.search(r'_map<|vector<', t)):
            continue
        classes.add(sc)
        if SYNC.search(t) or t.startswith('const ') or t.endswith('&') and not IO.search(t):
            continue
        if IO.search(t) and not base_qn(strip_ptr(t)).startswith(NS):
            out[(c, f)] = 'an I/O object'
        elif c in L.mutexes:
            continue        # under its lock, by C09
        elif PTR.search(t):
            if (c, f) in repoint:
                out[(c, f)] = 'a pointer that the data plane changes'
        elif base_qn(t).replace(NS, '') in CONFINED or base_qn(t) == NS + 'SessionState':
            continue        # its own fields are looked at
        elif (c, f) in changing or (c, f) in repoint:
            out[(c, f)] = 'state that the data plane changes'
    for c in ('Session', 'Connector', 'MaybeSecureSocketAdaptor'):
        ctx.require(c in classes, 'the fields of ' + c)
    return out


def chain(P, par, i):
    out = []
    while par.get(i):
        j, l = par[i]
        out.append('%s:%s %s' % (P.functions[j]['file'].split('/')[-1], l, P.functions[j]['qn'].replace(NS, '')[:80]))
        i = j
    return out[::-1]


def name(f):
    return re.sub(r'\(anonymous class\)', 'lambda', f['qn'].replace(NS, ''))[:90]


SESS = re.compile(r'(shared_ptr<(const )?(Bloomberg::amqpprox::)?Session>|\bSessionPtr\b)')


def holds(t):
    t = t or ''
    return SESS.search(t) and not t.rstrip().endswith(('&', '*')) and 'function<' not in t and 'iterator' not in t


class Last:
    """who may drop the last reference to a session, and on which thread"""

    def __init__(self, ctx, F, par):
        self.ctx, self.F, self.P, self.par = ctx, F, ctx.P, par
        self.handoff = {}
        for node, fid, via in F.deferred.values():
            if node['k'] == 'lambda' and fid in par and any(c['m'] == 'copy' and (holds(c.get('t')) or holds((c.get('i') or {}).get('t'))) and
                                                            re.search(r'set<|vector<|map<|list<|deque<', (c.get('t') or '') + ((c.get('i') or {}).get('t') or '')) for c in node.get('caps', ())):
                self.handoff[fid] = node
        self.calls = set(self.handoff)
        ch = True
        while ch:
            ch = False
            for i in par:
                if i not in self.calls and any(m.get('fn') in self.calls for m in own_nodes(F, self.P.functions[i].get('b'))):
                    self.calls.add(i)
                    ch = True

    def run(self):
        self.ctx.require(self.handoff, 'sessions are handed over to the data plane')
        for i in self.par:
            f = self.P.functions[i]
            if f.get('b') and not (f.get('kind') in ('ctor', 'dtor')):
                self.f = f
                self.live = {}      # local -> line
                self.guards = []
                self.copied = set()
                self.block(f['b'])

    def vio(self, key, text, l):
        f = self.f
        self.ctx.violation('%s|%s' % (base_qn(f['qn']), key), text, where='%s:%s %s' % (f['file'].replace(REPO + '/', ''), l, name(f)), path=chain(self.P, self.par, f['id']))

    def block(self, n):
        if isinstance(n, list):
            for y in n:
                self.block(y)
            return
        if not isinstance(n, dict):
            return
        s = n.get('s')
        if s in ('block', 'if', 'for', 'rfor', 'while', 'do', 'switch', 'try'):
            live, g = dict(self.live), list(self.guards)
            if s == 'rfor' and n.get('v'):
                for v in n['v'] if isinstance(n['v'], list) else [n['v']]:
                    self.decl(v)
            for k, y in n.items():
                if k == 'v' and s == 'rfor':
                    continue
                if isinstance(y, (dict, list)):
                    self.block(y)
            # what was declared inside is gone; what was emptied inside a branch may still be full on the other
            if s == 'block':
                self.live = {k: v for k, v in self.live.items() if k in live}
            else:
                self.live = dict(live) if s != 'try' else {k: v for k, v in self.live.items() if k in live}
            self.guards = g
            return
        if s == 'decl':
            for v in n.get('v', ()):
                self.block(v.get('i'))
                self.decl(v)
            return
        if n.get('k') == 'lambda':
            if id(n) in self.F.deferred:
                if self.handoff.get(self.f['id']) is n:
                    self.pending = n
                return
            return
        for y in n.values():
            if isinstance(y, (dict, list)):
                self.block(y)
        k = n.get('k')
        if k == 'asg' or k == 'call':
            self.op(n)

    def decl(self, v):
        t = v.get('t') or ''
        if re.search(r'lock_guard|unique_lock|scoped_lock', t):
            ms = [m['f'] for m in walk(v.get('i')) if m.get('k') == 'mem']
            self.guards.append((ms[-1] if ms else None))
        elif holds(t):
            self.live[v.get('d')] = (v.get('n'), list(self.guards))
            self.note(v.get('i'))

    def note(self, e):
        for m in walk(e):
            if m.get('k') == 'mem':
                self.copied.add(m['f'])
            elif m.get('k') == 'ref':
                self.copied |= self.source((m.get('d'), m.get('n')))

    def source(self, key, d=0):
        v = self.F.vars.get(key)
        if not v or d > 3:
            return set()
        return {m['f'] for m in walk(v.get('i')) if m.get('k') == 'mem'}

    def op(self, n):
        nm = short(n.get('qn') or '') or ('operator=' if n.get('op') == '=' else '')
        o = strip(n.get('o')) if n.get('o') is not None else None
        if n.get('k') == 'asg':
            o, nm = strip(n.get('x')), 'operator='
        args = [y for y in n.get('a', ()) if y is not None]
        if nm == 'operator=' and o is None and args:
            o, args = strip(args[0]), args[1:]
        elif nm == 'operator=' and n.get('k') == 'asg':
            args = [n.get('y')]
        if nm == 'move' and args and (strip(args[0]) or {}).get('k') == 'ref':
            self.live.pop(strip(args[0]).get('d'), None)
        if nm == 'swap':
            for x in [o] + [strip(y) for y in args]:
                if isinstance(x, dict) and x.get('k') == 'mem':
                    self.copied.add(x['f'])
        if isinstance(o, dict) and o.get('k') == 'ref':
            v0 = strip(args[0]) if args else None
            empty = nm == 'operator=' and isinstance(v0, dict) and (v0.get('k') in ('ctor', 'ilist', 'init') and not [y for y in v0.get('a', v0.get('e', ())) or () if y is not None] or
                                                                     v0.get('k') == 'null')
            if nm in ('clear', 'reset') or empty:
                self.live.pop(o.get('d'), None)
            elif nm in ('swap',) or nm in ('push_back', 'insert', 'emplace', 'emplace_back', 'operator='):
                if holds(o.get('t')):
                    v = self.F.vars.get((o.get('d'), o.get('n')))
                    local = v is not None and not v.get('cap')
                    if local:
                        self.live[o.get('d')] = (o.get('n'), list(self.guards))
        if isinstance(o, dict) and o.get('k') == 'mem' and holds(o.get('t')) and base_qn(o.get('fc') or '') == NS + 'Server':
            if nm in ('insert', 'emplace', 'push_back', 'emplace_back', 'operator='):
                for a in args:
                    self.note(a)
            if nm in ('clear', 'erase', 'extract', 'pop_back') or nm == 'operator=':
                self.ctx.count('session_tables_emptied')
                if o['f'] not in self.copied:
                    self.vio('drop ' + o['f'], 'the control thread removes sessions from %s while nothing else of the server holds them: the session may be destroyed on this thread' % o['f'], n.get('l'))
        if n.get('k') == 'call' and nm in ('post', 'dispatch', 'defer') and getattr(self, 'pending', None) is not None:
            node, self.pending = self.pending, None
            self.hand(n, node)
        elif n.get('fn') in self.calls and n['fn'] != self.f['id']:
            self.ctx.count('hand_overs')
            for nm2, g in self.live.values():
                self.vio('keeps ' + nm2, 'the control thread still holds sessions in %s when their last references are handed to the data plane: it may destroy them' % nm2, n.get('l'))

    def hand(self, n, node):
        self.ctx.count('hand_overs')
        inner = set()
        for g in node.get('fns', ()):
            for v in walk(self.P.functions[g].get('b')):
                if v.get('s') == 'decl':
                    for d in v.get('v', ()):
                        if re.search(r'lock_guard|unique_lock|scoped_lock', d.get('t') or ''):
                            inner |= {m['f'] for m in walk(d.get('i')) if m.get('k') == 'mem'}
        for nm2, g in self.live.values():
            if not (set(g) & set(self.guards) & inner):
                self.vio('copy ' + nm2, 'sessions are handed to the data plane while %s of this thread still holds them, with no lock that makes the data plane wait until it is gone' % nm2, n.get('l'))


EXPLANATION = (
    'Thread confinement by call-graph reachability: the functions that run on the control thread (every command, everything deferred to the control loop, and what they call, '
    'virtual calls resolved, closures handed to the data-plane loop excluded) are enumerated, and none of them may access a field of a session, connector, socket adaptor or buffer '
    'that is an I/O object or changes after construction, atomics excepted. A second analysis follows the references to sessions on the control thread: the last one is dropped on the data plane.')


def run(ctx):
    P = ctx.P
    ctx.rule('no function reachable on the control thread, other than through a hand-over to the data-plane io_context, accesses confined state')
    ctx.rule('the control thread holds no reference to a session when its last references are handed over, unless the data plane has to wait for its lock')
    ctx.assume('the classes Control, ControlSession, ControlCommand (and derived), SessionCleanup, CpuMonitor and StatsDPublisher defer work to the control loop, all others to the data plane')
    ctx.assume('session details in SessionState synchronise themselves (decided by C09)')
    F = Flow(ctx)
    roots, par = reach(ctx, F)
    ctx.require(sum(1 for w in roots.values() if w == 'command') >= 14, 'control commands')
    ctx.require(any(base_qn(P.functions[i]['qn']) == NS + 'SessionCleanup::cleanup' for i in par), 'SessionCleanup runs on the control thread')
    conf = fields(ctx, Locks(P))
    ctx.count('control_thread_functions', len(par))
    ctx.count('confined_fields', len(conf))
    for i in sorted(par):
        f = P.functions[i]
        if not f.get('b'):
            continue
        ctx.functions.add(i)
        for m in own_nodes(F, [f['b'], f.get('inits')]):
            if m.get('k') == 'mem' and m.get('fc'):
                c = base_qn(m['fc'])
                ctx.count('field_accesses')
                if f.get('kind') in ('ctor', 'dtor') and base_qn(f.get('cl') or '') == c:
                    continue
                why = conf.get((c, m['f']))
                if why:
                    ctx.violation('%s|%s::%s' % (base_qn(f['qn']), c.replace(NS, ''), m['f']), 'the control thread uses %s::%s, %s' % (c.replace(NS, ''), m['f'], why),
                                  where='%s:%s %s' % (f['file'].replace(REPO + '/', ''), m.get('l') or f['l'], name(f)), path=chain(P, par, i))
            elif m.get('k') == 'call' and m.get('o') is not None and ASIO_IO.match(base_qn(m.get('qn') or '')) and not m.get('cst') and not control_class(P, F.owner(i)):
                ctx.count('io_calls')
                ctx.violation('%s|%s' % (base_qn(f['qn']), short(m['qn'])), 'the control thread calls %s on an I/O object of the data plane' % short(m['qn']),
                              where='%s:%s %s' % (f['file'].replace(REPO + '/', ''), m.get('l') or f['l'], name(f)), path=chain(P, par, i))
    Last(ctx, F, par).run()
