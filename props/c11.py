"""C11: asynchronous completions never use what is gone."""
import re
from checklib import *
from tab import *

EXPLANATION = (
    'Escape analysis of callables over the syntax trees: every lambda and bind expression that flows (through variables, '
    'parameters, captures and virtual calls) into an asynchronous operation is found, and its captures are examined: none '
    'by reference or by pointer into the registering frame, and where it uses a shared object (Session, ControlSession, '
    'HttpAuthIntercept, socket adaptor) it must carry a shared_ptr to that object. The memory given to each operation is '
    'traced to its owner, which must be static, a member of an object the handler keeps alive, or a shared_ptr the handler carries.')

SINK = re.compile(r'^(async_\w+|post|dispatch|defer|subscribe)$')
KEEP = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'insert_or_assign', 'try_emplace')
FORWARD = ('move', 'forward', 'ref_forward', 'bind_executor', 'wrap', 'bind_handler', 'decay_copy', 'as_const')
BIND = ('bind', 'bind_front', 'bind_front_handler', 'bind_back')
VIEW = re.compile(r'string_view|reference_wrapper|^(const )?char \*|span<')


def walk(n):
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def short(qn):
    return re.sub(r'<.*>$', '', base_qn(qn)).split('::')[-1]


def strip(e):
    """through casts, copies, moves and conversions to std::function"""
    while isinstance(e, dict):
        k = e.get('k')
        if k in ('icast', 'cast', 'paren'):
            e = e['e']
        elif k == 'ctor' and len([a for a in e.get('a', ()) if a is not None]) >= 1 and (
                e.get('cm') in ('copy', 'move') or base_qn(e.get('cl') or '') in ('std::function', 'std::shared_ptr') and len(e['a']) == 1 or
                (e.get('cl') or '').startswith('(lambda') or '(anonymous' in (e.get('cl') or '')):
            e = e['a'][0]
        elif k == 'call' and short(e.get('qn') or '') in FORWARD and e.get('a'):
            e = e['a'][-1] if short(e['qn']) == 'bind_executor' else e['a'][0]
        else:
            return e
    return e


class Flow:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        P = self.P
        self.vars, self.params, self.lamfn, self.encl = {}, {}, {}, {}
        self.refs = set()
        self.over = {}
        for f in P.functions.values():
            if not f.get('b'):
                continue
            for i, p in enumerate(f['p']):
                if p.get('d') is not None:
                    self.params[(p['d'], p['n'])] = (f['id'], i)
            for n in walk([f['b'], f.get('inits')]):
                if n.get('s') == 'decl':
                    for v in n.get('v', ()):
                        self.vars[(v.get('d'), v.get('n'))] = v
                elif n.get('k') == 'lambda':
                    for g in n.get('fns', ()):
                        self.lamfn[g] = n
                        self.encl[g] = f['id']
                    for c in n.get('caps', ()):
                        if c.get('ic'):
                            self.vars[(c.get('d'), c.get('n'))] = {'i': c.get('i'), 't': c.get('t'), 'd': c.get('d'), 'n': c.get('n'), 'cap': True}
            if f.get('virt'):
                self.over.setdefault((short(f['qn']), len(f['p'])), []).append(f['id'])
        self.deferred = {}         # id(node) -> (node, fn, how)
        self.escaping = set()
        self.sites = []            # (call, fn) of asynchronous operations
        self.fix()

    def owner(self, fid):
        """the class whose `this` is meant in a function or (nested) lambda"""
        while fid in self.encl:
            fid = self.encl[fid]
        f = self.P.functions[fid]
        return base_qn(f.get('cl') or '')

    def callables(self, e, fid, seen=()):
        e = strip(e)
        if not isinstance(e, dict):
            return []
        k = e.get('k')
        if k == 'lambda':
            return [('closure', e, fid)]
        if k == 'call' and short(e.get('qn') or '') in BIND:
            return [('closure', e, fid)]
        if k == 'ref':
            key = (e.get('d'), e.get('n'))
            if key in seen:
                return []
            if key in self.params:
                return [('param',) + self.params[key]]
            v = self.vars.get(key)
            if v and v.get('i') is not None:
                return self.callables(v['i'], fid, seen + (key,))
        if k in ('ctor', 'init', 'ilist') and seen.count(0) < 3:
            return [x for a in e.get('a', e.get('e', ())) or () if isinstance(a, dict) for x in self.callables(a, fid, seen + (0,))]
        if k == 'cond':
            return [x for y in ('x', 'y') if y in e for x in self.callables(e[y], fid, seen)]
        return []

    def carried(self, node):
        """what a closure holds: (mode, name, type, expression)"""
        if node['k'] == 'lambda':
            return [(c['m'], c.get('n') or 'this', c.get('t') or '', c.get('i'), c) for c in node.get('caps', ())]
        out = []
        for a in node.get('a', ()):
            s = strip(a)
            if s.get('k') == 'this':
                out.append(('this', 'this', s.get('t') or '', s, None))
            elif s.get('k') == 'call' and short(s.get('qn') or '') in ('ref', 'cref'):
                out.append(('ref', ppx(s['a'][0]), s.get('t') or '', s, None))
            else:
                out.append(('copy', ppx(s), s.get('t') or '', s, None))
        return out

    def fix(self):
        calls = []
        for f in self.P.functions.values():
            if not f.get('b') or '/tests/' in f['file']:
                continue
            for n in walk([f['b'], f.get('inits')]):
                if n.get('k') in ('call', 'ctor') and (n.get('fn') or n.get('qn')):
                    calls.append((n, f))
        for n, f in calls:
            if n['k'] == 'call' and SINK.match(short(n.get('qn') or '')):
                self.sites.append((n, f))
        changed = True
        while changed:
            changed = False
            for n, f in calls:
                sink = n['k'] == 'call' and SINK.match(short(n.get('qn') or ''))
                g = self.P.functions.get(n.get('fn'))
                targets = [g['id']] if g else []
                if n['k'] == 'call' and (not g or g.get('virt')) and (n.get('qn') or '').startswith(NS):
                    targets += self.over.get((short(n['qn']), len(n.get('a', ()))), [])
                if n['k'] == 'call' and short(n.get('qn') or '') in KEEP and isinstance(n.get('o'), dict) and n['o'].get('k') == 'mem' and \
                        related(self.P, NS + 'ControlCommand', self.owner(f['id'])):
                    sink = True
                for i, a in enumerate(n.get('a', ())):
                    if not sink and not any((t, i) in self.escaping for t in targets):
                        continue
                    for c in self.callables(a, f['id']):
                        if c[0] == 'param':
                            changed |= self.escape(c[1:])
                        else:
                            changed |= self.defer(c[1], c[2], n)
            if changed:
                continue

    def escape(self, p):
        if p in self.escaping:
            return False
        self.escaping.add(p)
        return True

    def defer(self, node, fid, via):
        if id(node) in self.deferred:
            return False
        self.deferred[id(node)] = (node, fid, via)
        for m, n, t, e, cap in self.carried(node):
            if e is not None and m != 'this':
                for c in self.callables(e, fid):
                    if c[0] == 'param':
                        self.escape(c[1:])
                    else:
                        self.defer(c[1], c[2], via)
        return True


def ppx(e):
    e = strip(e)
    if not isinstance(e, dict):
        return '?'
    return e.get('n') or e.get('f') or short(e.get('qn') or '') or e.get('k') or '?'


def pointee_class(t):
    m = re.match(r'^(?:const )?([\w:]+)(?:<.*>)? (?:const )?\*(?: ?const)?$', t)
    return base_qn(m.group(1)) if m else None


def shared_class(t):
    m = re.match(r'^(?:const )?std::(?:__)?shared_ptr(?:_access)?<(?:const )?([\w:]+)', t)
    return m.group(1) if m else None


def run(ctx):
    F = Flow(ctx)
    P = ctx.P
    ctx.rule('a deferred callable captures nothing by reference, and no pointer or view into the registering frame')
    ctx.rule('a deferred callable that uses `this` of a class with shared ownership carries a shared_ptr to it made by shared_from_this')
    ctx.rule('memory and streams of an asynchronous operation: member of a kept object, static, or held by a shared_ptr the handler carries')
    shared = {base_qn(r['qn'] if isinstance(r, dict) and 'qn' in r else k) for k, r in P.records.items() if esft(r)}
    for n in ('Session', 'HttpAuthIntercept'):
        ctx.require(NS + n in shared, n + ' is a shared object')
    for node, fid, via in F.deferred.values():
        closure(ctx, F, node, fid, via, shared)
    ctx.count('deferred callables', len(F.deferred))
    for n, f in F.sites:
        operation(ctx, F, n, f, shared)
    ctx.count('asynchronous operations', len(F.sites))
    ctx.require(len(F.deferred) >= 25, 'deferred callables')
    ctx.functions |= {f['id'] for n, f in F.sites} | {fid for n, fid, v in F.deferred.values()}


def esft(r):
    return any('enable_shared_from_this' in str(b) for b in r.get('bases', ()))


def vio(ctx, f, line, what, text):
    ctx.violation('%s|%s' % (base_qn(f['qn']), what), text, where='%s:%s %s' % (f['file'].replace(REPO + '/', ''), line, f['qn'].replace(NS, '')[:80]))


def related(P, a, b):
    """same class, or one derives from the other"""
    def up(c, d=0):
        r = P.records.get(c)
        out = {c}
        if r and d < 6:
            for x in r.get('bases', ()):
                n = base_qn(x if isinstance(x, str) else x.get('qn') or x.get('t') or '')
                out |= up(n, d + 1)
        return out
    return a in up(b) or b in up(a)


def origin(F, e, seen=()):
    """where a shared_ptr comes from: 'self', 'given' or None"""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get('k') == 'call':
        n = short(e.get('qn') or '')
        if n == 'shared_from_this':
            return 'self'
        if n == 'lock':
            return 'given'
        if n in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
            return origin(F, e['a'][0], seen)
        return None
    if e.get('k') == 'ref':
        key = (e.get('d'), e.get('n'))
        if key in F.params:
            return 'given'
        v = F.vars.get(key)
        if v and key not in seen and v.get('i') is not None:
            return origin(F, v['i'], seen + (key,))
    return None


def closure(ctx, F, node, fid, via, shared):
    f = ctx.P.functions[fid]
    cl = F.owner(fid)
    line = node.get('l')
    held = F.carried(node)
    uses_this = False
    owners = set()
    for m, n, t, e, cap in held:
        ctx.count('captures')
        if m == 'ref':
            vio(ctx, f, line, 'ref ' + n, 'a handler that runs later captures %s of the registering frame by reference' % n)
        elif m == 'this':
            uses_this = True
        else:
            s = shared_class(t)
            if s and e is not None:
                o = origin(F, e)
                if base_qn(s) not in shared or o:
                    owners.add(base_qn(s))
            pc = pointee_class(t)
            root = rooted(F, e) if e is not None else None
            if pc and base_qn(pc) in shared:
                vio(ctx, f, line, 'raw ' + n, 'a handler that runs later carries the raw pointer %s to a %s' % (n, pc.replace(NS, '')))
            elif (t.endswith('*') or VIEW.search(t)) and root == 'local':
                vio(ctx, f, line, 'view ' + n, 'a handler that runs later carries %s (%s), which points into the registering frame' % (n, t[:60]))
    if uses_this and cl in shared:
        own = any(related(ctx.P, o, cl) for o in owners)
        handler = [n for m, n, t, e, cap in held if m == 'copy' and e is not None and any(c[0] == 'param' and c[1:] in F.escaping for c in F.callables(e, fid))]
        if not own and not (handler and cl == NS + 'MaybeSecureSocketAdaptor'):
            vio(ctx, f, line, 'this without self', 'a handler that runs later uses %s without keeping it alive' % cl.replace(NS, ''))


def rooted(F, e, depth=0):
    """'local' if a pointer, view or buffer leads into a variable of this frame; a shared_ptr key; or None"""
    r = roots(F, e)
    return 'local' if any(x[0] == 'local' for x in r) else None


HANDLE = re.compile(r'shared_ptr|unique_ptr')
BUFFERISH = re.compile(r'(const|mutable)_buffers?(_\w+)?\b|null_buffers|^(const )?Bloomberg::amqpprox::Buffer\b|dynamic_\w*buffer|prepared_buffers|basic_string_view|pair<(const )?void \*')


def roots(F, e, deref=True, depth=0):
    """objects whose memory an expression refers to"""
    e = strip(e)
    if not isinstance(e, dict) or depth > 12:
        return set()
    k = e.get('k')
    if k == 'this':
        return {('this',)}
    if k == 'mem':
        if HANDLE.search(e.get('t') or '') or True:
            return roots(F, e['b'], True, depth + 1)
    if k == 'ref':
        key = (e.get('d'), e.get('n'))
        t = e.get('t') or ''
        vk = e.get('vk')
        if vk not in ('local', 'param') or key[0] is None:
            return set()
        v = F.vars.get(key)
        if key in F.params:
            pid, i = F.params[key]
            pm = F.P.functions[pid]['p'][i]['pm']
            if HANDLE.search(t):
                return {('held',) + key}
            if pm in ('ref', 'cref', 'ptr', 'cptr', 'rref') or BUFFERISH.search(t) or t.endswith('*'):
                return {('given',) + key}
            return {('local',) + key}
        if v is None:
            return {('given',) + key}
        if HANDLE.search(t):
            return {('held',) + key}
        if v.get('st') or v.get('static'):
            return set()
        vt = v.get('t') or ''
        if vt.endswith('&') or vt.endswith('*') or BUFFERISH.search(vt) or (vt == 'auto'):
            return roots(F, v['i'], True, depth + 1) if v.get('i') is not None else set()
        return {('local',) + key}
    if k == 'call':
        n = short(e.get('qn') or '')
        out = set()
        if n in ('shared_from_this',):
            return {('this',)}
        if n in ('make_shared', 'size', 'length', 'available', 'getMaxFrameSize'):
            return set()
        if e.get('o') is not None:
            out |= roots(F, e['o'], True, depth + 1)
            if e.get('op') in ('*', '->', '[]') or not e.get('a'):
                return out
        for i, a in enumerate(e.get('a', ())):
            pm = (e.get('pm') or [])[i:i + 1]
            if a is None or not memoryish(a) or pm == ['val'] and not leads((strip(a) or {}).get('t') or ''):
                continue
            out |= roots(F, a, True, depth + 1)
        return out
    if k == 'un':
        return roots(F, e['e'], True, depth + 1)
    if k == 'bin':
        return roots(F, e.get('x') or e.get('l1') or {}, True, depth + 1)
    if k in ('ctor', 'init'):
        out = set()
        for a in e.get('a', ()):
            if a is not None and memoryish(a):
                out |= roots(F, a, True, depth + 1)
        return out
    if k == 'cond':
        return roots(F, e.get('x'), True, depth + 1) | roots(F, e.get('y'), True, depth + 1)
    if k == 'idx':
        return roots(F, e.get('b') or e.get('x') or {}, True, depth + 1)
    return set()


def leads(t):
    return t.endswith('*') or BUFFERISH.search(t) or HANDLE.search(t)


def memoryish(a):
    t = (strip(a) or {}).get('t') or ''
    return not re.match(r'^(const )?(unsigned |signed )?(int|long|short|char|bool|float|double|size_t|std::size_t|uint\d+_t|int\d+_t)( long)?( int)?$', t)


PLAIN = re.compile(r'endpoint|error_code|handshake_type|results_type|duration|time_point|query|socket_base|basic_string|char')


def operation(ctx, F, n, f, shared):
    name = short(n['qn'])
    args = list(n.get('a', ()))
    cs = []
    hi = None
    for i, a in enumerate(args):
        c = F.callables(a, f['id'])
        if c:
            cs, hi = c, i
    if name in ('post', 'dispatch', 'defer', 'async_wait'):
        objs = [n.get('o')] if name == 'async_wait' else []
    elif name == 'async_connect' or name == 'async_handshake' or name == 'async_shutdown' or name == 'async_resolve':
        objs = [n.get('o')]
    else:
        objs = [n.get('o')] + [a for i, a in enumerate(args) if i != hi]
    rs = set()
    for o in objs:
        if o is not None:
            t = (strip(o) or {}).get('t') or ''
            # an acceptor, timer or resolver that is destroyed ends its operation by itself and the handler is told
            plain = o is n.get('o') and re.search(r'basic_socket_acceptor|basic_waitable_timer|basic_deadline_timer|basic_resolver', t + n.get('qn', ''))
            rs |= {r for r in roots(F, o) if not (plain and r[0] == 'held')}
    line = n.get('l')
    if not cs or any(c[0] == 'param' for c in cs):
        carried, has_this = None, True      # a handler from elsewhere: judged where it is made
    else:
        carried, has_this = set(), False
        for c in cs:
            for m, nm, t, e, cap in F.carried(c[1]):
                sc = shared_class(t)
                if m == 'this' or sc and related(ctx.P, base_qn(sc), F.owner(f['id'])):
                    has_this = True
                if e is not None:
                    carried |= {r[1:] for r in roots(F, e) if r[0] in ('held', 'given', 'local')}
                    if e is not None and any(r[0] == 'this' for r in roots(F, e)):
                        has_this = True
    for r in sorted(rs, key=str):
        ctx.count('operands')
        if r[0] == 'local':
            vio(ctx, f, line, 'operand %s %s' % (name, r[2]), '%s works on %s, a variable of a frame that is gone when it completes' % (name, r[2]))
        elif r[0] == 'held' and carried is not None and r[1:] not in carried:
            vio(ctx, f, line, 'operand %s %s' % (name, r[2]), '%s works on what %s points to, which its handler does not keep alive' % (name, r[2]))
        elif r[0] == 'this' and F.owner(f['id']) in shared and not has_this:
            vio(ctx, f, line, 'operand %s this' % name, '%s works on a member of %s, which its handler does not keep alive' % (name, F.owner(f['id']).replace(NS, '')))
