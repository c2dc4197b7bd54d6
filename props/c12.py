"""C12: no exception leaves a completion handler or a control command."""
import re
from checklib import *
from tab import *
from c11 import Flow, walk, short, strip, BIND
from absint import STD_EXC
from c16 import TAGS, ARR, VEC, TAB, STR, I64, U64

EXPLANATION = (
    'Interprocedural may-throw analysis over the syntax trees: for every function the exceptions that can leave it (throw expressions, '
    'throwing overloads of the network library, conversions of text, checked accesses), through calls, virtual calls and callables passed along, less what the '
    'handlers of enclosing try blocks catch. Nothing may remain at a completion handler (found by the escape analysis of callables), a control command or a destructor. '
    'Checked accesses (optional::value, variant get, substr, at, to_v4) are discharged by path analysis: their precondition must be known on every path, '
    'in the function itself or in each of its calling contexts.')

ASIO = re.compile(r'^boost::(asio|beast)::')
THROWING = re.compile(r'^(close|shutdown|set_option|get_option|io_control|open|bind|assign|listen|connect|accept|remote_endpoint|local_endpoint|available|'
                      r'resolve|read_some|write_some|receive|receive_from|send|send_to|wait|handshake|non_blocking|native_non_blocking|make_address\w*|from_string|'
                      r'make_network_\w+|load_verify_file|add_verify_path|use_\w+|set_verify_\w+|set_default_verify_paths|set_options|'
                      r'clear_options|read|write|read_until|set_password_callback|add_certificate_authority|from_hex)$')
SYS = 'boost::system::system_error'


def excs(P, t):
    """an exception class and its bases"""
    out, todo = set(), [base_qn(t)]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        if c in STD_EXC:
            todo.append(STD_EXC[c])
        r = P.records.get(c)
        for b in (r or {}).get('bases', ()):
            todo.append(base_qn(b if isinstance(b, str) else b.get('qn') or b.get('t') or ''))
    return out


def bare(t):
    t = re.sub(r'\b(const|volatile|struct|class)\b', '', t or '').replace('&', '').strip()
    return base_qn(t)


class Throws:
    def __init__(self, ctx, flow):
        self.ctx, self.P, self.F = ctx, ctx.P, flow
        P = self.P
        self.over = flow.over
        self.ctors = {}
        for f in P.functions.values():
            if f.get('kind') == 'ctor':
                self.ctors.setdefault(base_qn(f.get('cl') or ''), []).append(f)
        self.deferred = set(flow.deferred)
        self.sum = {}
        self.cond = {}
        fs = [f for f in P.functions.values() if f.get('b') is not None and '/tests/' not in f['file']]
        self.fs = fs
        for f in fs:
            self.sum[f['id']] = {}
        n = 0
        changed = True
        while changed:
            changed = False
            n += 1
            for f in fs:
                new = self.body(f)
                old = self.sum[f['id']]
                if set(new) - set(old):
                    old.update({k: v for k, v in new.items() if k not in old})
                    changed = True
        ctx.count('rounds', n)

    # a summary maps (exception, site) -> the way there
    def body(self, f):
        self.f = f
        out = {}
        for i in f.get('inits') or ():
            out.update(self.x(i))
        out.update(self.x(f['b']))
        return out

    def caught(self, t, h):
        ht = h.get('t')
        if not ht or ht == '...':
            return True
        return bare(ht) in excs(self.P, t)

    def x(self, n):
        out = {}
        if isinstance(n, list):
            for y in n:
                out.update(self.x(y))
            return out
        if not isinstance(n, dict):
            return out
        if n.get('s') == 'try':
            inner = self.x(n['b'])
            for k, v in inner.items():
                for h in n.get('h', ()):
                    if self.caught(k[0], h):
                        if any(m.get('k') == 'throw' and not m.get('e') for m in walk(h['b'])):
                            out[k] = v
                        break
                else:
                    out[k] = v
            for h in n.get('h', ()):
                out.update(self.x(h['b']))
            return out
        k = n.get('k')
        if k == 'lambda':
            for c in n.get('caps', ()):
                out.update(self.x(c.get('i')))
            if id(n) not in self.deferred:
                for g in n.get('fns', ()):
                    self.via(out, g, n)
            return out
        for key, y in n.items():
            if isinstance(y, (dict, list)):
                out.update(self.x(y))
        if k == 'throw' and n.get('e'):
            self.add(out, bare(n.get('t')), 'throw', n)
        elif k in ('call', 'ctor', 'new'):
            self.call(out, n)
        return out

    def add(self, out, exc, what, n):
        if exc == 'std::bad_alloc':
            return
        out[(exc, (self.f['id'], n.get('l'), what))] = ()

    def via(self, out, fid, n):
        g = self.P.functions.get(fid)
        if g is None or fid not in self.sum:
            return
        for k, v in self.sum[fid].items():
            if k not in out:
                out[k] = ((self.f['id'], n.get('l')),) + v[:8]

    def call(self, out, n):
        qn = n.get('qn') or ''
        bqn = base_qn(qn)
        s = short(qn)
        a = [y for y in n.get('a', ()) if y is not None]
        if n['k'] in ('ctor', 'new'):
            cl = base_qn(n.get('cl') or '')
            if n.get('fn') in self.sum:
                self.via(out, n['fn'], n)
            elif n.get('cm') not in ('copy', 'move'):
                self.construct(out, cl, n.get('a', ()), n)
            return
        g = self.P.functions.get(n.get('fn'))
        if g:
            self.via(out, g['id'], n)
        if (not g or g.get('virt')) and qn.startswith(NS):
            for t in self.over.get((s, len(n.get('a', ()))), ()):
                self.via(out, t, n)
        if g or n.get('nx') or qn.startswith(NS):
            return
        if s in ('make_shared', 'make_unique', 'allocate_shared'):
            m = re.search(r'(?:shared_ptr|unique_ptr)<(?:const )?([\w:]+)', n.get('t') or '')
            if m:
                self.construct(out, base_qn(m.group(1)), n.get('a', ()), n)
            return
        if ASIO.match(bqn) and THROWING.match(s) and not re.search(r'timer', bqn):
            if not any(re.search(r'error_code', (strip(y) or {}).get('t') or '') for y in a) and not (s == 'make_address_v6' and len(a) == 2) and \
                    not (s in ('non_blocking', 'native_non_blocking') and not a):
                self.add(out, SYS, s, n)
        elif bqn == 'boost::asio::ip::host_name':
            if not a:
                self.add(out, SYS, s, n)
        elif bqn.endswith('address::to_v4') or bqn.endswith('address::to_v6'):
            self.maybe(out, 'boost::asio::ip::bad_address_cast', s, n)
        elif re.match(r'^std::sto(i|l|ul|ll|ull|f|d|ld)$', bqn):
            self.add(out, 'std::invalid_argument', s, n)
        elif bqn == 'boost::lexical_cast':
            if not re.search(r'basic_string|std::string', n.get('t') or ''):
                self.add(out, 'boost::bad_lexical_cast', s, n)
        elif s == 'at' and bqn.startswith('std::'):
            self.maybe(out, 'std::out_of_range', s, n)
        elif s == 'value' and re.match(r'^(std|boost)::optional', bqn):
            self.maybe(out, 'std::bad_optional_access', s, n)
        elif s == 'substr' and bqn.startswith('std::'):
            self.maybe(out, 'std::out_of_range', s, n)
        elif bqn in ('boost::get', 'std::get') and re.search(r'variant', (strip(a[0]) or {}).get('t') or '') and not (n.get('t') or '').endswith('*') if a else False:
            self.maybe(out, 'boost::bad_get' if bqn == 'boost::get' else 'std::bad_variant_access', s, n)
        elif s in ('stream_from', 'any_cast', 'get_value', 'read_json'):
            self.add(out, 'std::exception', s, n)

    def maybe(self, out, exc, what, n):
        self.cond[(self.f['id'], n.get('l'), what)] = n
        self.add(out, exc, what, n)

    def construct(self, out, cl, args, n):
        for f in self.ctors.get(cl, ()):
            if len(f['p']) == len(args) or len(args) < len(f['p']):
                self.via(out, f['id'], n)
        args = [y for y in args if y is not None]
        if re.search(r'asio::basic_(\w*_)?socket(_acceptor)?$|asio::basic_(stream|datagram|raw|seq_packet)_socket$|asio::basic_socket_acceptor$', cl) and len(args) >= 2 and \
                any(re.search(r'endpoint|protocol|::(tcp|udp)\b|stream_protocol', (strip(y) or {}).get('t') or '') for y in args[1:]):
            self.add(out, SYS, 'constructor of ' + short(cl), n)
        elif cl in ('std::basic_regex', 'boost::basic_regex') and args:
            self.add(out, 'std::regex_error', 'regex', n)



class Site(Cfg):
    """does a call meet its precondition on every path"""
    max_states = 1500

    def __init__(self, keep, key, kinds):
        self.keep, self.key, self.kinds = keep, key, kinds
        self.bad, self.seen = None, 0

    def inline(self, eng, fn):
        return fn['id'] in self.keep or size(fn) <= 50

    def on_call(self, eng, st, c):
        b = c.bqn
        if b == '__builtin_expect' and c.args:
            return [(st, c.args[0], None)]
        if re.match(r'^(std|boost)::optional', b) and c.name in ('operator=', 'emplace') and c.node.get('a') and c.recvloc:
            t = (strip(c.node['a'][0]) or {}).get('t') or ''
            if not re.search(r'optional|nullopt', t):
                return [(eng.store(st, c.recvloc, ('ptr', ('engaged', c.node.get('l')))), ('void',), c.recvloc)]
        if (c.fr.fn['id'], c.node.get('l'), short(c.qn)) == self.key:
            self.seen += 1
            if not self.safe(eng, st, c):
                self.bad = self.bad or (c.fr.fn['id'], c.node.get('l'))
        return None

    def safe(self, eng, st, c):
        n = short(c.qn)
        if n == 'value':
            if c.recv[0] in ('tok', 'int', 'str', 'ptr', 'mk', 'size', 'op', 'lin', 'clos'):
                return True     # given a value on this path
            at, p = eng.atom_truth(c.recv)
            r = eng.decide(st, at)
            return r is not None and r == p
        if n in ('to_v4', 'to_v6'):
            mine, other = 'is_' + n[3:], 'is_v6' if n == 'to_v4' else 'is_v4'
            q = lambda w: eng.decide(st, ('t', ('call', 'boost::asio::ip::address::' + w, c.recv, ())))
            return q(mine) is True or q(other) is False
        if n == 'substr':
            pos = c.args[0] if c.args else ('int', 0)
            if num(pos) == 0:
                return True
            if eng.decide(st, ('<', pos, ('size', c.recv))) is True or eng.decide(st, ('<', ('size', c.recv), pos)) is False:
                return True
            base = pos
            if pos[0] == 'op' and len(pos) == 4 and pos[1] == '+' and (num(pos[3]) == 1 or num(pos[2]) == 1):
                base = pos[2] if num(pos[3]) == 1 else pos[3]
            return base[0] == 'call' and re.search(r'::(r?find|find_\w+)$', base[1]) is not None and base[2] == c.recv and \
                eng.decide(st, ('==', ('int', -1), base)) is False
        if n == 'at':
            if c.args and eng.decide(st, ('has', c.recv, c.args[0])) is True:
                return True
            return bool(c.args) and eng.decide(st, ('<', c.args[0], ('size', c.recv))) is True
        if n == 'get':
            loc = c.locs[0] if c.locs else None
            if loc is None or loc[0] != 'fld':
                return False
            tag = eng.load(st, ('fld', loc[1], self.kinds['tag']))
            tags = [num(tag)] if num(tag) is not None else [num(a[1]) for a, v in st.facts.items() if v is True and a[0] == '==' and a[2] == tag and num(a[1]) is not None]
            want = kind(c.node.get('t') or '')
            return want is not None and any(0 < t < 128 and TAGS.get(chr(t), (None,))[0] == want for t in tags)
        return False


def kind(t):
    if 'vector' in t:
        return ARR if 'FieldValue' in t else VEC
    if 'FieldTable' in t:
        return TAB
    if 'basic_string' in t or 'std::string' in t:
        return STR
    t = t.replace('const', '').replace('&', '').strip()
    return {'bool': 'bool', 'long': I64, 'unsigned long': U64, 'int64_t': I64, 'uint64_t': U64, 'long long': I64, 'unsigned long long': U64}.get(t)


def size(fn, memo={}):
    r = memo.get(fn['id'])
    if r is None:
        r = memo[fn['id']] = sum(1 for m in walk([fn.get('b'), fn.get('inits')]) if 'k' in m or 's' in m)
    return r


def discharge(ctx, T, key, k, callers, ent, kinds):
    """the site cannot throw: on its own, or in every context it is used from"""
    todo = [(key[0], frozenset([key[0]]))]
    seen = set()
    while todo:
        fid, keep = todo.pop()
        if fid in seen:
            continue
        seen.add(fid)
        f = ctx.P.functions[fid]
        cfg = Site(keep, key, kinds)
        E = Engine(ctx.P, cfg)
        try:
            E.run(f)
        except Overflow:
            cfg.bad = ('overflow', 0)
        ctx.functions |= E.analysed
        if not cfg.bad:
            ctx.count('contexts_shown' if cfg.seen else 'contexts_not_reached')
            continue
        if fid in ent or len(keep) > 4:
            return fid
        cs = [c for c in callers.get(fid, ()) if k in T.sum.get(c, {})]
        if not cs:
            return fid
        for c in cs:
            todo.append((c, keep | {c}))
    return None



def entries(ctx, F):
    """functions that an event loop or the language calls with no handler around them"""
    P = ctx.P
    ent = {}
    for node, fid, via in F.deferred.values():
        if node['k'] == 'lambda':
            for g in node.get('fns', ()):
                ent[g] = 'completion handler'
        else:
            for m in walk(node.get('a')):
                if m.get('k') in ('mfn', 'fref'):
                    ctx.require(m.get('fn') in P.functions, 'target of a bind in %s' % P.functions[fid]['qn'])
                    ent[m['fn']] = 'completion handler'
                    ent.update({t: 'completion handler' for t in F.over.get((short(P.functions[m['fn']]['qn']), len(P.functions[m['fn']]['p'])), ())
                                if P.functions[m['fn']].get('virt')})
    for f in P.functions.values():
        if '/tests/' in f['file'] or not f.get('b'):
            continue
        if short(f['qn']) == 'handleCommand' and f.get('virt'):
            ent[f['id']] = 'control command'
        elif f.get('kind') == 'dtor':
            ent[f['id']] = 'destructor'
    return ent


def tags(ctx):
    """every field value made with a constant tag holds the kind of value that tag stands for; -> the member with the tag"""
    fs = ctx.fns('FieldValue::type')
    names = {m['f'] for f in fs for m in walk(f.get('b')) if m.get('k') == 'mem'}
    ctx.require(len(names) == 1, 'the type member of FieldValue')
    for f in ctx.P.functions.values():
        if '/tests/' in f['file'] or not f.get('b'):
            continue
        for m in walk([f['b'], f.get('inits')]):
            if m.get('k') == 'ctor' and base_qn(m.get('cl') or '') == NS + 'FieldValue' and len(m.get('a', ())) == 2 and m.get('fn') in ctx.P.functions:
                a = strip(m['a'][0])
                t = a.get('v') if a.get('k') in ('int', 'chr', 'char') else None
                if t is None:
                    continue
                t = chr(t) if isinstance(t, int) else t
                want = kind(ctx.P.functions[m['fn']]['p'][1]['t'])
                ctx.count('field_values_made')
                if t not in TAGS or TAGS[t][0] not in (want, None):
                    ctx.violation('FieldValue|%s' % base_qn(f['qn']), 'a field value is made with tag %r and a %s; reading it as its tag says throws' % (t, want), where='%s:%s' % (f['file'], m.get('l')))
    return names.pop()


def where(P, fid, l):
    f = P.functions[fid]
    return '%s:%s %s' % (f['file'].split('/')[-1], l, re.sub(r'\(anonymous class\)', 'lambda', f['qn'].replace(NS, ''))[:90])


def run(ctx):
    P = ctx.P
    ctx.rule('no exception other than std::bad_alloc can leave a completion handler, a control command or a destructor')
    ctx.rule('network calls without an error_code argument throw boost::system::system_error; text conversions and checked accesses throw unless their precondition is established on the path')
    ctx.assume('allocation failure is not considered; library calls outside the table of throwing operations do not throw')
    F = Flow(ctx)
    T = Throws(ctx, F)
    ent = entries(ctx, F)
    kinds = {'tag': tags(ctx)}
    n = [e for e, w in ent.items() if w == 'control command']
    ctx.require(len(n) >= 14, 'control commands')
    ctx.require(sum(w == 'completion handler' for w in ent.values()) >= 25, 'completion handlers')
    callers = {}
    for f in T.fs:
        for m in walk([f['b'], f.get('inits')]):
            if m.get('k') == 'lambda':
                for g in m.get('fns', ()):
                    callers.setdefault(g, set()).add(f['id'])
            if m.get('fn') in P.functions:
                callers.setdefault(m['fn'], set()).add(f['id'])
    rep = {}
    for e, nm in ent.items():
        ctx.count(nm.replace(' ', '_') + 's')
        for k, v in T.sum.get(e, {}).items():
            rep.setdefault(k, []).append((e, nm, v))
    ctx.count('throwing_sites', len({k for s in T.sum.values() for k in s}))
    for k, v in sorted(rep.items(), key=str):
        exc, (fid, line, what) = k
        if k[1] in T.cond:
            ctx.count('conditional_sites')
            if discharge(ctx, T, k[1], k, callers, ent, kinds) is None:
                continue
        e, nm, path = min(v, key=lambda x: len(x[2]))
        f = P.functions[fid]
        ctx.violation('%s|%s|%s' % (base_qn(f['qn']), what, exc), '%s (%s) can leave the %s %s' % (exc, what, nm, where(P, e, P.functions[e]['l'])),
                      where='%s:%s %s' % (f['file'].replace(REPO + '/', ''), line, f['qn'].replace(NS, '')[:80]), path=[where(P, a, l) for a, l in path])
    ctx.functions |= set(ent)
    ctx.functions |= {f['id'] for f in T.fs}
