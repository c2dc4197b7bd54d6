"""Interprocedural abstract interpreter over the resolved syntax trees.

Domain: a set of abstract states, each a (memory, facts, typestate) triple.
 * memory maps locations to value numbers (terms);
 * facts are the branch outcomes (atoms over value numbers) the analysis tracks,
   with linear-inequality entailment when `cfg.linear` is set;
 * the typestate (`tr`, a tuple of events, and `ts`, any hashable) is what a
   property reads.
Calls to functions defined in the repository are analysed in their calling
context (inlined), closures are tracked as values and analysed where they are
invoked, loop bodies are analysed from a head state in which everything the
body can change has been forgotten (widened), so one generic iteration stands
for every iteration.  Nothing is executed and no solver is called.
"""
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class Overflow(Exception):
    pass


_bq = {}


def base_qn(q):
    """Qualified name without template arguments."""
    r = _bq.get(q)
    if r is not None:
        return r
    out, d, i = [], 0, 0
    s = q
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('operator', i) and d == 0:
            j = i + 8
            m = re.match(r'(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>|\(\))', s[j:])
            out.append('operator')
            i = j
            if m:
                # operator<...> with template args: "operator<<" handled first
                out.append(m.group(1))
                i += len(m.group(1))
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    _bq[q] = r
    return r


class St:
    __slots__ = ('mem', 'facts', 'tr', 'occ', 'ep', 'ts')

    def __init__(self):
        self.mem, self.facts, self.tr, self.occ, self.ep, self.ts = {}, {}, (), {}, 0, ()

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.tr, s.ts, s.ep = self.tr, self.ts, self.ep
        s.occ = dict(self.occ)
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()),
                self.tr, self.ts, self.ep, frozenset(self.occ.items()))

    def emit(self, *ev):
        s = self.copy()
        s.tr = s.tr + (tuple(ev),)
        return s


def dedupe(states):
    if len(states) < 2:
        return states
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def dedupe_pairs(pairs):
    if len(pairs) < 2:
        return pairs
    seen, out = set(), []
    for p in pairs:
        k = (p[0].key(),) + tuple(p[1:])
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out


class Frame:
    __slots__ = ('fn', 'fid', 'this', 'stack', 'caps', 'depth', 'parent')

    def __init__(self, fn, fid, this, stack, depth, parent=None):
        self.fn, self.fid, self.this, self.stack, self.depth = fn, fid, this, stack, depth
        self.caps = {}
        self.parent = parent


class Cfg:
    """Analysis configuration; properties override what they need."""
    heap_events = False
    linear = False
    loop_iters = 2
    distinct = False     # with unroll > 1: the elements of a range-based for are different ones on each turn
    loop_events = False  # emit ('iter', element) on each turn of a range-based for
    unroll = 0          # > 0: loops are followed this many times from the state they are entered in; longer runs are cut (and counted)
    max_states = 6000
    max_depth = 40
    track_locks = False

    def inline(self, eng, fn):
        return True

    def track(self, atom):
        return True

    def on_call(self, eng, st, call):
        """-> None (default treatment) or list of (st, val, loc)"""
        return None

    def after_call(self, eng, st, call, val):
        return None

    def on_store(self, eng, st, loc, val, node, fr):
        return st

    def on_load(self, eng, st, loc, node, fr):
        pass

    def after_havoc(self, eng, st, keys):
        return st

    def on_erase(self, eng, st, call, container, key):
        return st

    def invariants(self, eng, st, facts, goal):
        """further facts, about the terms that occur (linear mode)"""
        return []

    def loop_candidates(self, eng, h, head, changed):
        """candidate loop invariants (linear mode): (function of a state giving a term that must be >= 0, atoms to assume)"""
        return []

    def loop_enter(self, eng, h, head, changed, node):
        pass

    def iter_end(self, eng, head, ends, node):
        """states at the end of one generic loop iteration that started in head"""

    def on_dtor(self, eng, st, cls, loc, node, fr):
        return None

    def reduce_trace(self, tr):
        return tr

    def volatile(self, bqn):
        return False

    def may_throw(self, eng, st, call):
        return ()


class Call:
    __slots__ = ('node', 'qn', 'bqn', 'fn', 'recv', 'recvloc', 'args', 'locs', 'fr', 'name', 'line', 'virt')


def climb(loc, key):
    """relative field path of key under loc, or None"""
    path = []
    k = key
    while True:
        if k == loc:
            return tuple(reversed(path))
        if k[0] == 'fld':
            path.append(k[2])
            k = k[1]
        else:
            return None


def root_of(loc):
    while loc[0] in ('fld', 'elem', 'mat', 'deref', 'ptr', 'ld', 'getf'):
        if loc[0] in ('fld', 'elem', 'mat', 'deref', 'ptr', 'ld', 'getf'):
            nxt = loc[1]
            if not isinstance(nxt, tuple):
                return loc
            loc = nxt
    return loc


STD_EXC = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
    'std::bad_alloc': 'std::exception', 'std::out_of_range': 'std::logic_error',
    'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
    'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error',
    'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
    'std::system_error': 'std::runtime_error', 'boost::system::system_error': 'std::system_error',
    'std::bad_cast': 'std::exception', 'boost::bad_get': 'std::exception',
    'boost::bad_lexical_cast': 'std::bad_cast', 'std::bad_optional_access': 'std::exception',
    'std::bad_function_call': 'std::exception', 'std::bad_weak_ptr': 'std::exception',
    'std::regex_error': 'std::runtime_error', 'std::ios_base::failure': 'std::system_error',
}


class Engine:
    def __init__(self, P, cfg):
        self.P, self.cfg = P, cfg
        self.ranges = {}
        self.lin = LinDomain(self.ranges)
        self.sinks = []
        self.quiet = 0
        self.fids = {}
        self.nstates = 0
        self.analysed = set()      # functions walked
        self.unknown = {}          # constructs with no precise semantics
        self.overriders = {}
        for f in P.functions.values():
            for o in f.get('ov', ()):
                self.overriders.setdefault(o, []).append(f['id'])
        self.by_qn = {}
        for f in P.functions.values():
            self.by_qn.setdefault(base_qn(f['qn']), []).append(f)

    # -- helpers --------------------------------------------------------------
    def fid(self, key):
        return self.fids.setdefault(key, len(self.fids) + 1)

    def find(self, qn):
        r = self.by_qn.get(qn) or self.by_qn.get('Bloomberg::amqpprox::' + qn) or []
        return r

    def is_a(self, t, base):
        t = t.replace('const ', '').strip()
        base = base.replace('const ', '').strip()
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            r = self.P.records.get(x)
            if r:
                todo.extend(r.get('bases', ()))
            if x in STD_EXC:
                todo.append(STD_EXC[x])
        return False

    def set_range(self, v, node):
        w = node.get('w') if node else None
        if w and v[0] not in ('int', 'enum', 'lin') and v not in self.ranges:
            if node.get('sg'):
                self.ranges[v] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            else:
                self.ranges[v] = (0, (1 << w) - 1)

    # -- memory -----------------------------------------------------------------
    def load(self, st, loc):
        mem = st.mem
        kids = None
        for k in mem:
            if k[0] == 'fld' and k is not loc:
                p = climb(loc, k)
                if p:
                    if kids is None:
                        kids = []
                    kids.append((p, mem[k]))
        base = mem.get(loc)
        if base is None:
            base = self._derived(st, loc)
        if kids:
            if base[0] == 'rec':
                d = dict(base[2])
                d.update(kids)
                base, kids = base[1], list(d.items())
            return ('rec', base, tuple(sorted(kids, key=repr)))
        return base

    def _derived(self, st, loc):
        path = []
        k = loc
        while k[0] == 'fld':
            path.append(k[2])
            k = k[1]
            v = st.mem.get(k)
            if v is None and k[0] == 'valof':
                v = k[1]
            if v is not None:
                for f in reversed(path):
                    v = self.getf(v, f)
                return v
        if loc[0] == 'glob':
            g = self.P.globals.get(loc[1])
            if g and g.get('const') and g.get('i') and g['i'].get('k') in ('str', 'int', 'enum'):
                return self.const_of(g['i'])
            if g and g.get('const') and g.get('i'):
                i = g['i']
                while i.get('k') == 'ctor' and i.get('a'):
                    i = i['a'][0]
                if i.get('k') == 'str':
                    return self.const_of(i)
        if loc[0] == 'valof':
            return loc[1]
        return ('ld', loc, st.ep)

    def getf(self, v, f):
        if v[0] == 'ld':
            return ('ld', ('fld', v[1], f), v[2])
        if v[0] == 'rec':
            sub = []
            base = None
            for p, x in v[2]:
                if p[0] == f:
                    if len(p) == 1:
                        base = x
                    else:
                        sub.append((p[1:], x))
            if base is None:
                base = self.getf(v[1], f)
            if sub:
                return ('rec', base, tuple(sub))
            return base
        if v[0] == 'mk' and v[1] == 'std::tuple' and f.startswith('get<') and f[4:-1].isdigit() and int(f[4:-1]) < len(v[2]):
            return v[2][int(f[4:-1])]
        return ('getf', v, f)

    def store(self, st, loc, val, node=None, fr=None):
        st = st.copy()
        mem = st.mem
        dead = [k for k in mem if k[0] == 'fld' and climb(loc, k)]
        for k in dead:
            del mem[k]
        if val[0] == 'rec':
            mem[loc] = val[1]
            for p, x in val[2]:
                k = loc
                for f in p:
                    k = ('fld', k, f)
                mem[k] = x
        else:
            mem[loc] = val
        return self.cfg.on_store(self, st, loc, val, node, fr)

    def havoc(self, st, loc, tag):
        st = st.copy()
        mem = st.mem
        keys = []
        for k in [k for k in mem if k[0] == 'fld' and climb(loc, k)]:
            del mem[k]
            keys.append(k)
        mem[loc] = ('hv', tag, loc)
        return self.cfg.after_havoc(self, st, keys + [loc])

    def site(self, st, fr, node):
        """unique tag for one evaluation of a call site on this path"""
        k = (fr.fid, node.get('l'), node.get('c', 0), node.get('k'))
        if isinstance(k[2], dict):
            k = (k[0], k[1], 0, k[3])
        n = st.occ.get(k, 0)
        s = st.copy()
        s.occ[k] = n + 1
        return s, (self.fid(k), n)

    # -- constants --------------------------------------------------------------
    def const_of(self, e):
        k = e['k']
        if k == 'int':
            v = e['v']
            if v < 0 and e.get('w') and not e.get('sg', True):
                v += 1 << e['w']
            return ('int', v)
        if k == 'enum':
            return ('enum', e['n'], e['v'])
        if k == 'str':
            return ('str', e['v'])
        if k == 'null':
            return NULL
        return None

    # -- atoms ---------------------------------------------------------------
    def norm(self, v):
        return v

    def atom_eq(self, a, b):
        """-> (atom or bool, polarity)"""
        if a[0] == 'ptr' and a[1][0] == 'deref':
            a = a[1][1]
        if b[0] == 'ptr' and b[1][0] == 'deref':
            b = b[1][1]
        if a == b and a[0] not in ('flt',):
            return True, True
        if is_const(b) and not is_const(a):
            a, b = b, a
        # now a is the constant one, if any
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return na == nb, True
        if a[0] == 'str' and b[0] == 'str':
            return a[1] == b[1], True
        if a[0] == 'null':
            if b[0] in ('ptr', 'clos', 'fn', 'pbind'):
                return False, True
            if b[0] == 'null':
                return True, True
            if b[0] == 'int':
                return b[1] == 0, True
            return ('t', b), False
        if a[0] == 'int' and b[0] == 'null':
            return a[1] == 0, True
        if a[0] == 'int' and a[1] == 0:
            if b[0] == 'count':
                return ('has', b[1], b[2]), False
            if b[0] == 'size':
                return ('empty', b[1]), True
            if b[0] == 'ecv':
                return ('t', b[1]), False
            return ('t', b), False
        for x, y in ((a, b), (b, a)):
            if x == ('mk', 'boost::system::error_code', ()):
                return ('t', y), False
        if a[0] == 'str' and a[1] == '':
            return ('empty', b), True
        if a[0] == 'int' and a[1] == 1 and b[0] == 'boolv':
            return ('t', b), True
        # iterator comparisons
        for x, y in ((a, b), (b, a)):
            if y[0] == 'end':
                if x[0] == 'find' and x[1] == y[1]:
                    return ('has', x[1], x[2]), False
                if x[0] == 'begin' and x[1] == y[1]:
                    return ('empty', x[1]), True
        if repr(a) > repr(b) and not is_const(a):
            a, b = b, a
        elif is_const(b) and not is_const(a):
            a, b = b, a
        return ('==', a, b), True

    def atom_lt(self, a, b):
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return na < nb, True
        if a == b:
            return False, True
        if na == 0 and self.unsigned(b):
            r, p = self.atom_eq(a, b)
            return r, not p
        if nb == 1 and self.unsigned(a):
            return self.atom_eq(('int', 0), a)
        if nb == 0 and self.unsigned(a):
            return False, True
        return ('<', a, b), True

    def unsigned(self, v):
        if v[0] in ('size', 'count'):
            return True
        r = self.ranges.get(v)
        return bool(r and r[0] is not None and r[0] >= 0)

    def atom_truth(self, v):
        n = num(v)
        if n is not None:
            return n != 0, True
        if v[0] == 'null':
            return False, True
        if v[0] in ('ptr', 'clos', 'fn', 'pbind', 'str'):
            return True, True
        if v[0] == 'not':
            a, p = self.atom_truth(v[1])
            return a, (not p)
        if v[0] == 'cmp':
            return v[1], v[2]
        if v[0] == 'isempty':
            return ('empty', v[1]), True
        if v[0] == 'count':
            return ('has', v[1], v[2]), True
        if v[0] == 'size':
            return ('empty', v[1]), False
        return ('t', v), True

    def decide(self, st, atom):
        if isinstance(atom, bool):
            return atom
        f = st.facts.get(atom)
        if f is not None:
            return f
        if atom[0] == '==':
            c, x = atom[1], atom[2]
            if is_const(c):
                for (a, val) in st.facts.items():
                    if val and a[0] == '==' and a[2] == x and is_const(a[1]) and a[1] != c:
                        if num(a[1]) is not None and num(c) is not None and num(a[1]) == num(c):
                            return True
                        return False
                    if val is False and a[0] == '==' and a[2] == x and is_num(a[1]) and num(a[1]) is not None and num(a[1]) == num(c):
                        return False
                    if a[0] == 't' and a[1] == x and val is not None:
                        if not val and num(c) not in (0, None):
                            return False
                        if num(c) == 0:
                            return not val
                    if val and a[0] == 'empty' and a[1] == x and c[0] == 'str' and c[1]:
                        return False
        if atom[0] == 'empty':
            for (a, val) in st.facts.items():
                if val and a[0] == '==' and a[2] == atom[1] and a[1][0] == 'str' and a[1][1]:
                    return False
        if atom[0] == 't':
            for (a, val) in st.facts.items():
                if val and a[0] == '==' and a[2] == atom[1] and num(a[1]) is not None:
                    return num(a[1]) != 0
        if self.cfg.linear and atom[0] in ('<', '==', 't'):
            r = self.lin_decide(st, atom)
            if r is not None:
                return r
        return None

    def linfacts(self, st):
        out = []
        for a, v in st.facts.items():
            if a[0] == 't':
                x = a[1]
                if not v:
                    out.append((('==', ('int', 0), x), True))
                else:
                    r = self.ranges.get(x)
                    if r and r[0] == 0:
                        out.append((('<', ('int', 0), x), True))
                    elif x[0] == 'lin' and self.lin.entails(
                            [f for f in st.facts.items() if f[0][0] in ('<', '==')], x):
                        out.append((('<', ('int', 0), x), True))
            elif a[0] in ('<', '=='):
                out.append((a, v))
        return out

    def entails(self, st, term, extra=()):
        """linear facts imply term >= 0"""
        f = self.linfacts(st)
        return self.lin.entails(f + self.cfg.invariants(self, st, f, term), term, extra)

    def lin_decide(self, st, atom):
        if atom[0] == '<':
            d = lin_add(atom[2], atom[1], -1)       # b - a
            if self.entails(st, lin_add(d, ('int', -1))):
                return True
            if self.entails(st, lin_add(('int', 0), d, -1)):
                return False
        elif atom[0] == '==' and all(x[0] not in ('str', 'null') for x in atom[1:]):
            d = lin_add(atom[2], atom[1], -1)
            if self.entails(st, lin_add(d, ('int', -1))):
                return False
            nd = lin_add(('int', 0), d, -1)
            if self.entails(st, lin_add(nd, ('int', -1))):
                return False
        elif atom[0] == 't' and (atom[1][0] == 'lin' or atom[1] in self.ranges):
            x = atom[1]
            if self.entails(st, lin_add(x, ('int', -1))):
                return True
        return None

    def split(self, st, atom, pol):
        """-> (states where condition true, states where false)"""
        d = self.decide(st, atom)
        if d is not None:
            if d == pol:
                return [st], []
            return [], [st]
        t = self.assume(st, atom, pol)
        f = self.assume(st, atom, not pol)
        return ([t] if t else []), ([f] if f else [])

    def assume(self, st, atom, val):
        if not self.cfg.track(atom):
            return st
        s = st.copy()
        s.facts[atom] = val
        return s

    # -- branching ----------------------------------------------------------------
    def br(self, e, st, fr):
        k = e['k']
        if k == 'un' and e['op'] == '!':
            t, f = self.br(e['e'], st, fr)
            return f, t
        if k == 'bin' and e['op'] == '&&':
            T, F = [], []
            t, f = self.br(e['x'], st, fr)
            F += f
            for s in t:
                t2, f2 = self.br(e['y'], s, fr)
                T += t2
                F += f2
            return dedupe(T), dedupe(F)
        if k == 'bin' and e['op'] == '||':
            T, F = [], []
            t, f = self.br(e['x'], st, fr)
            T += t
            for s in f:
                t2, f2 = self.br(e['y'], s, fr)
                T += t2
                F += f2
            return dedupe(T), dedupe(F)
        if k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>='):
            return self.br_cmp(e['op'], e['x'], e['y'], st, fr, e)
        if k == 'call' and e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and \
                not self.P.functions.get(e.get('fn')):
            ops = ([e['o']] if e.get('o') else []) + e['a']
            if len(ops) == 2:
                return self.br_cmp(e['op'], ops[0], ops[1], st, fr, e)
        if k == 'call' and e.get('op') == '!':
            ops = ([e['o']] if e.get('o') else []) + e['a']
            T, F = [], []
            for s, v in self.ev(ops[0], st, fr):
                a, p = self.atom_truth(v)
                t, f = self.split(s, a, p)
                T += f
                F += t
            return T, F
        if k in ('icast', 'cast') and e.get('e'):
            pass
        T, F = [], []
        for s, v in self.ev(e, st, fr):
            a, p = self.atom_truth(v)
            t, f = self.split(s, a, p)
            T += t
            F += f
        return dedupe(T), dedupe(F)

    def br_cmp(self, op, x, y, st, fr, node):
        T, F = [], []
        for s, a in self.ev(x, st, fr):
            for s2, b in self.ev(y, s, fr):
                if op in ('==', '!='):
                    at, p = self.atom_eq(a, b)
                    if op == '!=':
                        p = not p
                elif op == '<':
                    at, p = self.atom_lt(a, b)
                elif op == '>':
                    at, p = self.atom_lt(b, a)
                elif op == '<=':
                    at, p = self.atom_lt(b, a)
                    p = not p
                else:
                    at, p = self.atom_lt(a, b)
                    p = not p
                t, f = self.split(s2, at, p)
                T += t
                F += f
        return dedupe(T), dedupe(F)

    # -- lvalues ----------------------------------------------------------------
    def var_loc(self, e, fr, st):
        d = e['d']
        if e.get('vk') in ('global', 'slocal'):
            return ('glob', e['qn'])
        f = fr
        while f is not None:
            a = st.mem.get(('alias', d, f.fid))
            if a is not None:
                return a
            if d in f.caps:
                return f.caps[d]
            # structured bindings and lambdas share the enclosing frame's names
            f = None
        return ('var', d, fr.fid)

    def is_lv(self, e):
        k = e['k']
        if k in ('ref', 'mem', 'idx'):
            return True
        if k == 'un' and e['op'] == '*':
            return True
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            return True
        if k == 'asg':
            return True
        if k == 'call':
            return e.get('t', '').endswith('&') or self._call_is_ref(e)
        if k == 'cond':
            return self.is_lv(e['x']) and self.is_lv(e['y'])
        if k == 'cast':
            return False
        return False

    def _call_is_ref(self, e):
        # CallExpr types drop the reference: look at the callee instead
        fn = self.P.functions.get(e.get('fn'))
        if fn:
            return fn['rt'].endswith('&')
        b = base_qn(e.get('qn', ''))
        n = b.rsplit('::', 1)[-1]
        return n in ('operator[]', 'at', 'operator*', 'front', 'back', 'value', 'move', 'forward',
                     'get', 'operator=', 'operator<<', 'operator>>', 'body', 'first', 'emplace_back',
                     'ref', 'cref', 'emplace', 'lowest_layer', 'next_layer', 'operator+=', 'append')

    def lval(self, e, st, fr):
        k = e['k']
        if k == 'ref':
            return [(st, self.var_loc(e, fr, st))]
        if k == 'mem':
            out = []
            if e.get('ar'):
                for s, v in self.ev(e['b'], st, fr):
                    out.append((s, self.fldloc(self.deref(s, v), e['f'])))
            else:
                for s, l in self.lval(e['b'], st, fr):
                    out.append((s, self.fldloc(l, e['f'])))
            return out
        if k == 'un' and e['op'] == '*':
            return [(s, self.deref(s, v)) for s, v in self.ev(e['e'], st, fr)]
        if k == 'un' and e['op'] in ('++', '--'):
            out = []
            for s, l in self.lval(e['e'], st, fr):
                for s2, _ in self.incdec(e, s, l, fr):
                    out.append((s2, l))
            return out
        if k == 'idx':
            out = []
            for s, b in self.ev(e['b'], st, fr):
                for s2, i in self.ev(e['i'], s, fr):
                    bl = self.deref(s2, b) if b[0] == 'ptr' else ('deref', b)
                    if self.is_lv(e['b']) and b[0] != 'ptr':
                        for s3, l in self.lval(e['b'], s2, fr):
                            out.append((s3, ('elem', l, i)))
                    else:
                        out.append((s2, ('elem', bl, i)))
            return out
        if k == 'asg':
            return [(s, l) for s, v, l in self.assign(e, st, fr)]
        if k == 'cond':
            out = []
            t, f = self.br(e['c'], st, fr)
            for s in t:
                out += self.lval(e['x'], s, fr)
            for s in f:
                out += self.lval(e['y'], s, fr)
            return out
        if k in ('cast', 'icast') and e.get('e'):
            return self.lval(e['e'], st, fr)
        if k == 'call':
            out = []
            for s, v, l in self.callx(e, st, fr):
                if l is None:
                    l = self.tmploc(v)
                out.append((s, l))
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            s2, l = self.mktemp(s, v, fr, e)
            out.append((s2, l))
        return out

    def mktemp(self, st, v, fr, node):
        if v[0] in ('rec', 'mk', 'newobj'):
            st, tag = self.site(st, fr, node)
            l = ('tmp', tag)
            return self.store_raw(st, l, v), l
        return st, self.tmploc(v)

    def store_raw(self, st, loc, val):
        st = st.copy()
        if val[0] == 'rec':
            st.mem[loc] = val[1]
            for p, x in val[2]:
                k = loc
                for f in p:
                    k = ('fld', k, f)
                st.mem[k] = x
        else:
            st.mem[loc] = val
        return st

    def tmploc(self, v):
        if v[0] == 'ld':
            return v[1]
        return ('valof', v)

    def fldloc(self, l, f):
        # it->second of m.find(k) is m.at(k)
        if l[0] == 'deref' and l[1][0] == 'find' and f == 'second':
            return ('mat', l[1][1], l[1][2])
        if l[0] == 'valof' and l[1][0] == 'ld':
            return ('fld', l[1][1], f)
        return ('fld', l, f)

    def deref(self, st, v):
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'begin':
            return ('elem', v[1], 'first')
        if v[0] == 'iter':
            return ('elem', v[1], v[2])
        return ('deref', v)

    # -- rvalues -------------------------------------------------------------------
    def ev(self, e, st, fr):
        k = e['k']
        c = self.const_of(e) if k in ('int', 'enum', 'str', 'null') else None
        if c is not None:
            return [(st, c)]
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            self.unknown[k] = self.unknown.get(k, 0) + 1
            return [(st, ('unk', k, e.get('l')))]
        return m(e, st, fr)

    def ev_flt(self, e, st, fr):
        return [(st, ('flt', e['v']))]

    def ev_this(self, e, st, fr):
        return [(st, fr.this if fr.this is not None else ('ptr', ('obj', 'this')))]

    def ev_ref(self, e, st, fr):
        if 'v' in e and e.get('vk') in ('global', 'slocal'):
            return [(st, ('int', e['v']))]
        l = self.var_loc(e, fr, st)
        v = self.load(st, l)
        self.set_range(v, e)
        self.cfg.on_load(self, st, l, e, fr)
        return [(st, v)]

    def ev_fref(self, e, st, fr):
        return [(st, ('fn', e['fn'], e['qn']))]

    def ev_mem(self, e, st, fr):
        out = []
        for s, l in self.lval(e, st, fr):
            v = self.load(s, l)
            self.set_range(v, e)
            self.cfg.on_load(self, s, l, e, fr)
            out.append((s, v))
        return out

    def ev_mfn(self, e, st, fr):
        return [(st, ('unk', 'mfn', e.get('n')))]

    def ev_idx(self, e, st, fr):
        out = []
        for s, l in self.lval(e, st, fr):
            out.append((s, self.load(s, l)))
        return out

    def ev_call(self, e, st, fr):
        if e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and not self.P.functions.get(e.get('fn')) and \
                len(e['a']) + (1 if e.get('o') else 0) == 2:
            t, f = self.br(e, st, fr)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        return [(s, v) for s, v, l in self.callx(e, st, fr)]

    def ev_dep(self, e, st, fr):
        return [(st, ('unk', 'dep', e.get('l')))]

    def ev_stmtexpr(self, e, st, fr):
        o = self.ex(e['s'], st, fr)
        return [(s, ('unk', 'stmtexpr')) for s in o['n']]

    def ev_other(self, e, st, fr):
        sts = [st]
        for a in e.get('a', ()):
            nx = []
            for s in sts:
                nx += [s2 for s2, _ in self.ev(a, s, fr)]
            sts = nx
        self.unknown[e.get('sc')] = self.unknown.get(e.get('sc'), 0) + 1
        return [(s, ('unk', e.get('sc'), e.get('l'))) for s in sts]

    def ev_delete(self, e, st, fr):
        return [(s.emit('delete', v, bool(e.get('arr'))) if self.cfg.heap_events else s, ('unk', 'delete')) for s, v in self.ev(e['e'], st, fr)]

    def ev_new(self, e, st, fr):
        st, tag = self.site(st, fr, e)
        loc = ('heap', tag)
        out = []
        if self.cfg.heap_events and e.get('n'):
            return [(s.emit('new[]', ('ptr', loc), v), ('ptr', loc)) for s, v in self.ev(e['n'], st, fr)]
        if e.get('i'):
            for s, v in self.ev(e['i'], st, fr):
                out.append((self.store_raw(s, loc, v), ('ptr', loc)))
        else:
            out = [(st, ('ptr', loc))]
        return out

    def ev_throw(self, e, st, fr):
        if e.get('e'):
            for s, v in self.ev(e['e'], st, fr):
                self.throw(s, e.get('t', '?'), v, e, fr)
        else:
            self.throw(st, '<rethrow>', ('unk', 'rethrow'), e, fr)
        return []

    def throw(self, st, t, v, node, fr):
        if self.sinks:
            self.sinks[-1].append((st, t, v, (fr.fn['qn'], fr.fn['file'], node.get('l'))))

    def ev_lambda(self, e, st, fr):
        caps = []
        this = None
        states = [(st, ())]
        for c in e['caps']:
            if c['m'] in ('this', 'starthis'):
                this = fr.this if fr.this is not None else ('ptr', ('obj', 'this'))
                continue
            if c['m'] == 'ref':
                fake = {'k': 'ref', 'd': c['d'], 'n': c['n'], 'vk': 'local'}
                states = [(s, cs + ((c['d'], 'ref', self.var_loc(fake, fr, s)),)) for s, cs in states]
            else:
                nx = []
                for s, cs in states:
                    if c.get('i'):
                        for s2, v in self.ev(c['i'], s, fr):
                            nx.append((s2, cs + ((c['d'], 'copy', v),)))
                    else:
                        fake = {'k': 'ref', 'd': c['d'], 'n': c['n'], 'vk': 'local'}
                        nx.append((s, cs + ((c['d'], 'copy', self.load(s, self.var_loc(fake, fr, s))),)))
                states = nx
        return [(s, ('clos', tuple(e['fns']), cs, this)) for s, cs in states]

    def ev_icast(self, e, st, fr):
        return self.ev_cast(e, st, fr)

    def ev_cast(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            out.append((s, self.conv(e, s, v)))
        return out

    def conv(self, e, st, v):
        w, fw = e.get('w'), e.get('fw')
        if not w:
            return v
        n = num(v)
        if n is not None:
            if v[0] == 'enum':
                return v
            m = n & ((1 << w) - 1)
            if e.get('sg') and m >> (w - 1):
                m -= 1 << w
            return ('int', m)
        if w == 8 and e.get('t') == 'bool':
            return v
        if not self.cfg.linear or not fw:
            return v
        lo, hi = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if e.get('sg') else (0, (1 << w) - 1))
        flo, fhi = ((-(1 << (fw - 1)), (1 << (fw - 1)) - 1) if e.get('fsg') else (0, (1 << fw) - 1))
        r = self.ranges.get(v)
        if r:
            flo, fhi = max(flo, r[0]), min(fhi, r[1])
        if flo >= lo and fhi <= hi:
            return v
        if (flo >= lo or self.entails(st, lin_add(v, ('int', lo), -1))) and \
           (fhi <= hi or self.entails(st, lin_add(('int', hi), v, -1))):
            return v
        t = ('trunc', w, bool(e.get('sg')), v)
        self.ranges[t] = (lo, hi)
        return t

    def wrap(self, node, st, v):
        """result of an arithmetic operation in node's type: exact, or unknown if it may wrap"""
        if not self.cfg.linear:
            return v
        w = node.get('cw') or node.get('w')
        if not w or num(v) is not None and 0 <= num(v) < (1 << (w - 1)):
            return v
        if node.get('sg'):
            return v           # signed overflow is undefined: not this analysis
        ok = self.entails(st, v) and self.entails(st, lin_add(('int', (1 << w) - 1), v, -1))
        if ok:
            return v
        t = ('trunc', w, False, v)
        self.ranges[t] = (0, (1 << w) - 1)
        return t

    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '!':
            t, f = self.br(e['e'], st, fr)
            return [(s, FALSE) for s in t] + [(s, TRUE) for s in f]
        if op == '*':
            return [(s, self.load(s, l)) for s, l in self.lval(e, st, fr)]
        if op == '&':
            if e['e']['k'] == 'fref':
                return self.ev(e['e'], st, fr)
            out = []
            for s, l in self.lval(e['e'], st, fr):
                if l[0] == 'deref':
                    out.append((s, l[1]))
                else:
                    if e['e'].get('t'):
                        self.ptr_type[l] = e['e']['t']
                    out.append((s, ('ptr', l)))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.lval(e['e'], st, fr):
                out += self.incdec(e, s, l, fr)
            return out
        if op == '-':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                out.append((s, lin_add(('int', 0), v, -1) if v[0] not in ('flt',) else ('op', '-', v)))
            return out
        if op == '+':
            return self.ev(e['e'], st, fr)
        return [(s, ('op', op, v)) for s, v in self.ev(e['e'], st, fr)]

    def incdec(self, e, st, l, fr):
        old = self.load(st, l)
        self.set_range(old, e)
        if old[0] in ('begin', 'iter'):
            new = ('iter', old[1], 'next')
        elif old[0] == 'find':
            new = ('iter', old[1], 'next')
        else:
            new = self.wrap(e, st, lin_add(old, ('int', 1), 1 if e['op'] == '++' else -1))
        s = self.store(st, l, new, e, fr)
        return [(s, old if e.get('post') else new)]

    ARITH = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'}

    def arith(self, op, a, b, node, st):
        na, nb = num(a), num(b)
        if a[0] == 'flt' or b[0] == 'flt':
            return ('op', op, a, b)
        if op in ('+', '-'):
            if a[0] == 'ptr' or b[0] == 'ptr' or a[0] in ('str',) or b[0] in ('str',):
                if a[0] == 'ptr' and nb == 0:
                    return a
                return ('op', op, a, b)
            return self.wrap(node, st, lin_add(a, b, 1 if op == '+' else -1))
        if op == '*':
            r = lin_mul(a, b)
            return self.wrap(node, st, r) if r else ('op', '*', a, b)
        if na is not None and nb is not None:
            try:
                if op == '/':
                    return ('int', int(na / nb) if abs(na) < 2**50 else na // nb)
                if op == '%':
                    return ('int', na % nb)
                if op == '<<':
                    return ('int', na << nb)
                if op == '>>':
                    return ('int', na >> nb)
                if op == '&':
                    return ('int', na & nb)
                if op == '|':
                    return ('int', na | nb)
                if op == '^':
                    return ('int', na ^ nb)
            except Exception:
                pass
        if op in ('&', '|', '^') and repr(a) > repr(b):
            a, b = b, a
        r = ('op', op, a, b)
        self.set_range(r, node)
        return r

    def ev_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            t, f = self.br(e, st, fr)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        out = []
        for s, a in self.ev(e['x'], st, fr):
            for s2, b in self.ev(e['y'], s, fr):
                if op == ',':
                    out.append((s2, b))
                else:
                    out.append((s2, self.arith(op, a, b, e, s2)))
        return out

    def ev_asg(self, e, st, fr):
        return [(s, v) for s, v, l in self.assign(e, st, fr)]

    def assign(self, e, st, fr):
        out = []
        for s, v in self.ev(e['y'], st, fr):
            for s2, l in self.lval(e['x'], s, fr):
                if e['op'] != '=':
                    old = self.load(s2, l)
                    self.set_range(old, e['x'])
                    v2 = self.arith(e['op'][:-1], old, v, e, s2)
                    if v2[0] == 'trunc' and e.get('w'):
                        pass
                else:
                    v2 = v
                s3 = self.store(s2, l, v2, e, fr)
                if s3 is not None:
                    out.append((s3, v2, l))
        return out

    def ev_cond(self, e, st, fr):
        out = []
        t, f = self.br(e['c'], st, fr)
        for s in t:
            out += self.ev(e['x'], s, fr)
        for s in f:
            out += self.ev(e['y'], s, fr)
        return dedupe_pairs(out)

    def evargs(self, es, st, fr):
        """-> list of (st, [vals], [locs])"""
        outs = [(st, (), ())]
        for a in es:
            nx = []
            for s, vs, ls in outs:
                if a is None:
                    nx.append((s, vs + (('unk', 'noarg'),), ls + (None,)))
                elif self.is_lv(a):
                    for s2, l in self.lval(a, s, fr):
                        v = self.load(s2, l)
                        self.set_range(v, a)
                        self.cfg.on_load(self, s2, l, a, fr)
                        nx.append((s2, vs + (v,), ls + (l,)))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nx.append((s2, vs + (v,), ls + (None,)))
            outs = nx
        return outs

    def ev_ilist(self, e, st, fr):
        out = []
        for s, vs, ls in self.evargs(e['a'], st, fr):
            if e.get('fs') and len(e['fs']) == len(vs) and vs:
                out.append((s, ('rec', ('mk', e['cl'], ()), tuple(((f,), v) for f, v in zip(e['fs'], vs)))))
            elif len(vs) == 1 and not e.get('cl') and '[' not in e.get('t', ''):
                out.append((s, vs[0]))
            else:
                out.append((s, ('list', e.get('t', ''), vs)))
        return out

    # smart pointers, functions and other value-like wrappers are their content
    WRAP = re.compile(r'^(std|boost)::(__)?(shared_ptr|unique_ptr|function|optional|weak_ptr|reference_wrapper|atomic|atomic_bool|__atomic_base)$')

    def ev_ctor(self, e, st, fr):
        cl = base_qn(e['cl'])
        out = []
        for s, vs, ls in self.evargs(e['a'], st, fr):
            s, tag = self.site(s, fr, e)
            c = self.mkcall(e, vs, ls, None, None, fr)
            c.qn = c.bqn = cl + '::' + cl.rsplit('::', 1)[-1]
            c.name = cl.rsplit('::', 1)[-1]
            r = self.cfg.on_call(self, s, c)
            if r is not None:
                out += [(x[0], x[1]) for x in r]
                continue
            if e.get('cm') and len(vs) == 1:
                out.append((s, vs[0]))
                continue
            if self.WRAP.match(cl):
                if not vs:
                    out.append((s, NULL))
                else:
                    v = vs[0]
                    if v[0] == 'ld' and mentions(v, lambda t: t == ('glob', 'std::nullopt')):
                        v = NULL
                    out.append((s, v))
                continue
            if cl in ('boost::endian::endian_arithmetic', 'boost::endian::endian_buffer') and len(vs) == 1:
                out.append((s, vs[0]))
                continue
            if cl == 'std::pair' and len(vs) == 2:
                out.append((s, ('rec', ('mk', 'std::pair', ()), ((('first',), vs[0]), (('second',), vs[1])))))
                continue
            if cl in ('std::nullopt_t',):
                out.append((s, NULL))
                continue
            if cl in ('std::basic_string', 'std::string', 'std::__cxx11::basic_string', 'std::basic_string_view'):
                if not vs:
                    out.append((s, ('str', '')))
                elif len(vs) == 1 or e['a'][1:] and vs[1][0] in ('mk', 'unk'):
                    out.append((s, vs[0]))
                else:
                    out.append((s, ('mk', cl, vs)))
                continue
            fn = self.P.functions.get(e['fn'])
            if fn and fn.get('b') and self.inline_ok(fn, fr):
                loc = ('tmp', tag)
                s0 = s.copy()
                s0.mem[loc] = ('mk', cl, ())
                rs = self.inline(fn, s0, ('ptr', loc), vs, ls, fr, e)
                for s2, _, _ in rs:
                    v = self.load(s2, loc)
                    s3 = s2.copy()
                    for k in [k for k in s3.mem if climb(loc, k) is not None]:
                        del s3.mem[k]
                    out.append((s3, v))
                continue
            if not vs:
                out.append((s, ('mk', cl, ())))
            else:
                out.append((s, ('mk', cl, vs)))
            # a constructor may write through non-const references
            for i, pm in enumerate(e.get('pm', ())):
                if pm == 'ptr' and i < len(vs) and vs[i][0] == 'ptr' and False:
                    pass
        return out

    # -- calls --------------------------------------------------------------------
    def mkcall(self, e, vs, ls, recv, recvloc, fr):
        c = Call()
        c.node, c.args, c.locs, c.recv, c.recvloc, c.fr = e, vs, ls, recv, recvloc, fr
        c.qn = e.get('qn', '')
        c.bqn = base_qn(c.qn) if c.qn else ''
        c.name = c.bqn.rsplit('::', 1)[-1]
        c.fn = e.get('fn')
        c.line = e.get('l')
        c.virt = e.get('virt', False)
        return c

    def inline_ok(self, fn, fr):
        if fr.depth >= self.cfg.max_depth:
            return False
        if fn['id'] in fr.stack and fr.stack.count(fn['id']) >= 1:
            return False
        if fn.get('dep'):
            return False
        return self.cfg.inline(self, fn)

    def callx(self, e, st, fr):
        """-> list of (st, val, loc)"""
        out = []
        # receiver
        rs = []
        if e.get('o') is not None:
            o = e['o']
            if e.get('ar'):
                for s, v in self.ev(o, st, fr):
                    rs.append((s, v, self.deref(s, v)))
            elif self.is_lv(o):
                for s, l in self.lval(o, st, fr):
                    rs.append((s, None, l))
            else:
                for s, v in self.ev(o, st, fr):
                    s, l = self.mktemp(s, v, fr, o)
                    rs.append((s, None, l))
        elif e.get('ce') is not None:
            ce = e['ce']
            for s, v in self.ev(ce, st, fr):
                rs.append((s, v, None))
        else:
            rs.append((st, None, None))
        for s, rv, rl in rs:
            for s2, vs, ls in self.evargs(e['a'], s, fr):
                if e.get('o') is not None:
                    recv = self.load(s2, rl)
                else:
                    recv = rv
                c = self.mkcall(e, vs, ls, recv, rl, fr)
                out += self.docall(c, s2)
                if len(out) > self.cfg.max_states:
                    raise Overflow("too many states at %s:%s" % (fr.fn['file'], e.get('l')))
        return self.dd3(out)

    def dd3(self, out):
        if len(out) < 2:
            return out
        seen, r = set(), []
        for s, v, l in out:
            k = (s.key(), v, l)
            if k not in seen:
                seen.add(k)
                r.append((s, v, l))
        return r

    def docall(self, c, st):
        r = self.cfg.on_call(self, st, c)
        if isinstance(r, St):
            st = r
        elif r is not None:
            return [x if len(x) == 3 else (x[0], x[1], None) for x in r]
        e = c.node
        # calls through function values
        if e.get('ce') is not None and not c.fn:
            f = c.recv
            if f is not None and f[0] in ('fn', 'clos', 'pbind'):
                return self.invoke(f, st, c.args, c.locs, c.fr, e)
            return self.opaque(c, st)
        if c.name == 'operator()' and c.recv is not None:
            f = c.recv
            if f[0] in ('fn', 'clos', 'pbind'):
                return self.invoke(f, st, c.args, c.locs, c.fr, e)
        r = self.lib(c, st)
        if r is not None:
            return [x if len(x) == 3 else (x[0], x[1], None) for x in r]
        fn = self.P.functions.get(c.fn)
        if c.name == 'operator=' and c.recvloc is not None and len(c.args) == 1 and not (fn and fn.get('b')) and \
                c.bqn.rsplit('::', 1)[0] in self.P.records and self.P.records[c.bqn.rsplit('::', 1)[0]].get('mine'):
            # a defaulted assignment copies
            return [x if len(x) == 3 else (x[0], x[1], None) for x in self._set(c, st, c.args[0])]
        if fn is not None and fn.get('b') and not (c.virt and self.overriders.get(c.fn)) and self.inline_ok(fn, c.fr):
            this = None
            if fn.get('m') and not fn.get('st'):
                this = self.addr(c.recvloc) if c.recvloc is not None else ('unk', 'this')
            return self.inline(fn, st, this, c.args, c.locs, c.fr, e)
        return self.opaque(c, st)

    def addr(self, loc):
        if loc[0] == 'deref':
            return loc[1]
        return ('ptr', loc)

    def invoke(self, f, st, args, locs, fr, node):
        """call a function value"""
        if f[0] == 'clos':
            for fid in f[1]:
                fn = self.P.functions.get(fid)
                if fn and fn.get('b') and len(fn['p']) == len(args):
                    if not self.inline_ok(fn, fr):
                        break
                    return self.inline(fn, st, f[3], args, locs, fr, node, f[2])
            for fid in f[1]:
                fn = self.P.functions.get(fid)
                if fn and fn.get('b') and self.inline_ok(fn, fr):
                    a = list(args) + [('unk', 'missing')] * len(fn['p'])
                    l = list(locs) + [None] * len(fn['p'])
                    n = len(fn['p'])
                    return self.inline(fn, st, f[3], tuple(a[:n]), tuple(l[:n]), fr, node, f[2])
        elif f[0] == 'fn':
            fn = self.P.functions.get(f[1])
            if fn and fn.get('b') and self.inline_ok(fn, fr):
                this = None
                a, l = list(args), list(locs)
                if fn.get('m') and not fn.get('st') and not fn.get('lam') and a:
                    this = a.pop(0)
                    l.pop(0)
                n = len(fn['p'])
                a = (a + [('unk', 'missing')] * n)[:n]
                l = (l + [None] * n)[:n]
                if this is not None and this[0] not in ('ptr', 'ld', 'call', 'hv', 'getf', 'sym'):
                    pass
                return self.inline(fn, st, this, tuple(a), tuple(l), fr, node)
        elif f[0] == 'pbind':
            _, target, bound, front = f
            a = []
            nargs = list(args)
            used = set()
            for b in bound:
                if b[0] == 'ph':
                    i = b[1] - 1
                    a.append(nargs[i] if i < len(nargs) else ('unk', 'missing'))
                else:
                    a.append(b)
            if front:
                a += nargs
            return self.invoke(target, st, tuple(a), tuple([None] * len(a)), fr, node)
        s, tag = self.site(st, fr, node)
        return [(s, ('call', 'invoke', f, args, tag), None)]

    def inline(self, fn, st, this, args, locs, fr, node, caps=()):
        self.analysed.add(fn['id'])
        s0, tag = self.site(st, fr, node)
        fid = self.fid(('frame', fr.fid, fn['id'], tag))
        f2 = Frame(fn, fid, this, fr.stack + (fn['id'],), fr.depth + 1, fr)
        return self.run_frame(fn, s0, f2, args, locs, caps)

    def run_frame(self, fn, st, f2, args, locs, caps=()):
        st = st.copy()
        for i, p in enumerate(fn['p']):
            if i >= len(args):
                break
            v, l = args[i], (locs[i] if i < len(locs) else None)
            if p['pm'] in ('ref', 'cref', 'rref'):
                if l is None:
                    if v[0] == 'rec' or v[0] in ('mk', 'clos', 'pbind'):
                        l = ('var', p['d'], f2.fid)
                        st = self.store_raw(st, l, v)
                    else:
                        l = self.tmploc(v)
                if l != ('var', p['d'], f2.fid):
                    st.mem[('alias', p['d'], f2.fid)] = l
            else:
                st = self.store_raw(st, ('var', p['d'], f2.fid), v)
        for d, mode, v in caps:
            if mode == 'ref':
                st.mem[('alias', d, f2.fid)] = v
            else:
                st = self.store_raw(st, ('var', d, f2.fid), v)
        states = [st]
        # constructor initialisers
        if fn.get('kind') == 'ctor':
            for i in fn.get('inits', ()):
                if 'f' not in i or i.get('e') is None:
                    if 'base' in i and i.get('e') is not None:
                        nx = []
                        for s in states:
                            nx += self.base_init(i, s, f2)
                        states = nx
                    continue
                nx = []
                for s in states:
                    if i['t'].endswith('&'):
                        for s2, l in self.lval(i['e'], s, f2):
                            nx.append(self.store_raw(s2, ('fld', self.deref(s2, f2.this), i['f']), self.load(s2, l)))
                    else:
                        for s2, v in self.ev(i['e'], s, f2):
                            r = self.store(s2, ('fld', self.deref(s2, f2.this), i['f']), v, i, f2)
                            if r is not None:
                                nx.append(r)
                states = dedupe(nx)
        out = []
        for s in states:
            o = self.ex(fn.get('b'), s, f2) if fn.get('b') else {'n': [s], 'r': []}
            for s2 in o['n']:
                out.append((s2, ('void',), None))
            for s2, v, l in o['r']:
                out.append((s2, v, l))
        res = []
        for s, v, l in out:
            res.append((self.drop_frame(s, f2.fid, v, l), v, l))
        return self.dd3(res)

    def base_init(self, i, st, fr):
        e = i['e']
        if e['k'] == 'ctor':
            out = []
            fn = self.P.functions.get(e['fn'])
            for s, vs, ls in self.evargs(e['a'], st, fr):
                if fn and fn.get('b') and self.inline_ok(fn, fr):
                    out += [x[0] for x in self.inline(fn, s, fr.this, vs, ls, fr, e)]
                else:
                    out.append(s)
            return out
        return [s for s, _ in self.ev(e, st, fr)]

    def drop_frame(self, st, fid, v, l):
        keep_l = l is not None and root_of(l)[0] == 'var'
        dead = []
        for k in st.mem:
            r = k
            while r[0] in ('fld', 'elem'):
                r = r[1]
                if not isinstance(r, tuple):
                    break
            if isinstance(r, tuple) and r[0] in ('var', 'alias') and r[2] == fid:
                if keep_l:
                    continue
                dead.append(k)
        if not dead:
            return st
        # values captured by reference keep their storage
        refd = set()
        s = st.copy()
        for k in dead:
            del s.mem[k]
        return s

    def opaque(self, c, st):
        e = c.node
        st, tag = self.site(st, c.fr, e)
        for t in self.cfg.may_throw(self, st, c):
            self.throw(st, t, ('unk', 'exc'), e, c.fr)
        pms = e.get('pm', ())
        wr = False
        for i, v in enumerate(c.args):
            pm = pms[i] if i < len(pms) else 'val'
            if pm == 'ref' and c.locs[i] is not None:
                st = self.havoc(st, c.locs[i], (tag, i))
                wr = True
            elif pm == 'ptr' and v[0] == 'ptr':
                st = self.havoc(st, v[1], (tag, i))
                wr = True
        const = e.get('cst', True) if e.get('o') is not None else True
        if e.get('o') is not None and not const and c.recvloc is not None and \
                not self.handle_like(c):
            st = self.havoc(st, c.recvloc, (tag, 'this'))
        if (not const or wr or self.cfg.volatile(c.bqn) or e.get('t') == 'void'):
            v = ('call', c.bqn, c.recv if c.recv is not None else (), c.args, tag)
        else:
            v = ('call', c.bqn, c.recv if c.recv is not None else (), c.args)
        self.set_range(v, e)
        loc = ('valof', v)
        return [(st, v, loc)]

    HANDLE = re.compile(r'(asio|ssl|beast|socket|acceptor|io_context|ostream|stringstream|istream)')

    def handle_like(self, c):
        return bool(self.HANDLE.search(c.qn or '')) or (c.virt and True) or c.fn in self.P.functions

    # -- library semantics ------------------------------------------------------------
    def lib(self, c, st):
        n, b, a = c.name, c.bqn, c.args
        q = c.qn
        if not (b.startswith('std::') or b.startswith('boost::') or b.startswith('__gnu')):
            return None
        if b in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof') and a:
            if n == 'addressof':
                return [(st, ('ptr', c.locs[0]) if c.locs[0] else a[0], None)]
            return [(st, a[0], c.locs[0])]
        if n == 'operator=' and c.recv is not None and c.recv[0] == 'tie' and a:
            v = a[0]
            s = st
            for i, l in enumerate(c.recv[1]):
                if v[0] in ('tuple', 'list') and i < len(v[2]):
                    x = v[2][i]
                elif 'pair' in (c.node['a'][0].get('t') or '') if c.node.get('a') else False:
                    x = self.getf(v, ('first', 'second')[i])
                else:
                    x = self.getf(v, 'get<%d>' % i)
                s = self.store(s, l, x, c.node, c.fr)
            return [(s, v, None)]
        if b in ('std::make_shared', 'std::make_unique', 'boost::make_shared'):
            ta = c.node.get('ta') or [None]
            t = ta[0]['t'] if ta[0] else '?'
            s, tag = self.site(st, c.fr, c.node)
            loc = ('heap', tag)
            s = s.copy()
            if len(a) == 1 and base_qn(t).rsplit('::', 1)[-1] in ('vector', 'basic_string', 'map', 'set') or \
               (len(a) == 1 and a[0][0] == 'rec' and a[0][1][:2] == ('mk', base_qn(t))):
                s = self.store_raw(s, loc, a[0])
            else:
                s.mem[loc] = ('mk', base_qn(t), a)
            return [(s, ('ptr', loc), None)]
        if n in ('shared_from_this', 'weak_from_this') and c.recvloc is not None:
            return [(st, self.addr(c.recvloc), None)]
        if b in ('std::bind', 'boost::bind'):
            bound = []
            for v in a[1:]:
                ph = self.placeholder(v)
                bound.append(('ph', ph) if ph else v)
            return [(st, ('pbind', a[0], tuple(bound), False), None)]
        if n == 'bind_front_handler':
            return [(st, ('pbind', a[0], tuple(a[1:]), True), None)]
        if n in ('dynamic_pointer_cast', 'static_pointer_cast') and a:
            return [(st, a[0], None)]
        cls = b[:-(len(n) + 2)] if '::' in b else ''
        short = cls.rsplit('::', 1)[-1]
        if short in ('shared_ptr', 'unique_ptr', '__shared_ptr', '__shared_ptr_access', 'weak_ptr', 'reference_wrapper',
                     'intrusive_ptr', 'scoped_ptr', '__weak_ptr'):
            v = c.recv
            if n in ('get', 'lock', 'release') or n == 'operator->':
                return [(st, v, None)]
            if n == 'operator*':
                l = self.deref(st, v)
                return [(st, self.load(st, l), l)]
            if n == 'operator bool':
                return [(st, v, None)]
            if n == 'operator=':
                return self._set(c, st, a[0] if a else NULL)
            if n == 'reset':
                return self._set(c, st, a[0] if a else NULL)
            if n.startswith('operator ') and short == 'reference_wrapper':
                return [(st, v, c.recvloc)]
        if short in ('function', '_Function_base') and n in ('operator bool',):
            return [(st, c.recv, None)]
        if short == 'function' and n == 'operator=':
            return self._set(c, st, a[0])
        if short in ('optional', '_Optional_base_impl', '_Optional_base'):
            v = c.recv
            if n in ('has_value', '_M_is_engaged', 'operator bool'):
                return [(st, v, None)]
            if n in ('value', '_M_get'):
                return [(st, v, c.recvloc)]
            if n == 'operator*':
                return [(st, v, c.recvloc)]
            if n == 'operator->':
                return [(st, ('ptr', c.recvloc), None)]
            if n == 'value_or':
                at, p = self.atom_truth(v)
                t, f = self.split(st, at, p)
                return [(s, v, None) for s in t] + [(s, a[0], None) for s in f]
            if n == 'reset':
                return self._set(c, st, NULL)
            if n in ('operator=', 'emplace'):
                v = a[0] if a else ('mk', 'emplaced', ())
                if v[0] == 'ld' and mentions(v, lambda t: t == ('glob', 'std::nullopt')):
                    v = NULL
                return self._set(c, st, v)
        if 'atomic' in short or short == '__atomic_base':
            if n in ('load',) or n.startswith('operator ') or n == 'operator __int_type':
                self.set_range(c.recv, c.node)
                return [(st, c.recv, None)]
            if n in ('store', 'operator='):
                return self._set(c, st, a[0])
            if n in ('exchange',):
                old = c.recv
                return [(x[0], old, None) for x in self._set(c, st, a[0])]
            if n in ('fetch_add', 'operator+=', 'operator++', 'fetch_sub', 'operator-=', 'operator--'):
                sign = 1 if n in ('fetch_add', 'operator+=', 'operator++') else -1
                d = a[0] if (a and n not in ('operator++', 'operator--')) else ('int', 1)
                old = c.recv
                new = lin_add(old, d, sign)
                r = self._set(c, st, new)
                post = n.startswith('fetch') or (n in ('operator++', 'operator--') and a)
                return [(x[0], old if post else new, None) for x in r]
        if short == 'error_code' and n == 'operator bool':
            return [(st, c.recv, None)]
        if short == 'error_code' and n in ('failed', 'value'):
            return [(st, c.recv if n == 'failed' else ('ecv', c.recv), None)]
        if n == 'operator bool' and short in ('basic_ios', 'basic_istream', 'basic_istringstream'):
            return [(st, ('streamok', st.occ.get(('tok', c.recvloc), 0)), None)]
        # streams as token sources
        if n == 'operator>>' and 'std' in b:
            # member: recv is the stream; free: args[0]
            sl = c.recvloc if c.recvloc is not None else (c.locs[0] if c.locs else None)
            tgt = c.locs[-1] if c.locs else None
            if tgt is not None and sl is not None:
                root = sl
                i = st.occ.get(('tok', root), 0)
                s = st.copy()
                s.occ[('tok', root)] = i + 1
                tv = ('tok', self.load(st, root), i)
                self.set_range(tv, c.node['a'][-1])
                s = self.store(s, tgt, tv, c.node, c.fr)
                return [(s, ('streamok', i + 1), root)]
        if n == 'getline' and len(a) >= 2 and c.locs[0] is not None and c.locs[1] is not None:
            root = c.locs[0]
            i = st.occ.get(('tok', root), 0)
            s = st.copy()
            s.occ[('tok', root)] = i + 1
            s = self.store(s, c.locs[1], ('restline', self.load(st, root), i), c.node, c.fr)
            return [(s, ('streamok', i + 1), root)]
        if n in ('to_upper', 'to_lower') and c.locs and c.locs[0] is not None:
            s = self.store(st, c.locs[0], (n[3:], a[0]), c.node, c.fr)
            return [(s, ('void',), None)]
        if n in ('to_upper_copy', 'to_lower_copy') and a:
            return [(st, (n[3:8], a[0]), None)]
        if n in ('min', 'max') and b.startswith('std::') and len(a) >= 2:
            x, y = a[0], a[1]
            at, p = self.atom_lt(x, y)
            t, f = self.split(st, at, p)
            if n == 'min':
                return [(s, x, None) for s in t] + [(s, y, None) for s in f]
            return [(s, y, None) for s in t] + [(s, x, None) for s in f]
        if b.startswith('std::chrono::'):
            if n in ('duration_cast', 'time_point_cast', 'floor') and a:
                return [(st, a[0], None)]
            if n == 'count' or n == 'time_since_epoch':
                return [(st, c.recv, None)]
            if n in ('operator-', 'operator+') and len(a) == 2:
                return [(st, lin_add(a[0], a[1], 1 if n == 'operator+' else -1), None)]
            if n in ('operator-=', 'operator+=') and len(a) == 1 and c.recvloc is not None:
                return self._set(c, st, lin_add(c.recv, a[0], 1 if n == 'operator+=' else -1))
        # containers and strings
        if c.node.get('o') is not None and c.recvloc is not None:
            v = c.recv
            if n in ('begin', 'cbegin', 'rbegin'):
                return [(st, ('begin', v), None)]
            if n in ('end', 'cend', 'rend'):
                return [(st, ('end', v), None)]
            if n in ('size', 'length'):
                if v[0] == 'str':
                    return [(st, ('int', len(v[1])), None)]
                t = ('size', v)
                self.ranges[t] = (0, (1 << 62))
                return [(st, t, None)]
            if n == 'empty' and not a and v[0] not in ('node', 'nonode'):
                if v[0] == 'str':
                    return [(st, TRUE if not v[1] else FALSE, None)]
                return [(st, ('isempty', v), None)]
            if n in ('c_str', 'data', 'str') and short in ('basic_string', 'basic_string_view'):
                return [(st, v, None)]
            if n.startswith('operator basic_string_view') or n.startswith('operator ') and short == 'basic_string':
                return [(st, v, None)]
            if n == 'find' and short in ('map', 'unordered_map', 'set', 'unordered_set', 'multimap'):
                return [(st, ('find', v, a[0]), None)]
            if n in ('count', 'contains') and short in ('map', 'unordered_map', 'set', 'unordered_set', 'multimap'):
                return [(st, ('count', v, a[0]), None)]
            if n in ('operator[]', 'at') and a:
                kind = 'mat' if short in ('map', 'unordered_map') else 'elem'
                l = (kind, v if kind == 'mat' else v, a[0])
                if st.mem.get(l) is None and v[0] == 'list' and num(a[0]) is not None and num(a[0]) < len(v[2]):
                    return [(st, v[2][num(a[0])], None)]
                if kind == 'mat':
                    # m[k] inserts, m.at(k) throws otherwise: k is there afterwards
                    st = st.copy()
                    if n == 'operator[]':
                        st.facts.setdefault(('had', v, a[0]), st.facts.get(('has', v, a[0])))
                    st.facts[('has', v, a[0])] = True
                    st.facts[('empty', v)] = False
                r = self.load(st, l)
                self.set_range(r, c.node)
                return [(st, r, l)]
            if short in ('map', 'unordered_map') and n in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
                r = self.map_insert(c, st, n, v, a)
                if r is not None:
                    return r
            if short in ('map', 'unordered_map') and n == 'extract' and len(a) == 1 and a[0][0] not in ('begin', 'iter', 'find', 'lv'):
                k = a[0]
                t, f = self.split(st, ('has', v, k), True)
                out = [(s, ('nonode',), None) for s in f]
                for s in t:
                    s = self.cfg.on_erase(self, s, c, v, k).copy()
                    s.facts.setdefault(('had', v, k), True)
                    s.facts[('has', v, k)] = False
                    l = ('mat', v, k)
                    for kk in [kk for kk in s.mem if kk == l or kk[0] == 'fld' and climb(l, kk)]:
                        del s.mem[kk]
                    out.append((s, ('node', v, k), None))
                return out
            if v[0] in ('node', 'nonode') and not a and n in ('empty', 'operator bool'):
                return [(st, TRUE if (v[0] == 'nonode') == (n == 'empty') else FALSE, None)]
            if short in ('map', 'unordered_map') and n == 'erase' and len(a) == 1:
                k = a[0]
                s = self.cfg.on_erase(self, st, c, v, k)
                s = s.copy()
                if k[0] == 'find' and k[1] == v:
                    k = k[2]
                elif k[0] in ('begin', 'iter', 'find', 'lv'):
                    return [(s, ('iter', k[1], ('erased',)) if k[0] != 'lv' else ('unk', 'erase'), None)]
                s.facts.setdefault(('had', v, k), s.facts.get(('has', v, k)))
                s.facts[('has', v, k)] = False
                l = ('mat', v, k)
                for kk in [kk for kk in s.mem if kk == l or kk[0] == 'fld' and climb(l, kk)]:
                    del s.mem[kk]
                return [(s, ('unk', 'erased'), None)]
            if n == 'operator->' and v[0] in ('find', 'begin', 'iter', 'ld', 'hv', 'call', 'lv'):
                return [(st, ('ptr', self.deref(st, v)) if v[0] in ('begin', 'iter') else v, None)]
            if n == 'operator*' and not a:
                l = self.deref(st, v)
                return [(st, self.load(st, l), l)]
            if n == 'operator++' or n == 'operator--':
                new = ('iter', v[1], 'next') if v[0] in ('begin', 'iter', 'find') else None
                if new is None:
                    return None
                s = self.store(st, c.recvloc, new, c.node, c.fr)
                return [(s, v if a else new, c.recvloc)]
            if n in ('front', 'back') and not a:
                l = ('elem', v, n)
                return [(st, self.load(st, l), l)]
            if n == 'operator=' and a:
                return self._set(c, st, a[0])
            if n == 'operator+=' and short == 'basic_string' and a:
                return self._set(c, st, ('concat', v, a[0]))
            if n == 'append' and short == 'basic_string' and a:
                return self._set(c, st, ('concat', v, a[0]))
        if n in ('begin', 'cbegin') and a and c.node.get('o') is None:
            return [(st, ('begin', a[0]), None)]
        if n in ('end', 'cend') and a and c.node.get('o') is None:
            return [(st, ('end', a[0]), None)]
        if n in ('size', 'ssize') and len(a) == 1 and c.node.get('o') is None:
            t = ('size', a[0])
            self.ranges[t] = (0, (1 << 62))
            return [(st, t, None)]
        if n == 'get' and b == 'std::get' and a:
            ta = c.node.get('ta') or []
            i = ta[0].get('v') if ta and ta[0] else None
            if i is None and ta and ta[0]:
                i = ta[0].get('t')
            v = a[0]
            if v[0] in ('tuple', 'list') and isinstance(i, int) and i < len(v[2]):
                return [(st, v[2][i], None)]
            l = ('fld', c.locs[0] if c.locs[0] else self.tmploc(v), 'get<%s>' % i)
            r = self.load(st, l)
            self.set_range(r, c.node)
            return [(st, r, l)]
        if b == 'std::tie' and all(l is not None for l in c.locs):
            return [(st, ('tie', tuple(c.locs)), None)]
        if n in ('make_pair', 'make_tuple'):
            if n == 'make_pair':
                return [(st, ('rec', ('mk', 'std::pair', ()), ((('first',), a[0]), (('second',), a[1]))), None)]
            return [(st, ('tuple', 'std::tuple', a), None)]
        if n in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'remove_if', 'transform', 'for_each_n', 'copy_if', 'partition') \
                and b.startswith('std::'):
            return self.algo(c, st)
        if n == 'operator+' and b.startswith('std::') and len(a) == 2:
            if a[0][0] == 'str' and a[1][0] == 'str':
                return [(st, ('str', a[0][1] + a[1][1]), None)]
            return [(st, ('concat', a[0], a[1]), None)]
        if n == 'operator=' and c.recvloc is not None and a and short in (
                'pair', 'tuple', 'duration', 'time_point', 'basic_string_view'):
            return self._set(c, st, a[0])
        if short in ('endian_arithmetic', 'endian_buffer') and c.recvloc is not None:
            # the stored value; the byte order is a matter of representation only
            if n.startswith('operator ') or n == 'value':
                self.set_range(c.recv, c.node)
                return [(st, c.recv, None)]
            if n == 'operator=' and a:
                return self._set(c, st, a[0])
        if n == 'swap' and b == 'std::swap' and len(a) == 2 and c.locs[0] and c.locs[1]:
            s = self.store(st, c.locs[0], a[1], c.node, c.fr)
            s = self.store(s, c.locs[1], a[0], c.node, c.fr)
            return [(s, ('void',), None)]
        if n == 'swap' and c.recvloc is not None and len(a) == 1 and c.locs[0] is not None:
            rv = c.recv
            s = self.store(st, c.recvloc, a[0], c.node, c.fr)
            s = self.store(s, c.locs[0], rv, c.node, c.fr)
            return [(s, ('void',), None)]
        return None

    def map_insert(self, c, st, n, m, a):
        if len(a) == 1 and a[0][0] == 'rec':
            d = dict(a[0][2])
            if ('first',) not in d or ('second',) not in d:
                return None
            k, v = d[('first',)], d[('second',)]
        elif len(a) == 2:
            k, v = a
        elif len(a) > 2 and n in ('try_emplace',):
            k, v = a[0], ('mk', 'emplaced', tuple(a[1:]))
        else:
            return None
        if n == 'insert_or_assign':
            T, F = [], [st]
        else:
            T, F = self.split(st, ('has', m, k), True)
        out = []
        pair = lambda b: ('rec', ('mk', 'std::pair', ()), ((('first',), ('find', m, k)), (('second',), b)))
        for s in T:
            out.append((s, pair(FALSE), None))
        for s in F:
            s = s.copy()
            s.facts.setdefault(('had', m, k), s.facts.get(('has', m, k)))
            s.facts[('has', m, k)] = True
            s.facts[('empty', m)] = False
            s = self.store(s, ('mat', m, k), v, c.node, c.fr)
            out.append((s, pair(TRUE if n != 'insert_or_assign' else ('unk', 'inserted')), None))
        return out

    def placeholder(self, v):
        if v[0] == 'ld' and v[1][0] == 'glob':
            m = re.search(r'placeholders::_(\d+)$', v[1][1])
            if m:
                return int(m.group(1))
        return None

    def _set(self, c, st, v):
        s = self.store(st, c.recvloc, v, c.node, c.fr)
        if s is None:
            return []
        return [(s, v, c.recvloc)]

    def algo(self, c, st):
        """std algorithm with a callable: zero or more generic calls"""
        fnv = [v for v in c.args if v[0] in ('clos', 'fn', 'pbind')]
        if not fnv:
            return None
        cont = c.args[0][1] if c.args and c.args[0][0] in ('begin', 'iter') else ('unk', 'range')
        s0, tag = self.site(st, c.fr, c.node)
        n, f = c.name, fnv[-1]
        stop = {'any_of': (True, TRUE, FALSE), 'all_of': (False, FALSE, TRUE), 'none_of': (True, FALSE, TRUE)}.get(n)
        whole = len(c.args) > 1 and c.args[0] == ('begin', cont) and c.args[1] == ('end', cont)
        if whole and self.cfg.distinct and cont[0] == 'mk' and cont[1].startswith('std::vector') and not cont[2]:
            cont = ('list', 'vec', ())
        if whole and (n == 'for_each' or stop) and cont[0] == 'list' and len(cont[2]) <= 16:
            cur, out = [s0], []
            for item in cont[2]:
                nx = []
                for z in cur:
                    for s2, v, l in self.invoke(f, z, (item,), (None,), c.fr, c.node):
                        T, F = self.split(s2, *self.atom_truth(v)) if stop else ([], [s2])
                        if stop and not stop[0]:
                            T, F = F, T
                        out += [(s, stop[1], None) for s in T]
                        nx += F
                cur = dedupe(nx)
            return out + [(s, stop[2] if stop else f, None) for s in cur]
        el = ('elem', cont, ('rf' if n == 'for_each' or stop else 'algo', tag[0] if n == 'for_each' or stop else tag))
        g = ('ghost', 'algo', tag)

        def body(s, el=el):
            o = {'n': [], 'b': [], 'c': [], 'r': []}
            if self.cfg.distinct:
                t = ('ghost', 'turn', el)
                k = s.mem.get(t, ('int', 0))[1]
                s = s.copy()
                s.mem[t] = ('int', k + 1)
                el = el[:2] + (el[2] + (k,),)
            if self.cfg.loop_events:
                s = s.emit('iter', el)
            for s2, v, l in self.invoke(f, s, (self.load(s, el),), (el,), c.fr, c.node):
                if stop:
                    T, F = self.split(s2, *self.atom_truth(v))
                    if not stop[0]:
                        T, F = F, T
                    for z in T:
                        z = z.copy()
                        z.mem[g] = stop[1]
                        o['b'].append(z)
                    o['n'] += F
                else:
                    o['n'].append(s2)
            return o
        ex = self.loop_core(s0, c.fr, c.node, None, body, None)
        out = []
        for s in ex['n']:
            if stop:
                v = s.mem.get(g, stop[2])
                if g in s.mem:
                    s = s.copy()
                    del s.mem[g]
                out.append((s, v, None))
                continue
            s, tag2 = self.site(s, c.fr, c.node)
            out.append((s, ('call', c.bqn, (), c.args, tag2), None))
        return out

    # -- statements ----------------------------------------------------------------
    def ex(self, s, st, fr):
        """-> {'n','b','c','r'}"""
        if s is None:
            return {'n': [st], 'b': [], 'c': [], 'r': []}
        self.nstates += 1
        m = getattr(self, 'ex_' + s['s'], None)
        if m is None:
            self.unknown['stmt ' + s.get('sc', s['s'])] = 1
            return {'n': [st], 'b': [], 'c': [], 'r': []}
        return m(s, st, fr)

    def ex_null(self, s, st, fr):
        return {'n': [st], 'b': [], 'c': [], 'r': []}

    def ex_expr(self, s, st, fr):
        return {'n': dedupe([x for x, _ in self.ev(s['e'], st, fr)]), 'b': [], 'c': [], 'r': []}

    def declare(self, v, st, fr):
        """-> list of states"""
        out = []
        loc = ('var', v['d'], fr.fid)
        i = v.get('i')
        if v.get('static'):
            return [st]
        if v.get('ref') and i is not None:
            for s, l in self.lval(i, st, fr):
                s = s.copy()
                s.mem[('alias', v['d'], fr.fid)] = l
                out.append(s)
        elif i is not None:
            for s, x in self.ev(i, st, fr):
                s = self.store(s, loc, x, v, fr)
                if s is not None:
                    out.append(s)
        else:
            s = self.store_raw(st, loc, ('uninit', v['d'], fr.fid))
            self.set_range(('uninit', v['d'], fr.fid), v)
            out.append(s)
        if v.get('bind'):
            nx = []
            for s in out:
                s = s.copy()
                base = s.mem.get(('alias', v['d'], fr.fid), loc)
                for j, b in enumerate(v['bind']):
                    f = 'get<%d>' % j
                    if 'pair' in v.get('cl', '') or 'pair' in v.get('t', ''):
                        f = ('first', 'second')[j] if j < 2 else f
                    if b.get('hv'):
                        s.mem[('alias', b['hv']['d'], fr.fid)] = ('fld', base, f)
                    s.mem[('alias', b['d'], fr.fid)] = ('fld', base, f)
                nx.append(s)
            out = nx
        return out

    def ex_decl(self, s, st, fr):
        sts = [st]
        for v in s['v']:
            nx = []
            for x in sts:
                nx += self.declare(v, x, fr)
            sts = dedupe(nx)
        return {'n': sts, 'b': [], 'c': [], 'r': []}

    def merge(self, o, p):
        for k in ('b', 'c', 'r'):
            o[k] += p[k]

    def scoped_vars(self, s):
        out = []
        for x in s['b']:
            if x and x['s'] == 'decl':
                out += [v for v in x['v'] if v.get('dtor') or v.get('cl')]
        return out

    def run_dtors(self, st, decls, fr, upto=None):
        sts = [st]
        for v in reversed(decls):
            if v.get('ref') or not v.get('cl'):
                continue
            loc = ('var', v['d'], fr.fid)
            nx = []
            for s in sts:
                if loc not in s.mem and not any(climb(loc, k) is not None for k in s.mem if k[0] == 'fld'):
                    nx.append(s)
                    continue
                r = self.cfg.on_dtor(self, s, base_qn(v['cl']), loc, v, fr)
                if r is not None:
                    nx += r
                    continue
                fn = self.P.functions.get(v.get('dtor'))
                if fn and fn.get('b') and self.inline_ok(fn, fr):
                    nx += [x[0] for x in self.inline(fn, s, ('ptr', loc), (), (), fr, {'l': v.get('l'), 'c': 0, 'k': 'dtor'})]
                else:
                    nx.append(s)
            sts = nx
        return sts

    def ex_block(self, s, st, fr):
        o = {'n': [st], 'b': [], 'c': [], 'r': []}
        decls = self.scoped_vars(s)
        if decls:
            self.sinks.append([])
        for x in s['b']:
            if x is None:
                continue
            nx = []
            for y in o['n']:
                p = self.ex(x, y, fr)
                nx += p['n']
                self.merge(o, p)
            o['n'] = dedupe(nx)
            if len(o['n']) > self.cfg.max_states:
                raise Overflow("too many states in %s" % fr.fn['qn'])
            if not o['n']:
                break
        o['b'], o['c'] = dedupe(o['b']), dedupe(o['c'])
        if decls:
            thrown = self.sinks.pop()
            o['n'] = dedupe([y for x in o['n'] for y in self.run_dtors(x, decls, fr)])
            o['b'] = [y for x in o['b'] for y in self.run_dtors(x, decls, fr)]
            o['c'] = [y for x in o['c'] for y in self.run_dtors(x, decls, fr)]
            o['r'] = [(y, v, l) for x, v, l in o['r'] for y in self.run_dtors(x, decls, fr)]
            if self.sinks:
                for x, t, v, w in thrown:
                    for y in self.run_dtors(x, decls, fr):
                        self.sinks[-1].append((y, t, v, w))
        return o

    def ex_return(self, s, st, fr):
        o = {'n': [], 'b': [], 'c': [], 'r': []}
        if s.get('e') is None:
            o['r'].append((st, ('void',), None))
        elif fr.fn.get('rt', '').endswith('&'):
            for x, l in self.lval(s['e'], st, fr):
                o['r'].append((x, self.load(x, l), l))
        else:
            for x, v in self.ev(s['e'], st, fr):
                if fr.fn.get('w') and v[0] not in ('int', 'enum'):
                    self.set_range(v, fr.fn)
                o['r'].append((x, v, None))
        return o

    def ex_break(self, s, st, fr):
        return {'n': [], 'b': [st], 'c': [], 'r': []}

    def ex_continue(self, s, st, fr):
        return {'n': [], 'b': [], 'c': [st], 'r': []}

    def ex_if(self, s, st, fr):
        o = {'n': [], 'b': [], 'c': [], 'r': []}
        sts = [st]
        if s.get('init'):
            sts = self.ex(s['init'], st, fr)['n']
        if s.get('cvar'):
            sts = [y for x in sts for y in self.declare(s['cvar'], x, fr)]
        for x in sts:
            if 'cv' in s:
                t, f = ([x], []) if s['cv'] else ([], [x])
            else:
                t, f = self.br(s['c'], x, fr)
            for y in t:
                p = self.ex(s['x'], y, fr)
                o['n'] += p['n']
                self.merge(o, p)
            for y in f:
                if s.get('y'):
                    p = self.ex(s['y'], y, fr)
                    o['n'] += p['n']
                    self.merge(o, p)
                else:
                    o['n'].append(y)
        o['n'] = dedupe(o['n'])
        return o

    LOGREC = re.compile(r'boost::log::.*record')

    def is_log(self, s):
        i = s.get('init')
        if i and i.get('s') == 'decl':
            for v in i['v']:
                if self.LOGREC.search(v.get('t', '')):
                    return True
        return False

    def ex_for(self, s, st, fr):
        if self.is_log(s):
            return {'n': [st], 'b': [], 'c': [], 'r': []}
        sts = [st]
        if s.get('init'):
            sts = self.ex(s['init'], st, fr)['n']
        return self.loop(sts, fr, s, s.get('c'), s['b'], s.get('inc'))

    def ex_while(self, s, st, fr):
        return self.loop([st], fr, s, s['c'], s['b'], None, cvar=s.get('cvar'))

    def ex_do(self, s, st, fr):
        # one unconditional pass, then a while loop
        p = self.ex(s['b'], st, fr)
        o = {'n': [], 'b': [], 'c': [], 'r': list(p['r'])}
        o['n'] += p['b']
        r = self.loop(dedupe(p['n'] + p['c']), fr, s, s['c'], s['b'], None)
        o['n'] += r['n']
        o['r'] += r['r']
        o['n'] = dedupe(o['n'])
        return o

    def loop(self, sts, fr, s, cond, body, inc, cvar=None):
        o = {'n': [], 'b': [], 'c': [], 'r': []}

        def bodyf(x):
            p = self.ex(body, x, fr)
            ends = dedupe(p['n'] + p['c'])
            if inc is not None:
                ends = dedupe([z for y in ends for z, _ in self.ev(inc, y, fr)])
            return {'n': ends, 'b': p['b'], 'c': [], 'r': p['r']}

        def condf(x):
            if cvar is not None:
                T, F = [], []
                for y in self.declare(cvar, x, fr):
                    t, f = self.br(cond, y, fr)
                    T += t
                    F += f
                return T, F
            if cond is None:
                return [x], []
            return self.br(cond, x, fr)
        for st in sts:
            r = self.loop_core(st, fr, s, condf, bodyf, None)
            o['n'] += r['n']
            o['r'] += r['r']
        o['n'] = dedupe(o['n'])
        return o

    def ex_rfor(self, s, st, fr):
        sts = [st]
        if s.get('init'):
            sts = self.ex(s['init'], st, fr)['n']
        o = {'n': [], 'b': [], 'c': [], 'r': []}
        for x in sts:
            r = s['r']
            if self.is_lv(r):
                rng = [(y, self.load(y, l), l) for y, l in self.lval(r, x, fr)]
            else:
                rng = [(y, v, None) for y, v in self.ev(r, x, fr)]
            for y, v, l in rng:
                y, tag = self.site(y, fr, s)
                if self.cfg.distinct and v[0] == 'mk' and v[1].startswith('std::vector') and not v[2]:
                    v = ('list', 'vec', ())
                if v[0] == 'list' and len(v[2]) <= 16:
                    # a literal list is unrolled
                    cur = [y]
                    for item in v[2]:
                        nx = []
                        for z in cur:
                            z = self.store_raw(z, ('var', s['v']['d'], fr.fid), item)
                            p = self.ex(s['b'], z, fr)
                            nx += p['n'] + p['c']
                            o['n'] += p['b']
                            o['r'] += p['r']
                        cur = dedupe(nx)
                    o['n'] += cur
                    continue
                el = ('elem', v, ('rf', tag[0]))
                var = s['v']

                def bodyf(z, el=el, var=var):
                    if self.cfg.distinct:
                        g = ('ghost', 'turn', el)
                        n = z.mem.get(g, ('int', 0))[1]
                        z = z.copy()
                        z.mem[g] = ('int', n + 1)
                        el = el[:2] + (el[2] + (n,),)
                    z = z.emit('iter', el) if self.cfg.loop_events else z.copy()
                    if var.get('ref'):
                        z.mem[('alias', var['d'], fr.fid)] = el
                    else:
                        z = self.store_raw(z, ('var', var['d'], fr.fid), self.load(z, el))
                    if var.get('bind'):
                        z = z.copy()
                        base = el if var.get('ref') else ('var', var['d'], fr.fid)
                        for j, b in enumerate(var['bind']):
                            f = ('first', 'second')[j] if j < 2 else 'get<%d>' % j
                            z.mem[('alias', b['d'], fr.fid)] = ('fld', base, f)
                            if b.get('hv'):
                                z.mem[('alias', b['hv']['d'], fr.fid)] = ('fld', base, f)
                    p = self.ex(s['b'], z, fr)
                    return {'n': dedupe(p['n'] + p['c']), 'b': p['b'], 'c': [], 'r': p['r']}
                res = self.loop_core(y, fr, s, None, bodyf, None)
                o['n'] += res['n']
                o['r'] += res['r']
        o['n'] = dedupe(o['n'])
        return o

    def forget(self, h, changed, tag):
        s = h.copy()
        for k in changed:
            old = s.mem.get(k)
            if k[0] == 'alias':
                s.mem.pop(k, None)
                continue
            if old is not None and old[0] in ('begin', 'iter', 'find'):
                s.mem[k] = ('iter', old[1], ('lv', tag))
            else:
                nv = ('lv', tag, k)
                if old is not None:
                    r = self.ranges.get(old)
                    if r:
                        self.ranges[nv] = r
                    elif num(old) is not None or old[0] == 'lin':
                        t = self.key_type.get(k)
                        if t:
                            self.ranges[nv] = t
                s.mem[k] = nv
        return self.cfg.after_havoc(self, s, list(changed))

    key_type = {}
    ptr_type = {}       # location -> type of the object, where its address was taken

    def loop_core(self, h, fr, node, condf, bodyf, _):
        o = {'n': [], 'b': [], 'c': [], 'r': []}
        if self.cfg.unroll:
            heads, exits = [h], []
            for it in range(self.cfg.unroll + 1):
                nxt = []
                for x in heads:
                    T, F = condf(x) if condf else ([x], [x])
                    exits += F
                    if it >= self.cfg.unroll:
                        continue
                    for t in T:
                        p = bodyf(t)
                        exits += p['b']
                        o['r'] += p['r']
                        nxt += p['n']
                heads = dedupe(nxt)
                if not heads:
                    break
            o['n'] = dedupe(exits)
            return o
        tag = self.fid(('loop', fr.fid, node.get('l'), node.get('s') or node.get('c', 0)))
        # 1. what can an iteration change?
        changed = set()
        self.quiet += 1
        self.sinks.append([])
        try:
            for _r in range(8):
                hh = self.forget(h, changed, tag) if changed else h
                T = condf(hh)[0] if condf else [hh]
                ends = []
                for t in T:
                    ends += bodyf(t)['n']
                new = set()
                for e in ends:
                    for k in set(e.mem) | set(hh.mem):
                        if e.mem.get(k) != hh.mem.get(k):
                            # locals of the body itself are dead at the head
                            if k not in hh.mem and k[0] in ('var', 'alias') and not self.outlives(k, h):
                                continue
                            if k not in hh.mem and k[0] == 'tmp':
                                continue
                            new.add(k)
                new -= changed
                if not new:
                    break
                changed |= new
        finally:
            self.quiet -= 1
            self.sinks.pop()
        head = self.forget(h, changed, tag) if changed else h
        if self.cfg.linear and changed:
            head = self.houdini(h, head, changed, condf, bodyf)
        if not self.quiet:
            self.cfg.loop_enter(self, h, head, changed, node)
        heads = [head]
        seen = set()
        exits = []
        for it in range(self.cfg.loop_iters + 1):
            nxt = []
            for x in heads:
                k = (x.tr, x.ts)
                if k in seen:
                    continue
                seen.add(k)
                if condf:
                    T, F = condf(x)
                else:
                    T, F = [x], [x]
                exits += F
                if it >= self.cfg.loop_iters:
                    continue
                for t in T:
                    p = bodyf(t)
                    exits += p['b']
                    o['r'] += p['r']
                    if not self.quiet:
                        self.cfg.iter_end(self, x, p['n'] + p['b'], node)
                    for e in p['n']:
                        y = head.copy()
                        y.tr, y.ts = self.cfg.reduce_trace(e.tr), e.ts
                        nxt.append(y)
            heads = dedupe(nxt)
            if not heads:
                break
        o['n'] = dedupe(exits)
        return o

    def houdini(self, h, head, changed, condf, bodyf):
        """keep the largest inductive subset of the candidate invariants"""
        cand = self.cfg.loop_candidates(self, h, head, changed)
        cand = [c for c in cand if self.entails(h, c(h))]
        while cand:
            x = head.copy()
            for c in cand:
                t = c(x)
                x.facts[('<', t, ('int', 0))] = False
            self.quiet += 1
            self.sinks.append([])
            try:
                ends = []
                for t in (condf(x)[0] if condf else [x]):
                    ends += bodyf(t)['n']
            finally:
                self.quiet -= 1
                self.sinks.pop()
            good = [c for c in cand if all(self.entails(e, c(e)) for e in ends)]
            if len(good) == len(cand):
                return x
            cand = good
        return head

    def outlives(self, k, h):
        return False

    def flatten_switch(self, b):
        items = []
        body = b['b'] if b and b['s'] == 'block' else [b]
        for x in body:
            labels = []
            while x is not None and x['s'] in ('case', 'default'):
                labels.append(x)
                x = x['b']
            items.append((labels, x))
        return items

    def ex_switch(self, s, st, fr):
        o = {'n': [], 'b': [], 'c': [], 'r': []}
        sts = [st]
        if s.get('init'):
            sts = self.ex(s['init'], st, fr)['n']
        items = self.flatten_switch(s['b'])
        for x in sts:
            for y, v in self.ev(s['c'], x, fr):
                entry = {}
                rest = [y]
                deflt = None
                for i, (labels, _) in enumerate(items):
                    for lb in labels:
                        if lb['s'] == 'default':
                            deflt = i
                            continue
                        nr = []
                        for z in rest:
                            cv = self.const_of(lb['v'])
                            if cv is None:
                                cv = self.ev(lb['v'], z, fr)[0][1]
                            at, p = self.atom_eq(v, cv)
                            t, f = self.split(z, at, p)
                            entry.setdefault(i, []).extend(t)
                            nr += f
                        rest = nr
                if deflt is not None:
                    entry.setdefault(deflt, []).extend(rest)
                else:
                    o['n'] += rest
                active = []
                for i, (labels, stm) in enumerate(items):
                    active = dedupe(active + entry.get(i, []))
                    nx = []
                    for z in active:
                        p = self.ex(stm, z, fr)
                        nx += p['n']
                        o['n'] += p['b']
                        o['c'] += p['c']
                        o['r'] += p['r']
                    active = nx
                o['n'] += active
        o['n'] = dedupe(o['n'])
        return o

    def ex_try(self, s, st, fr):
        self.sinks.append([])
        o = self.ex(s['b'], st, fr)
        thrown = self.sinks.pop()
        for x, t, v, w in thrown:
            for h in s['h']:
                if 't' not in h or t == '<rethrow>' or self.is_a(t, h['t']):
                    if 'v' in h and h['v'].get('n'):
                        x = self.store_raw(x, ('var', h['v']['d'], fr.fid), ('exc', t, v))
                    p = self.ex(h['b'], x, fr)
                    o['n'] += p['n']
                    self.merge(o, p)
                    break
            else:
                if self.sinks:
                    self.sinks[-1].append((x, t, v, w))
        o['n'] = dedupe(o['n'])
        return o

    # -- entry ------------------------------------------------------------------------
    def run(self, fn, this=('ptr', ('obj', 'this')), args=None, st=None, caps=()):
        """analyse one function from an unknown state.
        -> (list of (st, val, loc), list of thrown)"""
        self.analysed.add(fn['id'])
        if st is None:
            st = St()
        fid = self.fid(('entry', fn['id']))
        fr = Frame(fn, fid, this if fn.get('m') and not fn.get('st') or fn.get('lam') else None, (fn['id'],), 0)
        if args is None:
            args = []
            for i, p in enumerate(fn['p']):
                v = ('arg', p['n'] or str(i))
                self.set_range(v, p)
                if p['pm'] in ('ptr', 'cptr'):
                    v = ('arg', p['n'] or str(i))
                args.append(v)
            locs = []
            for i, p in enumerate(fn['p']):
                if p['pm'] in ('ref', 'cref', 'rref'):
                    l = ('obj', p['n'] or 'arg%d' % i)
                    locs.append(l)
                    args[i] = ('ld', l, st.ep)
                    self.set_range(args[i], p)
                else:
                    locs.append(None)
        else:
            locs = [None] * len(args)
        self.sinks.append([])
        try:
            out = self.run_frame(fn, st, fr, tuple(args), tuple(locs), caps)
        finally:
            thrown = self.sinks.pop()
        return out, thrown
