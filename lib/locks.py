"""Lockset analysis over the resolved syntax trees: for every function, what it accesses, calls, acquires and invokes, and which locks are held there.

A lock is (class, mutex member). Scopes of lock_guard, unique_lock, scoped_lock and shared_lock are followed lexically, with unlock()/lock();
a private method starts with the locks held at every one of its call sites; a lambda starts with the locks held where it is created only if it is passed to a
standard algorithm (which runs it there), otherwise with none."""
from absint import base_qn
from checklib import NS

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock', 'boost::unique_lock', 'boost::shared_lock', 'boost::lock_guard',
          'boost::upgrade_lock', 'boost::upgrade_to_unique_lock')
SYNC = ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'transform', 'remove_if', 'sort', 'copy_if', 'stable_sort', 'partition',
        'stable_partition', 'accumulate', 'generate', 'max_element', 'min_element', 'visit', 'call_once', 'lower_bound', 'erase_if', 'invoke', 'apply')


# take what they are given by (forwarding) reference only to copy it
FWD = ('make_shared', 'make_unique', 'make_pair', 'make_tuple', 'emplace', 'emplace_back', 'emplace_front', 'try_emplace', 'push_back', 'forward', 'begin', 'end',
       'cbegin', 'cend', 'size', 'tie', 'get', 'bind', 'cref', 'make_optional', 'find', 'distance', 'emplace_hint', 'insert', 'allocate_shared')

# non-const overloads that change nothing themselves
LOOK = ('find', 'begin', 'end', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'equal_range', 'front', 'back', 'at', 'data', 'value', 'count')


class Fn:
    __slots__ = ('f', 'acc', 'calls', 'acq', 'cb', 'rets', 'lams', 'esc', 'end', 'passed')

    def __init__(self, f):
        self.f, self.acc, self.calls, self.acq, self.cb, self.rets, self.lams = f, [], [], [], [], [], []
        self.esc = []
        self.passed = []
        self.end = frozenset()


class Locks:
    def __init__(self, P, want=lambda f: 'libamqpprox/' in f['file'] or f['file'].startswith('amqpprox/')):
        self.P = P
        self.mutexes = {}
        for q, r in P.records.items():
            b = base_qn(q)
            for f in r.get('fields', ()):
                if 'mutex' in f['t'] and b.startswith(NS):
                    self.mutexes.setdefault(b, set()).add(f['n'])
        self.fns = {}
        for i, f in P.functions.items():
            if f.get('b') and want(f):
                self.fns[i] = self.scan(f)
        self.entry_locks()

    # ---------------------------------------------------------------- per function
    def scan(self, f):
        R = Fn(f)
        self.R = R
        self.guards = {}
        self.aliases = {}
        self.derived = {}
        self.lamvars = {}
        self.fparams = {p.get('d'): p for p in f.get('p', ())}
        for i in f.get('inits', ()) or ():
            self.expr(i.get('e') or i.get('i'), frozenset())
        R.end = self.stmt(f['b'], frozenset())
        return R

    def lockid(self, e):
        if not isinstance(e, dict):
            return None
        if e.get('k') == 'ref' and e.get('d') in self.guards:
            return self.guards[e['d']][0] if self.guards[e['d']] else None
        if e.get('k') == 'mem' and 'mutex' in e.get('t', ''):
            return (base_qn(e.get('fc', '')), e['f'])
        if e.get('k') == 'ref' and 'mutex' in e.get('t', ''):
            a = self.aliases.get(e.get('d'))
            return a or ('local', e.get('n'))
        for k in ('e', 'o', 'b'):
            if isinstance(e.get(k), dict):
                r = self.lockid(e[k])
                if r:
                    return r
        return None

    def stmt(self, n, held):
        """-> locks held after"""
        if isinstance(n, list):
            for x in n:
                held = self.stmt(x, held)
            return held
        if not isinstance(n, dict):
            return held
        s = n.get('s')
        if s is None:
            return self.expr(n, held)
        if s == 'block':
            h = self.stmt(n['b'], held)
            return held & h
        if s == 'decl':
            for v in n['v']:
                cl = base_qn(v.get('cl') or v.get('t') or '')
                if cl in GUARDS or any(v.get('t', '').startswith(g) for g in GUARDS):
                    ids = []
                    i = v.get('i') or {}
                    defer = False
                    for a in i.get('a', ()):
                        if 'defer_lock' in str(a.get('t', '')) or 'defer_lock' in str(a.get('n', '')):
                            defer = True
                        l = self.lockid(a)
                        if l:
                            ids.append(l)
                    if cl.endswith(('shared_lock', 'upgrade_lock')):
                        ids = [l[:2] + ('S',) for l in ids]
                    elif cl.endswith('upgrade_to_unique_lock'):
                        ids = [l[:2] for l in ids]
                    self.guards[v['d']] = ids
                    if not defer:
                        for l in ids:
                            self.R.acq.append((l, held, v.get('l')))
                            held = held | {l}
                else:
                    if 'mutex' in v.get('t', '') and v.get('i'):
                        self.aliases[v['d']] = self.lockid(v['i'])
                    lam = find_lambda(v.get('i'))
                    if lam is not None and 'std::function' not in v.get('t', ''):
                        self.lamvars[v['d']] = tuple(lam.get('fns', ()))
                        self.captures(lam, held)
                    elif v.get('i'):
                        held = self.expr(v['i'], held, ref=is_mutref(v.get('t', '')))
                    self.derive(v, v.get('i'))
            return held
        if s == 'expr':
            return self.expr(n['e'], held)
        if s == 'return':
            self.R.rets.append((n.get('e'), held, n.get('l')))
            if n.get('e'):
                self.expr(n['e'], held)
                if into(self.R.f.get('rt') or self.R.f.get('t') or self.R.f.get('r') or '', n['e']):
                    for r in self.root(n['e']):
                        self.R.esc.append(r + (n.get('l'),))
            return held
        if s == 'if':
            h = self.stmt(n.get('init'), held) if n.get('init') else held
            h = self.stmt(n.get('v'), h) if n.get('v') else h
            h = self.expr(n['c'], h)
            a = self.stmt(n.get('x'), h)
            b = self.stmt(n.get('y'), h) if n.get('y') else h
            if leaves(n.get('x')):
                a = b
            if n.get('y') and leaves(n.get('y')):
                b = a
            return held & a & b if not (n.get('init') or n.get('v')) else held & a & b
        # loops, switch, try ...
        h = held
        for k in ('init', 'v', 'r', 'c', 'b', 'i', 'inc', 'h', 'x', 'y', 'e'):
            x = n.get(k)
            if isinstance(x, (dict, list)):
                if k == 'h':
                    for y in (x if isinstance(x, list) else [x]):
                        self.stmt(y.get('b', y) if isinstance(y, dict) else y, held)
                elif k == 'v' and isinstance(x, dict) and 's' not in x and 'k' not in x:
                    if x.get('i'):
                        self.expr(x['i'], h)
                    if n.get('r') is not None and x.get('t', '').rstrip().endswith('&'):
                        rs = self.root(n['r'])
                        if rs:
                            self.derived[x['d']] = rs
                            if is_mutref(x['t']):
                                pass
                else:
                    h2 = self.stmt(x, h)
                    if k in ('init', 'v'):
                        h = h2
                    elif k == 'b':
                        held = held & h2
        return held

    # ---------------------------------------------------------------- aliases of locked state
    def root(self, e, d=0):
        """the (class, field) whose contents e designates or points into"""
        if not isinstance(e, dict) or d > 12:
            return frozenset()
        k = e.get('k')
        if k == 'mem':
            c = base_qn(e.get('fc', ''))
            if c in self.mutexes:
                if e['f'] in self.mutexes[c]:
                    return frozenset()
                return frozenset({(c, e['f'])})
            return self.root(e.get('b'), d + 1)
        if k == 'ref':
            return self.derived.get(e.get('d'), frozenset())
        if k in ('icast', 'cast', 'un', 'idx', 'paren'):
            return self.root(e.get('e') or e.get('b'), d + 1)
        if k == 'cond':
            return self.root(e.get('x'), d + 1) | self.root(e.get('y'), d + 1)
        if k == 'ctor':
            r = frozenset()
            for a in e.get('a', ()) or ():
                r |= self.root(a, d + 1)
            return r
        if k == 'call':
            o = e.get('o')
            if o is not None:
                oc = base_qn(e.get('cl', ''))
                if oc in ('std::shared_ptr', 'std::weak_ptr', 'std::unique_ptr') and (e.get('op') in ('->', '*') or nm(e) in ('get', 'lock')):
                    if oc != 'std::unique_ptr' or any(m in e.get('t', '') for m in self.mutexes):
                        # the pointee synchronises itself, but a unique_ptr's pointee lives only as long as the field keeps it
                        return frozenset((c, f, 'owned') for c, f, *_ in self.root(o, d + 1)) if oc == 'std::unique_ptr' else frozenset()
                return self.root(o, d + 1)
            if nm(e) in ('move', 'forward', 'begin', 'end', 'next', 'prev', 'find', 'find_if', 'get', 'as_const', 'ref', 'cref', 'lower_bound', 'addressof', 'data', 'max_element', 'min_element'):
                r = frozenset()
                for a in e.get('a', ())[:1]:
                    r |= self.root(a, d + 1)
                return r
        return frozenset()

    def derive(self, v, i):
        if i is not None and into(v.get('t', ''), i):
            r = frozenset(x for x in self.root(i) if len(x) == 2)
            if r:
                self.derived[v['d']] = self.derived.get(v['d'], frozenset()) | r

    def captures(self, lam, held):
        for c in lam.get('caps', ()):
            if isinstance(c, dict):
                i = c.get('i') or c.get('e')
                if isinstance(i, dict):
                    self.expr(i, held)

    # ---------------------------------------------------------------- expressions
    def access(self, e, mode, held):
        self.R.acc.append((base_qn(e.get('fc', '')), e['f'], mode, held, e.get('l'), (e.get('b') or {}).get('k') == 'this'))

    def lval(self, e, held):
        """e is written through (or bound to something that may write)"""
        if not isinstance(e, dict):
            return held
        k = e.get('k')
        if k == 'mem':
            self.access(e, 'w', held)
            b = e.get('b') or {}
            if b.get('k') == 'mem' and not e.get('ar'):
                return self.lval(b, held)
            return self.expr(b, held)
        if k == 'ref' and e.get('d') in self.derived and not iterish(e.get('t', '')):
            for c, f in self.derived[e['d']]:
                self.R.acc.append((c, f, 'w', held, e.get('l'), True))
            return held
        if k in ('icast', 'cast') and e.get('e'):
            return self.lval(e['e'], held)
        if k == 'idx':
            self.expr(e.get('i'), held)
            return self.lval(e.get('b'), held)
        if k == 'un' and e.get('op') == '*':
            return self.expr(e.get('e'), held)
        if k == 'call' and e.get('o') is not None and not e.get('ar') and e.get('op') in ('[]',) or k == 'call' and e.get('o') is not None and not e.get('ar') and nm(e) in ('at', 'front', 'back', 'value'):
            self.R.calls.append((e.get('fn'), e.get('qn', ''), held, e.get('l'), e))
            for a in e.get('a', ()):
                self.expr(a, held)
            return self.lval(e['o'], held)
        return self.expr(e, held)

    def expr(self, e, held, ref=False):
        if isinstance(e, list):
            for x in e:
                held = self.expr(x, held)
            return held
        if not isinstance(e, dict):
            return held
        if 's' in e and isinstance(e['s'], str) and 'k' not in e:
            return self.stmt(e, held)
        if ref:
            return self.lval(e, held)
        k = e.get('k')
        if k == 'mem':
            self.access(e, 'r', held)
            return self.expr(e.get('b'), held)
        if k == 'ref' and e.get('d') in self.derived:
            for c, f in self.derived[e['d']]:
                self.R.acc.append((c, f, 'r', held, e.get('l'), True))
            return held
        if k == 'ref' and e.get('d') in self.lamvars:
            self.R.lams.append((self.lamvars[e['d']], frozenset(), e.get('l'), False))
            return held
        if k == 'asg' or k == 'call' and e.get('op') == '=' and e.get('o') is not None and e.get('a'):
            x, y = (e['x'], e['y']) if k == 'asg' else (e['o'], e['a'][0])
            if x.get('k') == 'ref' and into(x.get('t', ''), y):
                self.derive({'d': x.get('d'), 't': x.get('t', '')}, y)
        if k == 'asg':
            held = self.lval(e['x'], held)
            return self.expr(e['y'], held)
        if k == 'un':
            if e.get('op') in ('++', '--', '&'):
                return self.lval(e['e'], held)
            return self.expr(e['e'], held)
        if k == 'lambda':
            for c in e.get('caps', ()):
                if isinstance(c, dict):
                    i = c.get('i') or c.get('e')
                    if isinstance(i, dict):
                        self.expr(i, held)
            self.R.lams.append((tuple(e.get('fns', ())), frozenset(), e.get('l'), False))
            return held
        if k == 'call':
            n, o = nm(e), e.get('o')
            if n == 'operator()' and o is not None and o.get('k') == 'ref' and o.get('d') in self.lamvars:
                for a in e.get('a', ()):
                    held = self.expr(a, held)
                self.R.lams.append((self.lamvars[o['d']], held, e.get('l'), True))
                return held
            if n == 'operator()' and o is not None and o.get('k') == 'lambda':
                self.captures(o, held)
                self.R.lams.append((tuple(o.get('fns', ())), held, e.get('l'), True))
                return held
            if o is not None and n in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock'):
                ids = self.guards.get(o.get('d')) if o.get('k') == 'ref' else None
                if ids is None and 'mutex' in o.get('t', ''):
                    l = self.lockid(o)
                    ids = [l + ('S',) if n.endswith('shared') else l] if l else None
                if ids is not None:
                    raw = {('RAW', l) for l in ids} if not (o.get('k') == 'ref' and o.get('d') in self.guards) else set()
                    if n.startswith('unlock'):
                        return held - set(ids) - {('RAW', l) for l in ids}
                    for l in ids:
                        self.R.acq.append((l, held, e.get('l')))
                    return held | set(ids) | raw
            if o is not None:
                if e.get('cst') is False and not e.get('ar') and not pointerish(e) and not (n in LOOK and base_qn(e.get('qn', '')).startswith('std::')):
                    self.lval(o, held)
                else:
                    held = self.expr(o, held)
            if n == 'operator()' and o is not None and ('std::function' in e.get('cl', '') or o.get('vk') == 'param' or 'std::function' in o.get('t', '')):
                self.R.cb.append((held, e.get('l'), o))
            pm = e.get('pm') or []
            sync = n in SYNC and base_qn(e.get('qn', '')).startswith(('std::', 'boost::')) 
            for i, a in enumerate(e.get('a', ())):
                m = pm[i] if i < len(pm) else None
                if isinstance(a, dict) and a.get('k') == 'lambda' or find_lambda(a):
                    lam = a if a.get('k') == 'lambda' else find_lambda(a)
                    if not sync and e.get('fn') in self.P.functions:
                        self.R.passed.append((tuple(lam.get('fns', ())), held, lam.get('l'), e['fn'], i))
                    else:
                        self.R.lams.append((tuple(lam.get('fns', ())), held if sync else frozenset(), lam.get('l'), sync))
                    for c in lam.get('caps', ()):
                        if isinstance(c, dict) and isinstance(c.get('i') or c.get('e'), dict):
                            self.expr(c.get('i') or c.get('e'), held)
                    continue
                if m == 'ref' and not (base_qn(e.get('qn', '')).startswith('std::') and n in FWD):
                    self.lval(a, held)
                else:
                    held = self.expr(a, held)
            self.R.calls.append((e.get('fn'), e.get('qn', ''), held, e.get('l'), e))
            return held
        if k == 'ctor' or k == 'new':
            pm = e.get('pm') or []
            if k == 'ctor' and base_qn(e.get('cl', '')) in GUARDS:
                # a temporary guard: held for the full expression only
                return held
            for i, a in enumerate(e.get('a', ()) or ()):
                if i < len(pm) and pm[i] == 'ref':
                    self.lval(a, held)
                else:
                    held = self.expr(a, held)
            if e.get('i'):
                held = self.expr(e['i'], held)
            if e.get('fn'):
                self.R.calls.append((e.get('fn'), e.get('cl', ''), held, e.get('l'), e))
            return held
        for kk, x in e.items():
            if isinstance(x, (dict, list)) and kk not in ('pm', 'ta'):
                held = self.expr(x, held)
        return held

    # ---------------------------------------------------------------- private methods, lambdas
    def entry_locks(self):
        """locks certainly held on entry: private methods from their call sites, lambdas from where they run"""
        TOP = None
        ent = {}
        for i, R in self.fns.items():
            f = R.f
            if f.get('lam'):
                ent[i] = TOP
            elif f.get('acc') in (1, 2) and f.get('kind') not in ('ctor', 'dtor') or (not f.get('m') and '(anonymous' in f['qn']):
                ent[i] = TOP
            else:
                ent[i] = frozenset()
        # a lambda given to one of our own functions that calls it then and there
        self.given = {}
        for i, R in self.fns.items():
            for ids, held, l, fn, k in R.passed:
                G = self.fns.get(fn)
                at = None
                if G is not None and k < len(G.f.get('p', ())):
                    d = G.f['p'][k].get('d')
                    at = [h for h, l2, o in G.cb if refd(o) == d]
                if at:
                    for h in at:
                        R.lams.append((ids, held | h, l, True))
                    self.given.setdefault(fn, set()).add(k)
                else:
                    R.lams.append((ids, frozenset(), l, False))
        sync = {}
        for i, R in self.fns.items():
            for ids, held, l, s in R.lams:
                for x in ids:
                    if s:
                        sync[x] = True
        self.escaping = set()
        for i, R in self.fns.items():
            n = {}
            for ids, held, l, s in R.lams:
                for x in ids:
                    n.setdefault(x, []).append(s)
            # a lambda held in a variable that is also passed on
            self.escaping |= {x for x, ss in n.items() if True in ss and ss.count(False) > 1}
        for r in range(12):
            new = {i: (frozenset() if v == frozenset() and not self.fns[i].f.get('lam') else TOP) for i, v in ent.items()}
            for i, R in self.fns.items():
                base = ent[i] if ent[i] is not None else None
                if base is None and r == 0:
                    continue
                base = base or frozenset()
                single = R.f.get('kind') in ('ctor', 'dtor')
                for ids, held, l, s in R.lams:
                    for x in ids:
                        if x in new:
                            h = (held | base) if s else (frozenset() if not sync.get(x) or (x in self.escaping) else None)
                            if h is not None:
                                new[x] = h if new[x] is None else new[x] & h
                for fn, qn, held, l, e in R.calls:
                    if fn in new and not (ent0(self.fns[fn].f)):
                        if single and base_qn(R.f.get('cl') or '') == base_qn(self.fns[fn].f.get('cl') or ''):
                            continue  # no other thread knows the object yet (or any more)
                        h = held | base
                        new[fn] = h if new[fn] is None else new[fn] & h
            if new == ent:
                break
            ent = new
        self.unreached = {i for i, v in ent.items() if v is None}
        self.entry = {i: (v if v is not None else frozenset()) for i, v in ent.items()}


def ent0(f):
    """may be entered from anywhere"""
    if f.get('lam'):
        return False
    return not (f.get('acc') in (1, 2) and f.get('kind') not in ('ctor', 'dtor') or (not f.get('m') and '(anonymous' in f['qn']))


def nm(e):
    return base_qn(e.get('qn', '')).rsplit('::', 1)[-1] if not e.get('qn', '').endswith('operator()') else 'operator()'


def is_mutref(t):
    t = t.strip()
    return t.endswith('&') and not t.startswith('const ') and ' const &' not in t


def pointerish(e):
    return e.get('op') in ('->', '*') or nm(e) in ('get', 'lock')


def find_lambda(a, d=0):
    if not isinstance(a, dict) or d > 4:
        return None
    if a.get('k') == 'lambda':
        return a
    if a.get('k') in ('icast', 'cast', 'ctor'):
        for x in ([a.get('e')] if a.get('e') else list(a.get('a', ()) or ())):
            r = find_lambda(x, d + 1)
            if r:
                return r
    return None


def leaves(n):
    while isinstance(n, dict) and n.get('s') == 'block' and n['b']:
        n = n['b'][-1]
    return isinstance(n, dict) and (n.get('s') in ('return', 'break', 'continue') or n.get('s') == 'expr' and (n.get('e') or {}).get('k') == 'throw')


def iterish(t):
    return 'iterator' in t.split('<')[0] or 'string_view' in t.split('<')[0] or 'span' in t.split('<')[0]


def into(t, e):
    """does a value of this type, made from e, refer into what e designates?"""
    t = t.strip()
    if t.endswith('&') or iterish(t.replace('const ', '')):
        return True
    if t.endswith('*'):
        while isinstance(e, dict) and e.get('k') in ('icast', 'cast') and e.get('e'):
            e = e['e']
        if not isinstance(e, dict):
            return False
        if e.get('k') == 'cond':
            return into(t, e.get('x')) or into(t, e.get('y'))
        return e.get('k') == 'un' and e.get('op') == '&' or e.get('k') == 'call' and nm(e) in ('data', 'c_str', 'get', 'addressof')  or e.get('k') == 'ref'
    return False


def refd(o):
    while isinstance(o, dict) and o.get('k') in ('icast', 'cast') and o.get('e'):
        o = o['e']
    if isinstance(o, dict) and o.get('k') == 'call' and nm(o) == 'forward' and o.get('a'):
        return refd(o['a'][0])
    return o.get('d') if isinstance(o, dict) and o.get('k') == 'ref' else None
