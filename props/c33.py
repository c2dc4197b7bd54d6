"""C33: loops make progress and never walk removed positions."""
from checklib import *
from tab import *

EXPLANATION = ('Every loop of the library is decomposed into the paths through its body. Each path that goes round again must change what the loop condition depends on, '
               'in the direction that ends it; a position in a container that was handed to erase must be set again before it is used; '
               'a container that is being walked by a range-for must not be changed, directly or through a member function, on a path that goes round again.')
LOOK = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'data', 'at', 'front', 'back', 'get', 'operator[]', 'operator*', 'operator->', 'lower_bound', 'upper_bound',
        'equal_range', 'size', 'empty', 'count', 'c_str', 'lock', 'unlock', 'value', 'operator bool', 'equal', 'available', 'ptr', 'offset', 'originalPtr', 'str', 'native_handle'}
CHANGE = {'erase', 'insert', 'emplace', 'push_back', 'emplace_back', 'clear', 'pop_back', 'pop_front', 'push_front', 'emplace_front', 'resize', 'try_emplace', 'insert_or_assign', 'extract', 'merge', 'swap'}
SHRINK = {'erase', 'clear', 'pop_back', 'pop_front', 'pop', 'resize', 'extract'}
CAP = 400


def strip(e):
    while isinstance(e, dict) and (e.get('k') in ('icast', 'cast') or e.get('k') == 'ctor' and len(e.get('a') or ()) == 1 and (e.get('cm') in ('copy', 'move') or 'iterator' in (e.get('cl') or ''))):
        e = e.get('e') if e['k'] in ('icast', 'cast') else e['a'][0]
    return e


def iterish(t):
    return 'iterator' in (t or '')


class F:
    """paths of one function"""

    def __init__(self, P, f):
        self.P, self.f, self.alias = P, f, {}
        self.lams = {}

    def root(self, e):
        e = strip(e)
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'ref':
                d = e.get('d')
                return self.alias.get(d, ('v', d))
            if k == 'mem':
                b = strip(e.get('b'))
                if b and b.get('k') == 'this':
                    return ('f', e['f'])
                e = b
            elif k == 'this':
                return ('this',)
            elif k == 'un' or k == 'asg':
                e = strip(e.get('e') or e.get('x'))
            elif k == 'call' and e.get('o') is not None:
                e = strip(e['o'])
            elif k == 'call' and e.get('op') and e.get('a'):
                e = strip(e['a'][0])
            elif k == 'idx' or k == 'sub':
                e = strip(e.get('b') or e.get('x'))
            else:
                return None
        return None

    def direct(self, e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'un' and e.get('op') == '*':
            e = strip(e.get('e'))
        if isinstance(e, dict) and (e.get('k') == 'ref' or e.get('k') == 'mem' and (strip(e.get('b')) or {}).get('k') == 'this'):
            return self.root(e)
        return None

    def vars(self, e, deep=True):
        out = set()
        for n in nodes(e):
            if n.get('k') in ('ref', 'mem'):
                r = self.root(n)
                if r:
                    out.add(r)
                    for fid in self.lams.get(r, ()) if deep else ():
                        out |= self.vars((self.P.functions.get(fid) or {}).get('b'), False)
        return out

    def ev(self, e, out):
        """events of an expression, in order of evaluation (approximately: operands first)"""
        if isinstance(e, list):
            for x in e:
                self.ev(x, out)
            return
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'lambda':
            return
        if k == 'ref' or k == 'mem' and (strip(e.get('b')) or {}).get('k') == 'this':
            r = self.root(e)
            if r:
                out.append(('use', r))
            return
        if k == 'asg':
            self.ev(e.get('y'), out)
            d = self.direct(e.get('x'))
            if d:
                op = e.get('op') or '='
                if op != '=':
                    out.append(('use', d))
                out.append(('set', d, '+' if op == '+=' else '-' if op == '-=' else '?'))
            else:
                self.ev(e.get('x'), out)
                r = self.root(e.get('x'))
                if r:
                    out.append(('mod', r, 'assign'))
            return
        if k == 'un' and e.get('op') in ('++', '--'):
            d = self.root(e.get('e'))
            if d:
                out.append(('use', d))
                out.append(('set', d, e['op'][0]))
            return
        if k == 'call':
            op, args, o = e.get('op'), list(e.get('a') or ()), e.get('o')
            name = (e.get('qn') or '').rsplit('::', 1)[-1]
            if op == '=' or name == 'operator=':
                lhs = o if o is not None else args.pop(0) if args else None
                self.ev(args, out)
                d = self.direct(lhs)
                if d:
                    out.append(('set', d, '?'))
                elif lhs is not None:
                    self.ev(lhs, out)
                    r = self.root(lhs)
                    if r:
                        out.append(('mod', r, 'assign'))
                return
            if op in ('++', '--', '+=', '-='):
                lhs = o if o is not None else args.pop(0) if args else None
                d = self.direct(lhs)
                self.ev(args, out)
                if d:
                    out.append(('use', d))
                    out.append(('set', d, op[0]))
                    return
            if o is not None:
                self.ev(o, out)
            self.ev(args, out)
            if o is None and op == '()' and args or o is not None and op == '()':
                lv = self.direct(o if o is not None else args[0])
                for fid in self.lams.get(lv, ()):
                    lf = self.P.functions.get(fid)
                    if lf:
                        sub = []
                        for n in nodes(lf.get('b')):
                            if n.get('k') in ('asg', 'call') or n.get('k') == 'un' and n.get('op') in ('++', '--'):
                                self.ev(n, sub)
                        out += [x for x in sub if x[0] in ('set', 'mod')]
            r = self.root(o) if o is not None else None
            if o is not None and r and e.get('cst') is False and name not in LOOK and not e.get('st'):
                out.append(('mod', r, name))
                if name == 'erase' and args:
                    d = self.direct(args[0])
                    a0 = strip(args[0])
                    if d and iterish((a0 or {}).get('t')):
                        out.append(('erase', d, r))
            if (o is None or strip(o).get('k') == 'this') and e.get('fn'):
                out.append(('callthis', e['fn']))
            pm = e.get('pm') or ()
            for i, a in enumerate(args):
                m = pm[i] if i < len(pm) else 'ref'
                if m in ('ref', 'ptr', 'rref', 'fwd'):
                    b = strip(a)
                    if isinstance(b, dict) and b.get('k') == 'un' and b.get('op') == '&':
                        b = b.get('e')
                    d = self.root(b)
                    if d and d != ('this',):
                        out.append(('mod', d, name))
            return
        if k == 'ctor':
            self.ev(e.get('a') or [], out)
            pm = e.get('pm') or ()
            for i, a in enumerate(e.get('a') or ()):
                if i < len(pm) and pm[i] in ('ref', 'ptr'):
                    d = self.root(a)
                    if d and d != ('this',):
                        out.append(('mod', d, 'ctor'))
            return
        if k == 'bin' or k == 'cond':
            # operands that may not be evaluated only count as uses
            self.ev([e[x] for x in ('c', 'x', 'y', 'e') if x in e], out)
            return
        for x in ('b', 'o', 'x', 'y', 'e', 'c', 'i'):
            if x in e:
                self.ev(e[x], out)
        if 'a' in e:
            self.ev(e['a'], out)

    def events(self, e):
        out = []
        self.ev(e, out)
        return tuple(out)

    def decl(self, v):
        """declaration: aliases"""
        i = v.get('i')
        t = v.get('t') or ''
        if i is None:
            return ()
        s = strip(i)
        if t.endswith('&') or t.endswith('*') or v.get('ref'):
            if isinstance(s, dict) and s.get('k') == 'un' and s.get('op') == '&':
                s = s.get('e')
            if t.endswith('&'):
                r = self.root(s)
                if r:
                    self.alias[v['d']] = r
        if isinstance(s, dict) and s.get('k') == 'lambda':
            self.lams[('v', v['d'])] = s.get('fns') or ()
        return self.events(i) + (('set', ('v', v['d']), '?'),)

    def seq(self, paths, more):
        """paths: set of (kind, events) ; continue those that fall through"""
        out = set()
        for k, ev in paths:
            if k != 'next':
                out.add((k, ev))
            else:
                for k2, ev2 in more:
                    out.add((k2, ev + ev2))
                    if len(out) > CAP:
                        raise OverflowError
        return out

    def paths(self, s):
        N = ('next', ())
        if s is None:
            return {N}
        if isinstance(s, list):
            ps = {N}
            for x in s:
                ps = self.seq(ps, self.slim(self.paths(x)))
            return ps
        t = s.get('s')
        if t == 'block':
            return self.slim(self.paths(s.get('b') or []))
        if t == 'decl':
            ev = ()
            for v in s.get('v') or ():
                ev += self.decl(v)
            return {('next', ev)}
        if t == 'expr':
            e = s.get('e') or {}
            if isinstance(strip(e), dict) and strip(e).get('k') == 'throw':
                return {('return', self.events(e))}
            return {('next', self.events(e))}
        if t == 'return':
            return {('return', self.events(s.get('e')))}
        if t in ('break', 'continue'):
            return {(t, ())}
        if t == 'if':
            ps = self.seq(self.paths(s.get('init')), {('next', (self.decl(s['cvar']) if s.get('cvar') else ()) + self.events(s.get('c')))})
            return self.seq(ps, self.paths(s.get('x')) | self.paths(s.get('y')))
        if t == 'switch':
            return self.switch(s)
        if t in ('case', 'default'):
            return self.paths(s.get('b'))
        if t in ('while', 'do', 'for', 'rfor'):
            pre = self.paths(s.get('init'))
            if t == 'rfor':
                pre = self.seq(pre, {('next', self.events(s.get('r')))})
            c = {('next', self.events(s.get('c')))}
            body = {('next' if k in ('next', 'continue', 'break') else k, ev) for k, ev in self.paths(s.get('b'))}
            body = self.seq(body, {('next', self.events(s.get('inc')))})
            return self.slim(self.seq(self.seq(pre, c), body | ({N} if t != 'do' else set())))
        if t == 'try':
            out = set(self.paths(s.get('b')))
            for h in s.get('h') or ():
                out |= self.paths(h.get('b'))
            return out
        if 'b' in s and t not in ('null',):
            return self.paths(s['b'])
        return {N}

    def switch(self, s):
        ps = self.seq(self.paths(s.get('init')), {('next', self.events(s.get('c')))})
        b = s.get('b') or {}
        items = b.get('b') if b.get('s') == 'block' else [b]
        flat = []
        for x in items or []:
            n = 0
            while x.get('s') in ('case', 'default'):
                flat.append(x['s'])
                x = x.get('b') or {'s': 'null'}
            flat.append(x)
        out = set() if 'default' in flat else {('next', ())}
        for i, x in enumerate(flat):
            if x in ('case', 'default'):
                for k, ev in self.paths([y for y in flat[i:] if not isinstance(y, str)]):
                    out.add(('next' if k == 'break' else k, ev))
        return self.slim(self.seq(ps, out))

    keep = None

    def slim(self, ps):
        """drop events nobody asks about, so that paths coincide"""
        if self.keep is None:
            return ps
        out = set()
        for k, ev in ps:
            o = []
            for x in ev:
                if x[0] == 'callthis' and not self.keepcalls:
                    continue
                if x[0] != 'callthis' and not any(r in self.keep for r in x[1:2]) and not (x[0] == 'erase' and x[2] in self.keep):
                    continue
                if o and o[-1] == x:
                    continue
                o.append(x)
            out.add((k, tuple(o)))
        return out
    keepcalls = False


def nodes(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def exits(s):
    """conditions that guard leaving the loop from inside"""
    for n in nodes(s):
        if n.get('s') in ('if', 'switch') and any(m.get('s') in ('break', 'return') or m.get('k') == 'throw' for m in nodes([n.get('x'), n.get('y'), n.get('b')])):
            yield n.get('c')


def compare(W, c):
    """direct operands of the comparisons in a condition: (var, type, op as seen from the left)"""
    for n in nodes(c):
        op = n.get('op')
        if n.get('k') == 'bin' and op in ('<', '<=', '>', '>=', '!=', '=='):
            sides = [n.get('x'), n.get('y')]
        elif n.get('k') == 'call' and op in ('<', '<=', '>', '>=', '!=', '=='):
            sides = ([n['o']] if n.get('o') is not None else []) + list(n.get('a') or ())
        else:
            continue
        for i, sd in enumerate(sides[:2]):
            d = W.direct(sd)
            if d:
                yield d, (strip(sd) or {}).get('t') or '', op if i == 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)


def run(ctx):
    ctx.rule('every path through the body of a loop that goes round again changes what the condition depends on, an index towards its bound, an iterator itself')
    ctx.rule('an iterator passed to erase is set again before it is used')
    ctx.rule('a container walked by a range-for is not changed on a path that goes round again, directly or by a member function')
    P = ctx.P
    # fields a member function changes, transitively through calls on this
    chg, calls = {}, {}
    todo = [f for f in P.functions.values() if f.get('b') and 'libamqpprox/' in (f.get('file') or '') and '/tests/' not in f['file']]
    for f in todo:
        W = F(P, f)
        a, b = set(), set()
        for n in nodes(f['b']):
            if n.get('k') == 'call':
                o = n.get('o')
                if o is not None and n.get('cst') is False and (n.get('qn') or '').rsplit('::', 1)[-1] in CHANGE:
                    d = W.direct(o)
                    if d and d[0] == 'f':
                        a.add(d[1])
                if (o is None or (strip(o) or {}).get('k') == 'this') and n.get('fn'):
                    b.add(n['fn'])
        chg[f['id']], calls[f['id']] = a, {x for x in b if (P.functions.get(x) or {}).get('cl') == f.get('cl') or (P.functions.get(x) or {}).get('lam')}
    more = True
    while more:
        more = False
        for x, ys in calls.items():
            for y in ys:
                new = chg.get(y, set()) - chg[x]
                if new:
                    chg[x] |= new
                    more = True
    n = 0
    for f in todo:
        done = set()
        for s in nodes(f['b']):
            t = s.get('s')
            if t in ('for', 'while', 'do', 'rfor') and id(s) not in done:
                done.add(id(s))
                n += 1
                ctx.count('loops')
                loop(ctx, P, f, s, chg)
        if any(m.get('k') == 'call' and (m.get('qn') or '').endswith('::erase') for m in nodes(f['b'])):
            ctx.count('functions removing from a container')
            removed(ctx, P, f)
    ctx.require(n >= 20, 'loops')
    for f in todo:
        ctx.functions.add(f['id']) if hasattr(ctx, 'functions') else None


def aliases(W, f):
    for m in nodes(f['b']):
        if m.get('s') == 'decl':
            for v in m.get('v') or ():
                W.decl(v)


def loop(ctx, P, f, s, chg):
    W = F(P, f)
    aliases(W, f)
    line = s.get('l')
    where = loc_of(f, line)
    name = f['qn']
    if s['s'] == 'rfor':
        r = W.root(s.get('r')) if W.direct(s.get('r')) else None
        if not r:
            return
        W.keep, W.keepcalls = {r}, True
        for k, ev in tree(W, s.get('b')):
            if k not in ('next', 'continue'):
                continue
            for x in ev:
                if x[0] == 'mod' and x[1] == r and x[2] in CHANGE or x[0] == 'set' and x[1] == r:
                    ctx.violation('%s: walked container changed' % name, 'the container a loop walks is changed inside it, and the loop goes on with positions that may be gone', where, [repr(ev)])
                    return
                if x[0] == 'callthis' and r[0] == 'f' and r[1] in chg.get(x[1], ()) and not f.get('st'):
                    ctx.violation('%s: walked container changed by %s' % (name, (P.functions.get(x[1]) or {}).get('qn')), 'the container a loop walks is changed by a function the loop calls, and the loop goes on with positions that may be gone', where, [repr(ev)])
                    return
        return
    c = s.get('c')
    cs = strip(c) if c is not None else None
    if c is not None and not W.vars(c) - {('this',)} and any(m.get('k') == 'call' for m in nodes(c)):
        return      # what the function called looks at is not known
    const = c is None or not W.vars(c)
    conds = list(exits(s.get('b'))) if const else [c]
    if not const and s.get('cvar'):
        conds.append(s['cvar'].get('i'))
    cv = set()
    for x in conds:
        cv |= W.vars(x)
    cv.discard(('this',))
    if const and not conds:
        if not any(m.get('s') in ('break', 'return') or m.get('k') == 'throw' for m in nodes(s.get('b'))):
            ctx.violation('%s: loop without exit' % name, 'a loop has no condition and no way out', where)
        return
    # pointers derived from what the condition looks at count with it
    its = {}
    for d, t, op in compare(W, conds if not const else []):
        its.setdefault(d, (t, op))
    iters = {d for d, (t, op) in its.items() if iterish(t) and d[0] == 'v'}
    W.keep, W.keepcalls = cv, True
    ce = W.events(c) + (W.decl(s['cvar']) if s.get('cvar') else ()) if c is not None else ()
    ie = W.events(s.get('inc')) if s.get('inc') else ()
    for k, ev in tree(W, s.get('b')):
        if k not in ('next', 'continue'):
            continue
        ctx.count('round trips')
        ev = ev + ie + ce
        if iters and not any(x[0] in ('set', 'mod') and x[1] in iters for x in ev):
            ctx.violation('%s: iterator not advanced' % name, 'a path through the loop goes round again without moving the iterator', where, [repr(ev)[:300]])
            return
        sets = [x for x in ev if x[0] in ('set', 'mod') and x[1] in cv or x[0] == 'callthis' and any(v[0] == 'f' for v in cv)]
        if not sets:
            ctx.violation('%s: no progress' % name, 'a path through the loop goes round again without changing anything its condition depends on: it never ends', where, [repr(ev)[:300]])
            return
        for d, (t, op) in its.items():
            mine = [x for x in sets if x[0] != 'callthis' and x[1] == d]
            if mine and len(sets) == len(mine) and all(x[0] == 'set' for x in mine):
                dirs = {x[2] for x in mine}
                if op in ('<', '<=') and dirs == {'-'} or op in ('>', '>=') and dirs == {'+'}:
                    ctx.violation('%s: away from the bound' % name, 'a path through the loop moves the index away from its bound', where, [repr(ev)[:300]])
                    return


def tree(W, b):
    try:
        return W.slim(W.paths(b))
    except OverflowError:
        return set()


def removed(ctx, P, f):
    W = F(P, f)
    aliases(W, f)
    its = set()
    for m in nodes(f['b']):
        if m.get('k') == 'call' and (m.get('qn') or '').endswith('::erase') and m.get('a'):
            d = W.direct(m['a'][0])
            if d and iterish((strip(m['a'][0]) or {}).get('t')):
                its.add(d)
    if not its:
        return
    W.keep = its
    ps = set(tree(W, f['b']))
    for s in nodes(f['b']):
        if s.get('s') in ('for', 'while', 'do'):     # and once round the loop
            ce, ie = W.events(s.get('c')), W.events(s.get('inc')) if s.get('inc') else ()
            ps |= {(k, ev + ie + ce) for k, ev in tree(W, s.get('b')) if k in ('next', 'continue')}
    for k, ev in ps:
        gone = set()
        for x in ev:
            if x[0] == 'erase' and x[1] in its:
                gone.add(x[1])
                ctx.count('removals')
            elif x[0] == 'set':
                gone.discard(x[1])
            elif x[0] in ('use', 'mod') and x[1] in gone:
                ctx.violation('%s: removed position used' % f['qn'], 'an iterator is used after what it pointed to was removed', loc_of(f), [repr(ev)[:300]])
                return
