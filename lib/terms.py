"""Terms (value numbers) used by the abstract interpreter, and the linear
inequality domain (entailment by Fourier-Motzkin elimination)."""
from fractions import Fraction

TRUE = ('int', 1)
FALSE = ('int', 0)
NULL = ('null',)


def is_num(v):
    return v[0] == 'int' or v[0] == 'enum'


def num(v):
    if v[0] == 'int':
        return v[1]
    if v[0] == 'enum':
        return v[2]
    return None


def is_const(v):
    return v[0] in ('int', 'enum', 'str', 'null', 'fn')


# -- linear terms ------------------------------------------------------------
def to_lin(v):
    """-> (const, {term: coef})"""
    n = num(v)
    if n is not None:
        return n, {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    return 0, {v: 1}


def from_lin(c, d):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return ('int', c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: repr(kv))))


def lin_add(a, b, sign=1):
    c1, d1 = to_lin(a)
    c2, d2 = to_lin(b)
    d = dict(d1)
    for k, x in d2.items():
        d[k] = d.get(k, 0) + sign * x
    return from_lin(c1 + sign * c2, d)


def lin_mul(a, b):
    na, nb = num(a), num(b)
    if na is None and nb is None:
        return None
    if na is None:
        a, b, na = b, a, nb
    c, d = to_lin(b)
    return from_lin(c * na, {k: x * na for k, x in d.items()})


def subterms(v, acc=None):
    if acc is None:
        acc = set()
    if isinstance(v, tuple):
        acc.add(v)
        for x in v:
            if isinstance(x, tuple):
                subterms(x, acc)
    return acc


def mentions(v, pred):
    if isinstance(v, tuple):
        if v and pred(v):
            return True
        for x in v:
            if isinstance(x, tuple) and mentions(x, pred):
                return True
    return False


class LinDomain:
    """constraints: list of (const, {term: coef}) meaning const + sum >= 0."""

    def __init__(self, ranges):
        self.ranges = ranges
        self.memo = {}

    def constraints_of(self, facts):
        out = []
        for (a, val) in facts:
            if a[0] == '<':
                # a < b
                if val:
                    c, d = to_lin(lin_add(lin_add(a[2], a[1], -1), ('int', 1), -1))
                    out.append((c, d))
                else:
                    c, d = to_lin(lin_add(a[1], a[2], -1))
                    out.append((c, d))
            elif a[0] == '==' and val:
                if not (_int_like(a[1]) and _int_like(a[2])):
                    continue
                c, d = to_lin(lin_add(a[1], a[2], -1))
                out.append((c, d))
                out.append((-c, {k: -x for k, x in d.items()}))
        return out

    def entails(self, facts, lo, extra=()):
        """facts |= lo >= 0   (lo: term)"""
        c, d = to_lin(lo)
        if not d:
            return c >= 0
        key = (frozenset(facts), lo, tuple(extra))
        r = self.memo.get(key)
        if r is not None:
            return r
        cons = self.constraints_of(facts) + list(extra)
        # negated goal: -lo - 1 >= 0
        goal = (-c - 1, {k: -x for k, x in d.items()})
        r = self._infeasible(cons, goal)
        self.memo[key] = r
        return r

    def _infeasible(self, cons, goal):
        # keep only constraints connected to the goal's variables
        vs = set(goal[1])
        chosen = []
        rest = [c for c in cons if c[1]]
        for c in cons:
            if not c[1] and c[0] < 0:
                return True
        changed = True
        while changed:
            changed = False
            keep = []
            for c in rest:
                if vs & set(c[1]):
                    chosen.append(c)
                    n = len(vs)
                    vs |= set(c[1])
                    changed = True
                else:
                    keep.append(c)
            rest = keep
        system = [goal] + chosen
        for v in vs:
            r = self.ranges.get(v)
            if r:
                lo, hi = r
                if lo is not None:
                    system.append((-lo, {v: 1}))
                if hi is not None:
                    system.append((hi, {v: -1}))
        return fm_infeasible(system, list(vs))


def _int_like(v):
    return v[0] not in ('str', 'null', 'fn', 'ptr', 'clos', 'rec')


def fm_infeasible(system, variables):
    sys_ = []
    seen = set()
    for c, d in system:
        sys_.append((Fraction(c), {k: Fraction(x) for k, x in d.items() if x}))
    vs = set()
    for _, d in sys_:
        vs |= set(d)
    while vs:
        # cheapest variable first
        best, cost = None, None
        for v in vs:
            p = sum(1 for _, d in sys_ if d.get(v, 0) > 0)
            n = sum(1 for _, d in sys_ if d.get(v, 0) < 0)
            k = p * n - p - n
            if cost is None or k < cost or (k == cost and repr(v) < repr(best)):
                best, cost = v, k
        v = best
        vs.discard(v)
        pos = [x for x in sys_ if x[1].get(v, 0) > 0]
        neg = [x for x in sys_ if x[1].get(v, 0) < 0]
        rest = [x for x in sys_ if not x[1].get(v, 0)]
        new = {}
        for (c1, d1) in pos:
            for (c2, d2) in neg:
                a, b = d1[v], -d2[v]
                c = c1 * b + c2 * a
                d = {}
                for k, x in d1.items():
                    if k != v:
                        d[k] = x * b
                for k, x in d2.items():
                    if k != v:
                        d[k] = d.get(k, 0) + x * a
                d = {k: x for k, x in d.items() if x}
                if not d:
                    if c < 0:
                        return True
                    continue
                # normalise
                s = abs(next(iter(sorted(d.items(), key=lambda kv: repr(kv[0]))))[1])
                c, d = c / s, {k: x / s for k, x in d.items()}
                key = frozenset(d.items())
                if key not in new or new[key][0] > c:
                    new[key] = (c, d)
        sys_ = rest + list(new.values())
        if len(sys_) > 400:
            return False
    return any(c < 0 for c, d in sys_ if not d)
