"""C31: recursion driven by received data is bounded."""
from checklib import *
from tab import *
import bounds

EXPLANATION = ('Call-graph cycles among the functions that consume received data are computed; on every abstract path to a call that '
               'closes a cycle, the linear analysis must show a counter that grows around the cycle and is bounded by a constant.')


class RC(bounds.BoundsCfg):
    scc = ()

    def on_call(self, eng, st, c):
        if c.fn in self.scc and c.fr is not None and not eng.quiet:
            self.sites.append((c.fr, c, st))
        return super().on_call(eng, st, c)


def run(ctx):
    ctx.rule('every recursive cycle that consumes received data carries a counter that never falls, grows at least once per turn and is compared with a constant before the recursion')
    cfg = RC(ctx)
    eng = bounds.BoundsEngine(ctx.P, cfg)
    g = {}
    for fid, (f, i) in cfg.K.items():
        if fid not in cfg.writers:
            g[fid] = {c.get('fn') for c in calls_in(f['b'])} & set(cfg.K)

    def reach(x):
        seen, todo = set(), list(g.get(x, ()))
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += g.get(y, ())
        return seen
    R = {x: reach(x) for x in g}
    done = set()
    for x in sorted(g):
        if x not in R[x] or x in done:
            continue
        scc = {y for y in R[x] if y in R and x in R[y]}
        done |= scc
        check(ctx, cfg, eng, scc)
        ctx.count('recursive cycles')
    ctx.count('functions consuming received data', len(g))
    ctx.require(len(g) >= 5, 'functions consuming received data')
    for y in g:
        eng.analysed.add(y)
    ctx.done(eng)


def check(ctx, cfg, eng, scc):
    names = ', '.join(sorted(fn_key(ctx.P.functions[y]) for y in scc))
    edges = []                 # (from, to, {(param from, param to): delta}, {bounded params of from})
    for y in sorted(scc):
        f = ctx.P.functions[y]
        cfg.scc, cfg.sites = scc, []
        ints = [i for i, p in enumerate(f['p']) if p.get('w') and p['pm'] not in ('ref', 'cref', 'ptr', 'cptr')]
        for i in ints:
            eng.ranges.setdefault(('arg', f['p'][i]['n']), (0, (1 << 62)))
        eng.run(f, st=St())
        for fr, c, st in cfg.sites:
            d = {}
            h = ctx.P.functions[c.fn]
            for i in ints:
                for j, p in enumerate(h['p']):
                    if j < len(c.args) and p.get('w'):
                        k, t = to_lin(lin_add(c.args[j], ('arg', f['p'][i]['n']), -1))
                        if not t:
                            d[(i, j)] = k
            bnd = {i for i in ints if eng.entails(st, lin_add(('int', 1 << 12), ('arg', f['p'][i]['n']), -1))}
            edges.append((y, c.fn, d, bnd, c))
            ctx.count('recursive call sites')
    # choose one counter per function
    ctr = {}
    for y in scc:
        f = ctx.P.functions[y]
        ctr[y] = [i for i, p in enumerate(f['p']) if p.get('w') and p['pm'] not in ('ref', 'cref', 'ptr', 'cptr')]
    import itertools
    keys = sorted(scc)
    for pick in itertools.product(*[ctr[y] for y in keys]):
        m = dict(zip(keys, pick))
        if all((m[a], m[b]) in d and d[(m[a], m[b])] >= 0 for a, b, d, _, _ in edges):
            grow = [(a, b) for a, b, d, _, _ in edges if d[(m[a], m[b])] == 0]
            free = [(a, b) for a, b, d, bn, _ in edges if m[a] not in bn]
            if acyclic(keys, grow) and acyclic(keys, free):
                return
    f = ctx.P.functions[keys[0]]
    ctx.violation('recursion of ' + names, 'the recursion through %s, driven by received data, has no bounded counter: nested input can exhaust the stack' % names, loc_of(f),
                  ['recursive call in %s at line %s to %s' % (fn_key(ctx.P.functions[a]), c.line, fn_key(ctx.P.functions[b])) for a, b, d, bn, c in edges])


def acyclic(nodes, edges):
    nodes = set(nodes)
    es = set(edges)
    while nodes:
        free = [n for n in nodes if not any(b == n and a in nodes for a, b in es)]
        if not free:
            return False
        nodes -= set(free)
    return True
