"""C21: every control command is answered and its reply is terminated exactly once."""
from checklib import *
from cmdx import *
from conts import ContCfg, explore, Entry
from tab import *

EXPLANATION = ('Path analysis of every command handler (each path ends its reply exactly once, or hands the output over to a streaming subscription), of the reply object, and of the '
               'control session (each line reaches exactly one command; the connection closes after the final piece was written and not before).')
T = ('obj', 'this')


def run(ctx):
    ctx.rule('commands: on every path of every handler the reply is ended exactly once and nothing is sent after its end; only a subscription to statistics keeps it open')
    ctx.rule('reply object: its destruction sends the text collected, once, as the end')
    ctx.rule('control session: each line read goes to exactly one command (HELP if unknown), output is written whole, the connection closes after the write of the end and not otherwise, and the next connection and line are accepted')
    commands_(ctx)
    reply(ctx)
    session(ctx)
    streaming(ctx)


class Cmd(CmdCfg):
    def boundary(self, eng, st, c):
        if c.name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'operator=', 'operator[]') and c.recvloc is not None and field_of(c.recvloc) and c.args:
            if any('outputFunctor' in repr(a) or is_out(eng, st, a) for a in c.args):
                r = super().boundary(eng, st.emit('stored', field_of(c.recvloc), c.args), c)
                return r if r is not None else st.emit('stored', field_of(c.recvloc), c.args)
        return super().boundary(eng, st, c)


def is_out(eng, st, a):
    return any(x == ('ld', ('obj', 'outputFunctor'), 0) or x == ('obj', 'outputFunctor') for x in subterms(a))


def commands_(ctx):
    cs = commands(ctx)
    ctx.require(len(cs) >= 10, 'command handlers')
    for n, f in sorted(cs.items()):
        E = Engine(ctx.P, Cmd(ctx))
        outs, thr = E.run(f)
        ctx.count('commands')
        for st, v, l in outs:
            ctx.count('command_paths')
            ev = [e for e in st.tr if e[0] in ('open', 'out', 'stored')]
            opens = sum(1 for e in ev if e[0] == 'open')
            fin = [i for i, e in enumerate(ev) if e[0] == 'out' and e[2] == TRUE]
            unk = [e for e in ev if e[0] == 'out' and e[2] not in (TRUE, FALSE)]
            stored = [e for e in ev if e[0] == 'stored']
            bad = lambda k, t: ctx.violation('%s: %s' % (n, k), '%s: %s' % (n, t), loc_of(f), trace_lines(st))
            if unk:
                bad('end unknown', 'whether the reply ends depends on something other than where it is sent')
            if opens + len(fin) == 0 and not stored:
                bad('no end', 'a path does not end the reply: the operator waits for ever')
            if opens + len(fin) > 1:
                bad('two ends', 'a path ends the reply %d times: the operator is cut short' % (opens + len(fin)))
            if fin and any(e[0] == 'out' for e in ev[fin[0] + 1:]):
                bad('after end', 'output is sent after the end of the reply')
            if stored and opens + len(fin):
                bad('end of stream', 'the reply is ended although the output was handed over to a subscription')
        ctx.done(E)
    # all are registered
    made = set()
    for f in ctx.P.functions.values():
        if f.get('b') and base_qn(f['qn']) == 'main':
            made |= {m for m in cs if m in repr(f['b'])}
    for n in sorted(set(cs) - made):
        if made:
            ctx.violation('unregistered ' + n, 'the command is not registered with the control channel', loc_of(cs[n]))
    ctx.require(made, 'main() registering commands')
    verbs = {}
    for n in cs:
        for g in ctx.fns(n + '::commandVerb'):
            E = Engine(ctx.P, Cfg())
            for st, v, l in E.run(g)[0]:
                t = [x[1] for x in subterms(v) if x and x[0] == 'str']
                if len(t) == 1:
                    if t[0] != t[0].upper() or ' ' in t[0]:
                        ctx.violation('verb of ' + n, 'the verb "%s" can never be given: verbs are single upper-case words' % t[0], loc_of(g))
                    if verbs.setdefault(t[0], n) != n:
                        ctx.violation('verb of ' + n, 'the verb "%s" belongs to two commands' % t[0], loc_of(g))
    ctx.require('HELP' in verbs, 'the HELP command')
    ctx.count('verbs', len(verbs))


def reply(ctx):
    K = 'ControlCommandOutput'
    rec = [r for q, r in ctx.P.records.items() if base_qn(q) == NS + K]
    ctx.require(rec, 'class ' + K)

    class C(EffectCfg):
        def inline(self, eng, fn):
            return fn['file'].endswith('amqpprox_controlcommand.h')

        def boundary(self, eng, st, c):
            if c.name == 'operator()' and c.node.get('o') is not None:
                return [(st.emit('call', field_of(c.recvloc), c.args), ('sym', 'r', len(st.tr)), None)]
            if c.name == 'str' and 'stringstream' in c.bqn and not c.args:
                return [(st, ('collected',), None)]
            return super().boundary(eng, st, c)
    n = 0
    for f in ctx.P.functions.values():
        if not f.get('b') or not base_qn(f['qn']).startswith(NS + K + '::'):
            continue
        E = Engine(ctx.P, C())
        m = base_qn(f['qn']).rsplit('::', 1)[-1]
        for st, v, l in E.run(f)[0]:
            calls = [e for e in st.tr if e[0] == 'call']
            if m.startswith('~'):
                n += 1
                if len(calls) != 1 or ('collected',) not in list(subterms(calls[0][2][0])) or calls[0][2][1] != TRUE:
                    ctx.violation('reply object', 'the end of a command does not send the text collected, once, as the end of the reply', loc_of(f), trace_lines(st))
            elif calls:
                ctx.violation('reply object: ' + m, 'output is sent before the command ends', loc_of(f), trace_lines(st))
        ctx.done(E)
    ctx.require(n, 'destructor of ' + K)


class Ses(ContCfg):
    cont_event = True
    linear = False

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def inline(self, eng, fn):
        return fn['file'].endswith(('amqpprox_control.cpp', 'amqpprox_control.h')) and not fn['qn'].endswith('::getControlCommand')

    def boundary(self, eng, st, c):
        n, b = c.name, c.bqn
        if n == 'handleCommand':
            s = st.emit('handle', c.recv, c.args)
            return [(s, ('void',), None)]
        if n == 'getControlCommand':
            s, t = eng.site(st, c.fr, c.node)
            return [(s, ('cmd', c.args[0], t), None)]
        if 'asio' in b and n in ('async_write', 'async_write_some', 'async_send', 'write', 'write_some', 'send'):
            s, t = eng.site(st.emit('write', n, c.args), c.fr, c.node)
            return s
        if 'asio' in b and n in ('async_read_until', 'async_read', 'async_read_some', 'async_accept', 'async_wait'):
            return st.emit('arm', n)
        if 'asio' in b and n in ('shutdown', 'close', 'cancel', 'release') and c.node.get('o') is not None:
            s, t = eng.site(st.emit('end', n), c.fr, c.node)
            for l in c.locs[1 if n == 'shutdown' else 0:]:
                if l is not None:
                    s = eng.havoc(s, l, (t, 1))
            return [(s, ('void',), None)]
        return None


def session(ctx):
    rec = ctx.record('ControlSession')
    cfg = Ses(ctx)
    E = Engine(ctx.P, cfg)
    KW = ('keep', 'whole output')
    so = [f for f in ctx.P.functions.values() if f.get('b') and not f.get('lam') and f.get('cl') == NS + 'ControlSession']
    ctx.require(so, 'ControlSession')
    # the method that writes a piece of output: takes the text and whether it is the end
    snd = [f for f in so if len(f['p']) == 2 and 'basic_string' in f['p'][0]['t'] + f['p'][0].get('ct', '') or len(f['p']) == 2 and 'string' in f['p'][0]['t'] and f['p'][1]['t'] == 'bool']
    ctx.require(len(snd) == 1, 'the method that sends output')
    snd = snd[0]
    fin = None
    for val in (TRUE, FALSE):
        e = Entry(('pbind', ('fn', snd['id'], snd['qn']), (('ptr', T), ('ph', 0), val), ()), 'api', (), ())
        res = explore(E, [e])
        for x, outs, thr in res:
            for st, v, l in outs:
                ctx.count('output_paths')
                w = [y for y in st.tr if y[0] == 'write']
                end = [y[1] for y in st.tr if y[0] == 'end']
                flag = [y for y in st.tr if y[0] == 'assign' and num(y[3]) == 1]
                bad = lambda k, t: ctx.violation('output: ' + k, t, loc_of(snd), trace_lines(st))
                if x.kind == 'api':
                    if v == FALSE:
                        if w:
                            bad('refused', 'output is written although it is reported as not')
                        g = [a[1] for a, b in st.facts.items() if a[0] == 't' and b is True and field_of(a[1])]
                        if len(st.facts) != 1 or len(g) != 1:
                            bad('refused', 'output is dropped although the reply has not ended')
                        else:
                            fin = field_of(g[0])
                    else:
                        if len(w) != 1:
                            bad('pieces', 'a piece of output is written %d times' % len(w))
                        elif not whole(E, st, snd, w[0]):
                            bad('whole', 'what is written is not the whole of the output: %s' % pp(w[0][2][1])[:150])
                        if v != TRUE:
                            bad('result', 'the sender is told to stop although the output was accepted')
                    if end:
                        bad('early close', 'the connection is closed before the output is written')
                    if flag:
                        bad('early end', 'the reply is marked as ended before it is written')
                else:
                    err = any(a[0] == 't' and b is True and 'ec' in pp(a[1]) for a, b in st.facts.items()) or any(a[0] == 't' and b is True for a, b in st.facts.items() if 'fld' not in repr(a))
                    if not err and val == TRUE:
                        if 'close' not in end:
                            bad('not closed', 'after the last piece the connection is not closed: the operator waits for ever')
                        if not flag:
                            bad('not ended', 'after the last piece the reply is not marked as ended')
                    if not err and val == FALSE and (end or flag):
                        bad('cut short', 'the connection is closed (or marked as ended) although there is more output')
                    if w:
                        bad('second write', 'output is written again')
        cfg.pending = []
    # input: one line, one command
    pi = []
    for f in so:
        if f is snd or f['qn'].rsplit('::', 1)[-1].startswith(('~', 'ControlSession')):
            continue
        res = explore(E, [Entry(('fn', f['id'], f['qn']), 'api', (), ())])
        pi.append((f, res))
    reads = 0
    for f, res in pi:
        for x, outs, thr in res:
            for st, v, l in outs:
                h = [y for y in st.tr if y[0] == 'handle']
                bad = lambda k, t: ctx.violation('input: ' + k, t, loc_of(f), trace_lines(st))
                if x.kind.endswith('async_read_until'):
                    reads += 1
                    ctx.count('input_paths')
                    ok = not any(a[0] == 't' and b is True and a[1][0] in ('arg', 'ld', 'call', 'hv') and 'd_' not in pp(a[1]) and 'getControlCommand' not in pp(a) and a[1][0] != 'cmd' for a, b in st.facts.items() if is_ec(a[1]))
                    if ok and len(h) != 1:
                        bad('commands', 'a line is given to %d commands' % len(h))
                    if ok and not [y for y in st.tr if y[0] == 'arm' and y[1].startswith('async_read')]:
                        bad('no next line', 'after a command the connection is not read any more: its end is never noticed')
                    if not ok and h:
                        bad('command on error', 'a command is run although reading failed')
                for y in h:
                    ctx.count('dispatches')
                    r = next((z for z in subterms(y[1]) if z and z[0] == 'cmd'), y[1])
                    known = E.decide(st, ('t', r))
                    lit = [z[1] for z in subterms(r) if z and z[0] == 'str']
                    if r[0] != 'cmd' or (known is not True and 'HELP' not in lit):
                        bad('unknown verb', 'a command that may not exist is run: %s' % pp(r)[:100])
                    if y[2][2][0] not in ('clos', 'mk', 'ld', 'fn', 'pbind') and not list(find_funcs(y[2][2])):
                        bad('output', 'the command is not given the output of its connection')
    ctx.require(reads or ctx.viol, 'the handler that reads a line')
    # the functor given to commands
    for f in ctx.P.functions.values():
        if f.get('b') and f.get('lam') and f['file'].endswith('amqpprox_control.cpp') and len(f['p']) == 2 and f['p'][1]['t'] == 'bool':
            class L(Ses):
                def boundary(self, eng, st, c):
                    if c.fn == snd['id'] or c.bqn == base_qn(snd['qn']):
                        return [(st.emit('send', c.args), ('sent', len(st.tr)), None)]
                    return super().boundary(eng, st, c)
            E3 = Engine(ctx.P, L(ctx))
            for st, v, l in E3.run(f)[0]:
                ctx.count('functor_paths')
                s = [y for y in st.tr if y[0] == 'send']
                if len(s) != 1 or s[0][1][0] not in argval(f, 0) + (('ld', ('obj', f['p'][0]['n']), 0),) or s[0][1][1] not in argval(f, 1):
                    ctx.violation('functor', 'output of a command is not passed on as it is (text, end)', loc_of(f), trace_lines(st))
                elif v[0] != 'sent':
                    ctx.violation('functor result', 'the command is not told whether its output was accepted', loc_of(f), trace_lines(st))
    # accepting goes on
    acc = 0
    for f in ctx.P.functions.values():
        if f.get('b') and not f.get('lam') and f.get('cl') == NS + 'Control':
            cfg2 = Ses(ctx)
            E4 = Engine(ctx.P, cfg2)
            for x, outs, thr in explore(E4, [Entry(('fn', f['id'], f['qn']), 'api', (), ())]):
                if not x.kind.endswith('async_accept'):
                    continue
                for st, v, l in outs:
                    acc += 1
                    arm = [y[1] for y in st.tr if y[0] == 'arm']
                    if 'async_accept' not in arm:
                        ctx.violation('accept', 'after a control connection no further one is accepted', loc_of(f), trace_lines(st))
                    good = not any(a[0] == 't' and b is True and is_ec(a[1]) for a, b in st.facts.items())
                    if good and not any(y.startswith('async_read') for y in arm):
                        ctx.violation('accepted', 'an accepted control connection is not read', loc_of(f), trace_lines(st))
            ctx.done(E4)
    ctx.require(acc or ctx.viol, 'accepting control connections')
    ctx.done(E)


def is_ec(t):
    return any(x and x[0] in ('arg', 'obj') and str(x[1]).startswith(('ec', 'err')) for x in subterms(t)) or t[0] == 'arg'


def whole(E, st, snd, w):
    """is the buffer written the whole of the output?"""
    src = argval(snd, 0)
    b = w[2][1]
    if b[0] == 'call' and b[1].endswith('::buffer'):
        a = b[3]
        if len(a) == 1:
            return any(s in list(subterms(E_deep(E, st, a[0]))) for s in src)
        if len(a) == 2:
            n = a[1]
            return any(s in list(subterms(E_deep(E, st, a[0]))) for s in src) and n[0] == 'size' and any(s in list(subterms(E_deep(E, st, n))) for s in src)
    return False


def E_deep(E, st, v):
    out = [v]
    for x in subterms(v):
        if x and x[0] == 'ptr':
            out.append(E.load(st, x[1]))
        if x and x[0] in ('fld', 'mat', 'tmp', 'heap', 'obj', 'deref'):
            try:
                out.append(E.load(st, x))
            except Exception:
                pass
    return ('all',) + tuple(out)


def streaming(ctx):
    """what a subscription may do: it sends pieces that do not end the reply, and stops only when told to"""
    cs = commands(ctx)
    for n, f in sorted(cs.items()):
        cfg = Cmd(ctx)
        E = Engine(ctx.P, cfg)
        seen = {}
        for st, v, l in E.run(f)[0]:
            for e in st.tr:
                if e[0] == 'stored':
                    for g in find_funcs(e[2]):
                        seen.setdefault(g, []).append(st)
        for g, sts in seen.items():
            t = g[1] if g[0] == 'pbind' else g
            fn = None
            if t[0] == 'fn':
                fn = ctx.P.functions.get(t[1])
            elif t[0] == 'clos':
                fn = next((ctx.P.functions[i] for i in t[1] if i in ctx.P.functions), None)
            if fn is None or not fn.get('b'):
                continue

            class S(Cmd):
                def boundary(self, eng, st, c):
                    if c.name == 'operator()' and c.node.get('o') is not None and 'function' in c.bqn and len(c.args) == 2:
                        return [(st.emit('out', text(c.args[0]), c.args[1]), ('more', len(st.tr)), None)]
                    return super().boundary(eng, st, c)
            E2 = Engine(ctx.P, S(ctx))
            args = None
            if g[0] == 'pbind' and t[0] == 'fn':
                args = [b if b[0] != 'ph' else ('arg', p['n']) for b, p in zip(g[2], fn['p'])]
            for s0 in sts:
                st1 = St()
                for a, b in s0.facts.items():
                    st1.facts[a] = b
                try:
                    outs = E2.run(fn, args=args, st=st1)[0] if args else E2.run(fn)[0]
                except TypeError:
                    outs = E2.run(fn)[0]
                for st, v, l in outs:
                    ctx.count('stream_paths')
                    o = [e for e in st.tr if e[0] == 'out']
                    ends = [e for e in o if e[2] != FALSE]
                    if not ends and v == FALSE and not any(a[0] == 't' and b is False and a[1][0] == 'more' for a, b in st.facts.items()):
                        ctx.violation('%s: stream stops' % n, 'a subscription stops without ending the reply: the operator waits for ever', loc_of(fn), trace_lines(st))
                    if ends and v != FALSE:
                        ctx.violation('%s: stream goes on' % n, 'a subscription goes on after ending the reply', loc_of(fn), trace_lines(st))
            ctx.done(E2)
