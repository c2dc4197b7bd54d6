"""Exploration of the control commands: what each path of handleCommand does to the rest of the proxy, as a function of the words of the command line.

events: act(method, receiver, args)  visit-begin / visit-end (around what is done for each session)  out(text, finish)  open/end (reply object)"""
from absint import *
from tab import *
from text import text_call, text, items
from conts import find_funcs
from checklib import NS

QUERY = {'getSession', 'getSelector', 'getPolicy', 'getFarmByName', 'ioContext', 'ingressTlsContext', 'egressTlsContext', 'lookup', 'getControlCommand', 'print',
         'getAuthIntercept', 'getDNSResolverPtr', 'state', 'printConnections', 'visitControlCommands', 'commandVerb', 'helpText', 'native_handle'}
CTL = ('amqpprox_controlcommand.h', 'amqpprox_controlcommand.cpp', 'amqpprox_constants.h', 'amqpprox_constants.cpp')


class CmdCfg(EffectCfg):
    unroll = 3
    max_states = 20000

    def __init__(self, ctx):
        self.ctx = ctx

    def inline(self, eng, fn):
        return fn['file'].endswith('controlcommand.cpp') or fn['file'].endswith(CTL) or fn['file'].endswith('controlcommand.h')

    def session(self, eng, st, c):
        return ('ptr', ('obj', 'session')) if ('obj', 'session') in list(subterms(c.recvloc or ())) + list(subterms(c.recv or ())) else None

    def boundary(self, eng, st, c):
        n, b = c.name, c.bqn
        if 'ControlCommandOutput' in b and c.node.get('k') == 'ctor':
            return [(st.emit('open'), ('mk', b, ()))]
        if n == 'operator()' and c.node.get('o') is not None and 'function' in b and c.args and field_of(c.recv) is None and 'outputFunctor' in repr(c.recv):
            s = st.emit('out', text(c.args[0]), c.args[1])
            return [(s, ('sym', 'more', len(st.tr)), None)]
        if b == 'std::ws' or n == 'operator>>' and 'std' in b and any(x and x[0] in ('fn', 'func', 'fptr', 'ptr') and 'std::ws' in repr(x) for a in c.args[-1:] for x in subterms(a)):
            sl = c.recvloc if c.recvloc is not None else (c.locs[0] if c.locs else None)
            if sl is not None:
                i = st.occ.get(('tok', sl), 0)
                s = st.copy()
                s.occ[('ws', sl)] = i + 1
                return [(s, ('streamok', i), sl)]
        if n in ('eof', 'peek') and 'std' in b and c.recvloc is not None:
            i = st.occ.get(('tok', c.recvloc), 0)
            if st.occ.get(('ws', c.recvloc)) == i + 1:
                return [(st, ('streamend', i), None)]
            if n == 'eof' and 'istringstream' in repr(eng.load(st, c.recvloc)):
                return [(st, ('streameof', i), None)]
        if n == 'good' and 'std' in b and c.recvloc is not None and 'istringstream' in repr(eng.load(st, c.recvloc)):
            return [(st, ('streamgood', st.occ.get(('tok', c.recvloc), 0)), None)]
        if n == 'operator>>' and 'std' in b:
            sl = c.recvloc if c.recvloc is not None else (c.locs[0] if c.locs else None)
            tgt = c.locs[-1] if c.locs else None
            if tgt is not None and sl is not None:
                i = st.occ.get(('tok', sl), 0)
                s = st.copy()
                s.occ[('tok', sl)] = i + 1
                kind = 'str' if 'basic_string' in c.node['a'][-1].get('t', '') else 'int'
                tv = ('tok', eng.load(st, sl), i, kind, eng.load(st, tgt))
                eng.set_range(tv, c.node['a'][-1])
                s = eng.store(s, tgt, tv, c.node, c.fr)
                return [(s, ('streamok', i + 1), sl)]
        if n in ('emplace_back', 'push_back') and b.startswith('std::vector') and c.recvloc is not None and field_of(c.recvloc) is None:
            s = st.emit('push', c.recvloc, c.args[0])
            old = eng.load(st, c.recvloc)
            if old[0] == 'mk' and old[1].startswith('std::vector'):
                s = eng.store(s, c.recvloc, ('mk', old[1], old[2] + (c.args[0],)), c.node, c.fr)
            return [(s, ('void',), None)]
        if b == NS + 'Server::visitSessions':
            fs = find_funcs(c.args[0])
            if not fs and c.locs[0] is not None:
                fs = find_funcs(eng.load(st, c.locs[0]))
            if len(fs) == 1:
                s = st.emit('visit-begin')
                out = []
                for x in eng.invoke(fs[0], s, [('ptr', ('obj', 'session'))], [None], c.fr, c.node) or ():
                    out.append((x[0].emit('visit-end'), ('void',), None))
                return out
            return [(st.emit('visit-unknown'), ('void',), None)]
        if b == NS + 'SessionState::getVirtualHost':
            return [(st, ('vhost-of', self.who(c)), None)]
        if b.startswith('boost::asio::ssl::context::') and n not in ('native_handle',) and c.node.get('k') != 'ctor':
            s = st.emit('act', 'ssl::context::' + n, self.who(c), c.args)
            s, t = eng.site(s, c.fr, c.node)
            if c.locs and c.locs[-1] is not None:
                s = eng.havoc(s, c.locs[-1], (t, 1))
            return [(s, ('void',), None)]
        if b == 'boost::asio::ssl::context::native_handle':
            return [(st, ('ssl', self.who(c)), None)]
        if n.startswith('SSL_CTX_set') or n.startswith('SSL_CTX_use') or n.startswith('SSL_CTX_load'):
            s, t = eng.site(st.emit('act', n, c.args[0], c.args[1:]), c.fr, c.node)
            return [(s, ('call', n, (), (), t), None)]
        if b.startswith(NS + 'Server::') and n in ('ingressTlsContext', 'egressTlsContext'):
            return [(st, ('tls', n), ('deref', ('tls', n)))]
        if b.startswith(NS) and 'ControlCommand' not in b:
            fn = eng.P.functions.get(c.fn)
            if fn is not None and fn.get('b') and self.inline(eng, fn) and not c.virt:
                return None
            if c.node.get('k') in ('ctor', 'new'):
                return None
            if c.node.get('o') is not None or (fn or {}).get('st') or n.startswith('set'):
                if n in QUERY or (fn or {}).get('cst'):
                    return None
                s, t = eng.site(st.emit('act', b[len(NS):], self.who(c), c.args), c.fr, c.node)
                if '*' in c.node.get('t', '') or c.node.get('t') not in (None, 'void'):
                    return [(s, ('call', b, self.who(c), c.args, t), None)]
                return [(s, ('void',), None)]
        return text_call(eng, st, c)

    def who(self, c):
        l = c.recvloc
        return ('ptr', l) if l is not None else c.recv if c.recv is not None else ('null',)


def commands(ctx):
    """class name -> handleCommand"""
    out = {}
    for f in ctx.P.functions.values():
        if f['qn'].endswith('ControlCommand::handleCommand') and f.get('b') and f.get('cl', '').startswith(NS):
            out[f['cl'][len(NS):]] = f
    return out
