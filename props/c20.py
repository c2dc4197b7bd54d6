"""C20: a control command changes exactly the setting it names."""
from checklib import *
from cmdx import *
from tab import *

EXPLANATION = ('Every path of every command handler is compared with a table of the documented command lines: for the lines the path is possible for, what it does to the rest of '
               'the proxy (calls that change something, with their arguments traced back to the words of the line) must be exactly what the table says, and nothing for lines that '
               'are incomplete or unknown. The stores the commands write are checked to keep and return what they are given.')
T = ('obj', 'this')


class W:
    """any one word"""
class Other:
    """a word that is none of those known in this place"""
class Bad:
    """not a number"""
class I:
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi


class Tok:
    def __init__(self, i):
        self.i = i


class New:
    def __init__(self, cls, **a):
        self.cls, self.a = cls, a


class Q:
    """result of a query with these arguments"""
    def __init__(self, name, *a):
        self.name, self.a = name, a


class Mode:
    def __init__(self, v):
        self.v = v


class Words:
    """the words i..j of the line, in this order"""
    def __init__(self, i, j):
        self.i, self.j = i, j


MAX = 'numeric_limits max'
ANY = None


def act(name, *a, **kw):
    return ('act', name, a, kw.get('on'))


def visit(*a, **kw):
    """for each session (of that virtual host)"""
    return ('visit', a, kw.get('of'))


def spec():
    s = {}
    s['Map'] = [(['BACKEND', W, W], [act('ResourceMapper::mapVhostToBackend', Tok(1), Tok(2))]),
                (['FARM', W, W], [act('ResourceMapper::mapVhostToFarm', Tok(1), Tok(2))]),
                (['UNMAP', W], [act('ResourceMapper::unmapVhost', Tok(1))]),
                (['DEFAULT', W], [act('RobustConnectionSelector::setDefaultFarm', Tok(1))]),
                (['REMOVE_DEFAULT'], [act('RobustConnectionSelector::unsetDefaultFarm')]),
                (['PRINT'], [])]
    lim = []
    for k, d, v, rd, rv in (('CONN_RATE_ALARM', 'setAlarmOnlyDefaultConnectionRateLimit', 'addAlarmOnlyConnectionRateLimiter', 'removeAlarmOnlyDefaultConnectionRateLimit', 'removeAlarmOnlyConnectionRateLimiter'),
                            ('CONN_RATE', 'setDefaultConnectionRateLimit', 'addConnectionRateLimiter', 'removeDefaultConnectionRateLimit', 'removeConnectionRateLimiter')):
        c = 'ConnectionLimiterManager::'
        lim += [([k, 'VHOST', W, I()], [act(c + v, Tok(2), Tok(3))]), ([k, 'DEFAULT', I()], [act(c + d, Tok(2))]),
                (['DISABLE', k, 'VHOST', W], [act(c + rv, Tok(3))]), (['DISABLE', k, 'DEFAULT'], [act(c + rd)])]
    for k, d, v, rv in (('DATA_RATE_ALARM', 'setDefaultDataRateAlarm', 'setVhostDataRateAlarm', 'disableVhostDataRateAlarm'),
                        ('DATA_RATE', 'setDefaultDataRateLimit', 'setVhostDataRateLimit', 'disableVhostDataRateLimit')):
        c = 'DataRateLimitManager::'
        up = act('Session::updateDataRateLimits')
        lim += [([k, 'VHOST', W, I()], [act(c + v, Tok(2), Tok(3)), visit(up, of=Tok(2))]), ([k, 'DEFAULT', I()], [act(c + d, Tok(2)), visit(up)]),
                (['DISABLE', k, 'VHOST', W], [act(c + rv, Tok(3)), visit(up, of=Tok(3))]), (['DISABLE', k, 'DEFAULT'], [act(c + d, MAX), visit(up)])]
    s['Limit'] = lim + [(['PRINT'], []), (['PRINT', W], [])]
    s['Vhost'] = [(['PAUSE', W], [act('VhostState::setPaused', Tok(1), True), visit(act('Session::pause'), of=Tok(1))]),
                  (['UNPAUSE', W], [act('VhostState::setPaused', Tok(1), False), visit(act('Session::unpause'), of=Tok(1))]),
                  (['FORCE_DISCONNECT', W], [visit(act('Session::disconnect', True), of=Tok(1))]),
                  (['BACKEND_DISCONNECT', W], [visit(act('Session::backendDisconnect'), of=Tok(1))]),
                  (['PRINT'], [])]
    ses = Q('getSession', Tok(0))
    s['Session'] = [([I(), 'PAUSE'], [act('Session::pause', on=ses)]), ([I(), 'DISCONNECT_GRACEFUL'], [act('Session::disconnect', False, on=ses)]),
                    ([I(), 'FORCE_DISCONNECT'], [act('Session::disconnect', True, on=ses)])]
    s['Listen'] = [(['START', I(1, 65535)], [act('Server::startListening', Tok(1), False)]), (['START_SECURE', I(1, 65535)], [act('Server::startListening', Tok(1), True)]),
                   (['STOP', I(1, 65535)], [act('Server::stopListening', Tok(1))]), (['STOP'], [act('Server::stopAllListening')])]
    s['Logging'] = [(['FILE', I()], [act('Logging::setFileVerbosity', Tok(1))]), (['CONSOLE', I()], [act('Logging::setConsoleVerbosity', Tok(1))])]
    s['Datacenter'] = [(['SET', W], [act('Datacenter::set', Tok(1)), act('FarmStore::repartitionAll')]), (['PRINT'], [])]
    s['Auth'] = [(['SERVICE', W, I(1, 65535), W], [act('Server::setAuthIntercept', New('HttpAuthIntercept', p1=Tok(1), p2=Tok(2), p3=Tok(3)))]),
                 (['ALWAYS_ALLOW'], [act('Server::setAuthIntercept', New('DefaultAuthIntercept'))]), (['PRINT'], [])]
    s['MapHostname'] = [(['DNS'], [act('Server::setHostnameMapper', New('DNSHostnameMapper')), visit(act('SessionState::setHostnameMapper', ANY, New('DNSHostnameMapper')))])]
    s['Connections'] = [([], [])]
    s['Help'] = [([], [])]
    s['Exit'] = [([], [act('Server::stop'), act('Control::stop')])]
    be = lambda dns, px, tls: [act('BackendStore::insert', New('Backend', p0=Tok(1), p1=Tok(2), p2=Tok(3), p3='' if dns else ANY, p4=Tok(4), p5=px, p6=tls, p7=dns))]
    b = [(['DELETE', W], [act('BackendStore::remove', Tok(1))]), (['PRINT'], [])]
    for w, dns in (('ADD', False), ('ADD_DNS', True)):
        h = [w, W, W, W, I(1, 65535)]
        for o, px, tls in (([], False, False), (['SEND-PROXY'], True, False), (['TLS'], False, True), (['SEND-PROXY', 'TLS'], True, True), (['TLS', 'SEND-PROXY'], True, True)):
            b.append((h + o, be(dns, px, tls)))
    s['Backend'] = b
    farm = lambda n: [act('FarmStore::addFarm', New('Farm', p0=Tok(1), p1=Words(3, 3 + n), p3=Q('getSelector', Tok(2))))]
    s['Farm'] = [([k, W, W] + [W] * n, farm(n)) for k in ('ADD', 'ADD_MANUAL') for n in (1, 2)] + [
                 (['PARTITION', W, W], [act('Farm::addPartitionPolicy', Q('getPolicy', Tok(2)), on=Q('getFarmByName', Tok(1)))]),
                 (['DELETE', W], [act('FarmStore::removeFarmByName', Tok(1))]), (['PRINT'], [])]
    tls = []
    for d, cx in (('INGRESS', 'ingressTlsContext'), ('EGRESS', 'egressTlsContext')):
        for k, m in (('KEY_FILE', 'use_private_key_file'), ('CERT_CHAIN_FILE', 'use_certificate_chain_file'), ('RSA_KEY_FILE', 'use_rsa_private_key_file'),
                     ('TMP_DH_FILE', 'use_tmp_dh_file'), ('CA_CERT_FILE', 'load_verify_file')):
            tls.append(([d, k, W], [act('ssl::context::' + m, Tok(2), on=cx)]))
        tls.append(([d, 'CIPHERS', 'PRINT'], []))
        tls.append(([d, 'CIPHERS', 'SET', W], [act('SSL_CTX_set_cipher_list', 'the rest', on=cx)]))
        M = {'PEER': 1, 'NONE': 0, 'FAIL_IF_NO_PEER_CERT': 2, 'CLIENT_ONCE': 4}
        for a in M:
            tls.append(([d, 'VERIFY_MODE', a], [act('ssl::context::set_verify_mode', Mode(M[a]), on=cx)]))
            for b2 in M:
                tls.append(([d, 'VERIFY_MODE', a, b2], [act('ssl::context::set_verify_mode', Mode(M[a] | M[b2]), on=cx)]))
    s['Tls'] = tls
    st = [([w, 'PER-SOURCE'], [act('StatCollector::collectPerSourceStats', w == 'ENABLE')]) for w in ('ENABLE', 'DISABLE')]
    s['Stat'] = st + [(['STOP', 'SEND'], [('stop-send',)]), (['SEND', W, I()], [('subscribe', True)]), (['LISTEN', 'JSON'], [('subscribe', False)]), (['LISTEN', 'HUMAN'], [('subscribe', False)]),
                      (['LISTEN', 'JSON', W], [('subscribe', False)]), (['LISTEN', 'HUMAN', W], [('subscribe', False)])]
    return s


VERBS = {'Map': 'MAP', 'Limit': 'LIMIT', 'Vhost': 'VHOST', 'Session': 'SESSION', 'Listen': 'LISTEN', 'Logging': 'LOG', 'Datacenter': 'DATACENTER', 'Auth': 'AUTH', 'MapHostname': 'MAPHOSTNAME',
         'Connections': 'CONN', 'Help': 'HELP', 'Exit': 'EXIT', 'Backend': 'BACKEND', 'Farm': 'FARM', 'Tls': 'TLS', 'Stat': 'STAT'}
# what may be said no to although the line is complete: the name is not known, the host does not resolve, a file is not readable
REFUSE = {'Session': ('getSession',), 'Farm': ('getSelector', 'getPolicy', 'getFarmByName', 'lookup'), 'Backend': ('resolve',), 'Stat': ('filter',)}
# an incomplete line that is documented to be allowed
ALLOW_SHORT = {('Tls', 'INGRESS VERIFY_MODE'), ('Tls', 'EGRESS VERIFY_MODE'), ('Tls', 'INGRESS CIPHERS SET'), ('Tls', 'EGRESS CIPHERS SET'), ('Farm', 'ADD * *'), ('Farm', 'ADD_MANUAL * *')}


def malformed(rules):
    """incomplete and unknown lines: (tokens, description)"""
    ok = {tuple(t if isinstance(t, str) else '*' for t in r[0]) for r in rules}
    out, seen = [], set()
    for toks, _ in rules:
        for n in range(len(toks)):
            pre = toks[:n]
            key = tuple(t if isinstance(t, str) else '*' for t in pre)
            if key not in ok and (key, 'end') not in seen:
                seen.add((key, 'end'))
                out.append((pre, 'the line ends after %r' % (' '.join(key),)))
            nxt = toks[n]
            same = [r[0][n] for r in rules if len(r[0]) > n and tuple(t if isinstance(t, str) else '*' for t in r[0][:n]) == key]
            if any(isinstance(t, str) for t in same) and not any(t is W for t in same) and (key, 'other') not in seen:
                seen.add((key, 'other'))
                out.append((pre + [Other], 'an unknown word after %r' % (' '.join(key),)))
            if isinstance(nxt, I) and (key, 'bad') not in seen:
                seen.add((key, 'bad'))
                out.append((pre + [Bad], 'no number after %r' % (' '.join(key),)))
                if nxt.lo is not None:
                    out.append((pre + [I(None, nxt.lo - 1)], 'a number out of range after %r' % (' '.join(key),)))
                    out.append((pre + [I(nxt.hi + 1, None)], 'a number out of range after %r' % (' '.join(key),)))
    return out


class Line:
    def __init__(self, toks, closed=True):
        self.t = toks

    def ok(self, n):
        """have the first n words been there?"""
        for i in range(n):
            if i >= len(self.t) or self.t[i] is Bad:
                return False
        return True

    def is_tok(self, v):
        return v[0] == 'tok'

    def word(self, v, lit):
        """is the value (a word, perhaps in upper case) that literal?"""
        up = False
        while v[0] in ('upper', 'lower'):
            if v[0] == 'lower':
                return None
            up, v = True, v[1]
        if v[0] != 'tok' or v[3] != 'str':
            return None
        i = v[2]
        if not self.ok(i + 1):
            return lit == '' if v[4] == ('str', '') or not self.ok(i) or True else None
        t = self.t[i]
        if lit == '':
            return False
        if isinstance(t, str):
            return t == (lit if not up else lit)
        if t is Other:
            return False
        return None

    def rng(self, v):
        if num(v) is not None:
            return num(v), num(v)
        if v[0] == 'tok' and v[3] == 'int':
            i = v[2]
            if not self.ok(i):
                return self.rng(v[4]) if v[4][0] != 'tok' else (None, None)
            if i >= len(self.t):
                return self.rng(v[4])
            t = self.t[i]
            if isinstance(t, I):
                return t.lo, t.hi
            return 0, 0         # no number: zero is stored
        return None, None

    def atom(self, a):
        """truth of an atomic condition for this line, or None"""
        if a[0] == 't':
            v = a[1]
            if v[0] == 'streamok':
                return self.ok(v[1])
            if v[0] == 'call' and v[1] == NS + 'BackendStore::lookup' and v[3] and v[3][0][0] == 'tok' and not self.ok(v[3][0][2] + 1):
                return False        # no backend has the empty name: BACKEND ADD does not take it
            if v[0] == 'streamend':
                return len(self.t) <= v[1] if self.ok(v[1]) else None
            if v[0] == 'streamgood':        # white space may follow the last word
                return True if self.ok(v[1]) and v[1] < len(self.t) else None if self.ok(v[1]) else False
            if v[0] == 'streameof':
                return False if self.ok(v[1]) and v[1] < len(self.t) else None if v[1] == len(self.t) or Bad in self.t else True
            if v[0] == 'tok' and v[3] == 'int':
                lo, hi = self.rng(v)
                if (lo, hi) == (0, 0):
                    return False
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return True
            if v[0] == 'call' and v[1] == 'boost::algorithm::iequals' and len(v[3]) >= 2:
                for x, y in ((0, 1), (1, 0)):
                    if v[3][y][0] == 'str':
                        return self.word(('upper', v[3][x]), v[3][y][1].upper())
            if v[0] == 'mk' and v[1] == 'std::tuple':
                return True
            if v[0] == 'call' and v[1].endswith('::eof') or v[0] == 'call' and v[1].endswith('::good'):
                return None
            return None
        if a[0] == '==':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] == 'str':
                    r = self.word(x, y[1])
                    if r is not None:
                        return r
            lx, ly = self.rng(a[1]), self.rng(a[2])
            if lx[0] is not None and lx[0] == lx[1] and ly[0] is not None and ly[0] == ly[1]:
                return lx == ly
            return None
        if a[0] == 'empty':
            v = a[1]
            while v[0] in ('upper', 'lower'):
                v = v[1]
            if v[0] == 'tok' and v[3] == 'str':
                return not self.ok(v[2] + 1)
            return None
        if a[0] == '<':
            lx, ly = self.rng(a[1]), self.rng(a[2])
            if lx[1] is not None and ly[0] is not None and lx[1] < ly[0]:
                return True
            if lx[0] is not None and ly[1] is not None and lx[0] >= ly[1]:
                return False
        return None

    def possible(self, st):
        for a, v in st.facts.items():
            r = self.atom(a)
            if r is not None and r != v:
                return False
            if a[0] == 't' and a[1][0] == 'streamgood' and v and st.facts.get(('t', ('streameof', a[1][1]))):
                return False
        return True

    def show(self):
        return ' '.join(t if isinstance(t, str) else 'unknown-word' if t is Other else 'not-a-number' if t is Bad else 'number' if isinstance(t, I) else 'word' for t in self.t)


class C(CmdCfg):
    pass


def run(ctx):
    ctx.rule('for each documented command line: exactly the listed changes, with the words of the line as arguments; for incomplete or unknown lines: none')
    cmds = commands(ctx)
    sp = spec()
    for k in sorted(cmds):
        n = k[:-len('ControlCommand')]
        if n not in sp:
            ctx.sample('no table for %s: only documented commands are checked' % k)
            continue
        command(ctx, n, cmds[k], sp[n])
    for n in sp:
        ctx.require(n + 'ControlCommand' in cmds, 'command class ' + n + 'ControlCommand')
    verbs(ctx)
    stores(ctx)


def verbs(ctx):
    E = Engine(ctx.P, EffectCfg())
    for n, w in VERBS.items():
        for f in ctx.fns(n + 'ControlCommand::commandVerb'):
            for st, v, l in E.run(f)[0]:
                ctx.count('verbs')
                if v != ('str', w) and not (v[0] == 'mk' and ('str', w) in v[2]):
                    ctx.violation('verb ' + n, 'the command does not answer to its documented word %s: %s' % (w, pp(v)[:80]), loc_of(f))


def same_new(E, st, v, want):
    if v[0] == 'ptr':
        o = E.load(st, v[1])
        if o[0] == 'mk':
            v = o
        else:
            return heap_new(E, st, v[1], want)
    if v[0] == 'mk' and base_qn(v[1]).endswith('::' + want.cls):
        a = v[2]
        for k, x in want.a.items():
            i = int(k[1:])
            if i >= len(a) or not same(E, st, a[i], x):
                return False
        return True
    return False


def heap_new(E, st, loc, want):
    return False


def same(E, st, v, want):
    if want is ANY:
        return True
    if isinstance(want, Tok):
        while v[0] == 'text' and len(v[1]) == 1:
            v = v[1][0]
        while v[0] in ('trunc', 'cast') and isinstance(v[-1], tuple):
            v = v[-1]
        return v[0] == 'tok' and v[2] == want.i
    if want is True or want is False:
        if num(v) is not None:
            return bool(num(v)) == want
        return truth(E, st, v) is want
    if want == MAX:
        return v[0] == 'call' and v[1].startswith('std::numeric_limits') and v[1].endswith('::max') or num(v) == (1 << 64) - 1
    if want == 'the rest':
        return v[0] == 'call' and v[1].endswith('::c_str') and v[2][0] == 'restline' or v[0] == 'restline' or \
            any(x and x[0] in ('restline',) for x in subterms(v))
    if isinstance(want, Mode):
        return num(v) == want.v
    if isinstance(want, Words):
        if v[0] != 'mk' or not v[1].startswith('std::vector'):
            return False
        ws = v[2]
        return len(ws) == want.j - want.i and all(same(E, st, x, Tok(want.i + k)) for k, x in enumerate(ws))
    if isinstance(want, str):
        return v == ('str', want) or v[0] == 'mk' and v[1].startswith('std::') and not v[2] and want == ''
    if isinstance(want, New):
        return same_new(E, st, v, want)
    if isinstance(want, Q):
        for x in subterms(v):
            if x and x[0] == 'call' and x[1].endswith('::' + want.name):
                return all(same(E, st, x[3][i], w) for i, w in enumerate(want.a))
        return False
    return False


def truth(E, st, v):
    d = E.decide(st, ('t', v))
    if d is None and v[0] == 'cond':
        return None
    return d


def done(st):
    """what a path does: acts, with those inside a visit grouped"""
    out, grp = [], None
    for e in st.tr:
        if e[0] == 'visit-begin':
            grp = []
        elif e[0] == 'visit-end':
            out.append(('visit', tuple(grp)))
            grp = None
        elif e[0] == 'visit-unknown':
            out.append(('visit', None))
        elif e[0] == 'act':
            if e[1].rsplit('::', 1)[-1] in ('toString', 'getQuota'):
                continue
            (out if grp is None else grp).append(e)
        elif e[0] in ('mut', 'set', 'assign', 'erase'):
            (out if grp is None else grp).append(e)
    return out


def matches(ctx, E, st, got, want):
    """-> None or what is wrong"""
    got = list(got)
    for w in want:
        hit = None
        for g in got:
            if fits(E, st, g, w):
                hit = g
                break
        if hit is None:
            return 'it does not %s' % describe(w)
        got.remove(hit)
    if got:
        return 'it also does %s' % '; '.join(shown(g) for g in got)[:300]
    return None


def shown(g):
    if g[0] == 'visit':
        return 'for each session: ' + ', '.join(shown(x) for x in g[1] or ())
    return ' '.join(pp(x)[:100] if isinstance(x, tuple) else str(x) for x in g[1:])


def describe(w):
    if w[0] == 'act':
        return w[1] + '(' + ', '.join('word %d' % x.i if isinstance(x, Tok) else x.cls if isinstance(x, New) else x.name if isinstance(x, Q) else 'any' if x is ANY else str(x) for x in w[2]) + ')'
    if w[0] == 'visit':
        return 'for each session%s %s' % (' of the virtual host' if w[2] is not None else '', ', '.join(describe(x) for x in w[1]))
    return ' '.join(str(x) for x in w)


def fits(E, st, g, w):
    if w[0] == 'act':
        if g[0] != 'act' or not (g[1] == w[1] or g[1].rsplit('::', 1)[-1] == w[1].rsplit('::', 1)[-1]):
            return False
        a = g[3]
        for i, x in enumerate(w[2]):
            if i >= len(a) or not same(E, st, a[i], x):
                return False
        on = w[3]
        if isinstance(on, Q):
            return same(E, st, g[2], on)
        if isinstance(on, str):
            return any(x and x[0] == 'tls' and x[1] == on for x in subterms(g[2]))
        return True
    if w[0] == 'visit':
        if g[0] != 'visit' or g[1] is None:
            return False
        if w[2] is not None:
            m = of_vhost(E, st, w[2])
            if m is None:
                return False
            if m is False:
                return not g[1]
        return matches(None, E, st, g[1], w[1]) is None
    if w[0] == 'subscribe':
        if g[0] != 'mut' or g[2] not in ('push_back', 'emplace_back'):
            return False
        a = g[3]
        x = a[0]
        b = a[1] if len(a) == 2 else recd(x).get('second') if recd(x) else x[2][1] if x[0] == 'list' and len(x[2]) == 2 else None
        return b is not None and num(b) is not None and bool(num(b)) == w[1]
    return False


def of_vhost(E, st, tok):
    """is the session one of the virtual host given?"""
    for a, v in st.facts.items():
        if a[0] == '==' and any(x[0] == 'vhost-of' for x in a[1:3]):
            o = [x for x in a[1:3] if x[0] != 'vhost-of']
            if o and same(E, st, o[0], tok):
                return v
    return None


def refused(name, st):
    """did a query say no on this path?"""
    for q in REFUSE.get(name, ()):
        for a, v in st.facts.items():
            t = a[1] if a[0] == 't' else None
            if q != 'resolve' and t is not None and v is False and any(x and x[0] == 'call' and x[1].endswith('::' + q) for x in subterms(t)):
                return True
            if q == 'resolve' and a[0] == 't' and v is True and t[0] == 'hv':
                return True
            if q in ('lookup',) and a[0] == 't' and v is False and t[0] == 'lv':
                return True
    return False


def command(ctx, name, fn, rules):
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    outs, thr = E.run(fn)
    ctx.count('commands')
    ctx.count('paths', len(outs))
    line = fn['p'][1]['n']
    short = name + 'ControlCommand::handleCommand'

    def bad(key, t, st):
        ctx.violation('%s: %s' % (short, key), t, loc_of(fn), trace_lines(st))
    for st, v, l in outs:
        for a in st.facts:
            for x in subterms(a):
                if x and x[0] == 'tok' and line and line not in repr(x[1]):
                    bad('words', 'the words looked at are not those of the command line', st)
    for toks, want in rules:
        ln = Line(toks)
        hit = False
        for st, v, l in outs:
            if not ln.possible(st):
                continue
            ctx.count('line_path_pairs')
            if special(ctx, E, cfg, name, toks, st, bad):
                hit = True
                continue
            got = done(st)
            if refused(name, st):
                if got:
                    bad('refused ' + ln.show(), '%s %s: although a name in it is not known it changes something: %s' % (VERBS[name], ln.show(), '; '.join(shown(g) for g in got)[:200]), st)
                continue
            if name == 'Farm' and got and toks[0] in ('ADD', 'ADD_MANUAL'):
                for i in range(3, len(toks)):
                    if not any(v2 and a[0] == 't' and a[1][0] == 'call' and a[1][1].endswith('::lookup') and any(same(E, st, x, Tok(i)) for x in a[1][3]) for a, v2 in st.facts.items()):
                        bad('unknown backend', 'FARM %s: it is not seen to that the backend named in word %d exists' % (ln.show(), i), st)
            if name == 'Stat' and not got and any(e[0] == 'out' for e in st.tr) and toks[:1] in (['LISTEN'], ['SEND']):
                ctx.count('refused_filters')
                if len(toks) == 3 and toks[0] == 'LISTEN' or any(a[0] != 't' or a[1][0] != 'streamok' for a in st.facts):
                    continue
            hit = True
            r = matches(ctx, E, st, got, want)
            if r:
                bad(ln.show(), '%s %s: %s' % (VERBS[name], ln.show(), r), st)
        if not hit:
            ctx.violation('%s: %s' % (short, ln.show()), '%s %s has no effect' % (VERBS[name], ln.show()), loc_of(fn))
    for toks, what in malformed(rules):
        if (name, ' '.join(t if isinstance(t, str) else '*' for t in toks)) in ALLOW_SHORT and Other not in toks and Bad not in toks:
            continue
        ln = Line(toks)
        for st, v, l in outs:
            if not ln.possible(st):
                continue
            ctx.count('malformed_line_path_pairs')
            got = done(st)
            if got:
                bad('malformed ' + ln.show(), '%s, %s, still changes something: %s' % (VERBS[name], what, '; '.join(shown(g) for g in got)[:200]), st)
    ctx.done(E)


def is_second(v):
    return v[0] == 'ld' and v[1][0] == 'fld' and v[1][2] == 'second' or v[0] == 'getf' and v[-1] == 'second'


def special(ctx, E, cfg, name, toks, st, bad):
    if name == 'Stat' and toks == ['STOP', 'SEND']:
        got = done(st)
        sending = [v for a, v in st.facts.items() if a[0] == 't' and is_second(a[1])]
        er = [g for g in got if g[0] in ('mut', 'erase') and (g[0] == 'erase' or g[2] == 'erase')]
        rest = [g for g in got if g not in er]
        for g in list(rest):
            if g[0] == 'mut' and g[2] in ('remove_if',):
                ok = False
                for f in find_funcs(g[3][0]):
                    r = E.invoke(f, st, [('elem', 'x')], [('obj', 'x')], None, None) or ()
                    ok = bool(r) and all(is_second(x[1]) and E.load(x[0], x[1][1]) == x[1] if x[1][0] == 'ld' else False for x in r)
                if ok:
                    rest.remove(g)
                    sending = sending or [True]
                    er = er or [g]
        if rest or len(er) != sum(1 for v in sending if v):
            bad('STOP SEND', 'STAT STOP SEND does not take away exactly the subscriptions that send to an address: %d of them seen, %d taken away%s' %
                (sum(1 for v in sending if v), len(er), '; also ' + '; '.join(shown(g) for g in rest)[:120] if rest else ''), st)
        return True
    return False


class K:
    """one step: a method with arguments"""
    def __init__(self, m, *a):
        self.m, self.a = m, list(a)


A = lambda n: ('arg', n)


def outcomes(ctx, E, step, st0, memo={}):
    """what a query returns from that state: {(value, what was found in the store)}"""
    out = set()
    f = ctx.fn(step.m)
    outs, thr = E.run(f, args=list(step.a), st=st0.copy())
    ctx.done(E)
    for st, v, l in outs:
        seen = frozenset((pp(a), x) for a, x in st.facts.items() if st0.facts.get(a) != x and a[0] in ('has', 't', '=='))
        out.add((pp(v), seen))
    for st, t, v in [(t + (None,))[:3] for t in thr]:
        out.add(('throws', frozenset((pp(a), x) for a, x in st.facts.items() if st0.facts.get(a) != x and a[0] == 'has')))
    return out


def laws(ctx):
    E = Engine(ctx.P, EffectCfg())
    V, O, Qv = A('V'), A('other'), A('Q')

    def law(cls, queries, ops):
        """ops: (step, {query index: expected}); a query not mentioned returns what it would have returned without the step"""
        fresh = [outcomes(ctx, E, q, St()) for q in queries]
        for op, exp in ops:
            f = ctx.fn(op.m)
            for st, v, l in E.run(f, args=list(op.a))[0]:
                for i, q in enumerate(queries):
                    ctx.count('store_laws')
                    got = outcomes(ctx, E, q, st)
                    want = fresh[i]
                    e = exp.get(i)
                    if callable(e):
                        ok = e(got, fresh)
                    elif e is not None:
                        ok = {g[0] for g in got} == {e}
                    else:
                        ok = {g[0] for g in got} == {w[0] for w in want}
                    if not ok:
                        nm = lambda s: '%s(%s)' % (s.m, ', '.join(pp(x) for x in s.a))
                        ctx.violation('%s then %s' % (op.m, nm(q)), 'after %s, %s returns %s%s' % (nm(op), nm(q), ' or '.join(sorted(g[0] for g in got))[:160],
                                      ', not ' + e if isinstance(e, str) else ' (unrelated to it, it used to return %s)' % ' or '.join(sorted(w[0] for w in want))[:160] if e is None else ''),
                                      loc_of(f), trace_lines(st))
        ctx.done(E)
    c = 'DataRateLimitManager::'
    q = [K(c + 'getDataRateLimit', V), K(c + 'getDataRateLimit', O), K(c + 'getDataRateAlarm', V), K(c + 'getDataRateAlarm', O), K(c + 'getDefaultDataRateLimit'), K(c + 'getDefaultDataRateAlarm')]

    def default(i, d):
        """entries of their own keep it, the others follow the default"""
        def f(got, fresh):
            old = {w[0] for w in fresh[d]}
            return {g[0] for g in got} == {'arg:Q' if w[0] in old else w[0] for w in fresh[i]}
        return f

    def to_default(d):
        return lambda got, fresh: {g[0] for g in got} == {w[0] for w in fresh[d]}
    law(c, q, [(K(c + 'setVhostDataRateLimit', V, Qv), {0: 'arg:Q'}), (K(c + 'setVhostDataRateAlarm', V, Qv), {2: 'arg:Q'}),
               (K(c + 'setDefaultDataRateLimit', Qv), {4: 'arg:Q', 0: default(0, 4), 1: default(1, 4)}), (K(c + 'setDefaultDataRateAlarm', Qv), {5: 'arg:Q', 2: default(2, 5), 3: default(3, 5)}),
               (K(c + 'disableVhostDataRateLimit', V), {0: to_default(4)}), (K(c + 'disableVhostDataRateAlarm', V), {2: to_default(5)})])
    c = 'BackendStore::'
    law(c, [K(c + 'lookup', V), K(c + 'lookup', O)], [(K(c + 'remove', V), {0: 'null'})])
    f = ctx.fn(c + 'insert')
    nm = None
    for st, v, l in E.run(f)[0]:
        ctx.count('store_laws')
        sets = [e for e in st.tr if e[0] in ('set', 'mut', 'assign', 'erase')]
        had = [x for a, x in st.facts.items() if a[0] == 'has']
        if num(v) == 0 and not sets or num(v) not in (0, None) and sets:
            ctx.violation('BackendStore::insert', 'reports %s but %s' % (pp(v), 'stores nothing' if not sets else 'changes the store'), loc_of(f), trace_lines(st))
        for e in sets:
            if e[0] == 'set' and (not name_of(e[2]) or field_is(e[4], 'backend') is False):
                ctx.violation('BackendStore::insert key', 'a broker is not filed under its own name: %s' % pp(e[2])[:80], loc_of(f), trace_lines(st))
    c = 'FarmStore::'
    law(c, [K(c + 'getFarmByName', V), K(c + 'getFarmByName', O)], [(K(c + 'removeFarmByName', V), {0: 'throws'})])
    f = ctx.fn(c + 'addFarm')
    for st, v, l in E.run(f)[0]:
        ctx.count('store_laws')
        sets = [e for e in st.tr if e[0] in ('set', 'mut', 'assign', 'erase')]
        ok = [e for e in sets if e[0] == 'set' and name_of(e[2]) and 'arg:farm' in pp(e[4]) + pp(e[2])]
        if ok:  # an older one may be taken out first, and kept elsewhere
            sets = [e for e in sets if e[1] == ok[0][1]]
            if len(sets) == 2 and sets[0][0] == 'erase' and sets[0][2] == ok[0][2]:
                sets = sets[1:]
        if len(ok) != 1 or any(e for e in sets if e[0] != 'set'):
            ctx.violation('FarmStore::addFarm', 'the farm is not filed under its own name (replacing the one there): %s' % '; '.join(shown(e) for e in sets)[:160], loc_of(f), trace_lines(st))
    c = 'VhostState::'
    law(c, [K(c + 'isPaused', V), K(c + 'isPaused', O)], [(K(c + 'setPaused', V, ('int', 1)), {0: '1'}), (K(c + 'setPaused', V, ('int', 0)), {0: '0'})])
    law('Datacenter::', [K('Datacenter::get')], [(K('Datacenter::set', V), {0: 'arg:V'})])
    law('Server::', [K('Server::getAuthIntercept')], [(K('Server::setAuthIntercept', V), {0: 'arg:V'}), (K('Server::setHostnameMapper', V), {})])
    # a broker has the properties it was made with
    acc = ('name', 'datacenterTag', 'host', 'ip', 'port', 'proxyProtocolEnabled', 'tlsEnabled', 'dnsBasedEntry')
    for f in ctx.fns('Backend::Backend'):
        if len(f['p']) != 8:
            continue
        for st, v, l in E.run(f, args=[A('p%d' % i) for i in range(8)])[0]:
            for i, a in enumerate(acc):
                ctx.count('store_laws')
                got = {g[0] for g in outcomes(ctx, E, K('Backend::' + a), st)}
                if got != {'arg:p%d' % i}:
                    ctx.violation('Backend::' + a, 'a broker made with argument %d as its %s reports %s' % (i + 1, a, ' or '.join(sorted(got))[:120]), loc_of(f), trace_lines(st))
    f = ctx.fn('StatCollector::collectPerSourceStats')
    for st, v, l in E.run(f, args=[V])[0]:
        ctx.count('store_laws')
        w = [x for k, x in st.mem.items() if k[0] == 'fld' and k[1] == T]
        if w != [V]:
            ctx.violation('collectPerSourceStats', 'the switch is not stored as given: %s' % [pp(x) for x in w], loc_of(f), trace_lines(st))
    for m, k in (('setConsoleVerbosity', 'Console'), ('setFileVerbosity', 'File')):
        f = ctx.fn('Logging::' + m)
        for st, v, l in E.run(f, args=[V])[0]:
            ctx.count('store_laws')
            w = {pp(k2): x for k2, x in st.mem.items() if 'Verbosity' in pp(k2)}
            if [x for x in w.values()] != [V] or k.lower() not in list(w)[0].lower():
                ctx.violation(m, 'sets %s' % {a: pp(x) for a, x in w.items()}, loc_of(f), trace_lines(st))
    ctx.done(E)


def name_of(k):
    return any(x and (x[0] == 'fld' and x[2] == 'd_name' or x[0] == 'call' and x[1].endswith('::name')) for x in subterms(k))


def field_is(v, n):
    return n in pp(v)


def stores(ctx):
    laws(ctx)
