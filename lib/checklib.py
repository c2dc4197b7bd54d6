"""Shared plumbing of the checks: findings, evidence, known findings."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
NS = 'Bloomberg::amqpprox::'


class CheckError(Exception):
    """the check cannot give an answer (vanished anchor, engine limit)"""


class Ctx:
    def __init__(self, prop, tier, P):
        self.prop, self.tier, self.P = prop, tier, P
        self.viol = []
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.unknown = {}
        self.rules = []
        self.assumptions = []
        self._seen = set()

    # -- reporting -----------------------------------------------------------
    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, cap=12):
        if len(self.samples) < cap:
            self.samples.append(text)

    def violation(self, key, text, where=None, path=None):
        """key: stable identity (construct + rule), no line numbers"""
        if key in self._seen:
            return
        self._seen.add(key)
        self.viol.append({'key': key, 'text': text, 'where': where, 'path': path})

    def require(self, cond, what):
        if not cond:
            raise CheckError('anchor or instance missing: ' + what)

    def done(self, eng):
        self.functions |= eng.analysed
        for k, v in eng.unknown.items():
            self.unknown[str(k)] = self.unknown.get(str(k), 0) + v

    # -- program lookups -----------------------------------------------------
    def fns(self, qn):
        """definitions of a (namespace-less) qualified name"""
        from absint import base_qn
        if not hasattr(self, '_by'):
            self._by = {}
            for f in self.P.functions.values():
                self._by.setdefault(base_qn(f['qn']), []).append(f)
        r = self._by.get(NS + qn) or self._by.get(qn) or []
        return [f for f in r if f.get('b')]

    def fn(self, qn):
        r = self.fns(qn)
        self.require(len(r) >= 1, 'function ' + qn)
        return r[0]

    def record(self, qn):
        r = self.P.records.get(NS + qn) or self.P.records.get(qn)
        self.require(r is not None, 'class ' + qn)
        return r


def loc_of(f, line=None):
    return '%s:%s' % (f['file'].replace(REPO + '/', ''), line if line is not None else f['l'])


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out[d['key']] = d
    return out


def finish(ctx, level, explanation, t0):
    kn = known(ctx.prop)
    bad, listed = [], []
    for v in ctx.viol:
        (listed if v['key'] in kn else bad).append(v)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, kn[v['key']]['text']))
    evd = os.environ.get('VP_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    cov = {'explanation': explanation, 'rules': ctx.rules,
           'functions_analysed': len(ctx.functions),
           'translation_units': len(ctx.P.tus),
           'counts': ctx.counts, 'samples': ctx.samples,
           'constructs_without_precise_semantics': ctx.unknown,
           'known_findings': [v['key'] for v in listed]}
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad), 'assumptions': ctx.assumptions}
    with open(os.path.join(evd, ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    rp = os.path.join(evd, ctx.prop + '.violations.txt')
    if bad:
        with open(rp, 'w') as f:
            for v in bad:
                f.write('%s\n  construct: %s\n  at: %s\n' % (v['text'], v['key'], v['where']))
                for s in v['path'] or ():
                    f.write('    %s\n' % (s,))
        for v in bad:
            print('%s [%s] %s' % (v['text'], v['where'], v['key']))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print('%s: held; %d functions analysed; %s' % (
        ctx.prop, len(ctx.functions), ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items()))))
    return 0
