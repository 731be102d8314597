"""Obligations, known findings, evidence and exit status."""
import json
import os
import re
import time
import traceback
from .terms import show, Term

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnalysisError(Exception):
    pass


def txt(x, n=260):
    s = show(x) if isinstance(x, (Term, tuple)) else str(x)
    return s if len(s) <= n else s[:n] + '...'


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = {}          # key -> (status, where, text)
        self.rules = {}
        self.rule = '-'

    def use(self, name, text):
        """start a rule: following obligations belong to it"""
        self.rule = name
        self.rules[name] = text

    def add(self, status, key, where, text=''):
        k = '%s:%s' % (self.rule, key)
        old = self.obl.get(k)
        rank = {'ok': 0, 'undecided': 1, 'violation': 2}
        if old is None or rank[status] > rank[old[0]]:
            self.obl[k] = (status, where, txt(text))

    def ok(self, key, where='', text=''):
        self.add('ok', key, where, text)

    def bad(self, key, where='', text=''):
        self.add('violation', key, where, text)

    def unk(self, key, where='', text=''):
        self.add('undecided', key, where, text)

    def check(self, cond, key, where='', text=''):
        self.add('ok' if cond else 'violation', key, where, text)
        return cond

    def count(self, s):
        return sum(1 for v in self.obl.values() if v[0] == s)


def known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p))['findings']:
            if f['property'] == prop:
                out[f['key']] = f['what']
    return out


def take(R, rules, ctx, tier):
    for f in rules:
        try:
            f(ctx, R, tier)
        except Exception as e:      # code this analysis cannot read: no verdict from this rule
            if os.environ.get('SA_DEBUG'):
                raise
            R.unk('%s:not readable' % f.__name__, '', '%s: %s' % (type(e).__name__, traceback.format_exc(limit=-3)[-400:]))


def share(R, ctx, tier):
    """obligations of other properties on which this one depends as well"""
    from .rules import REGISTRY
    from .shared import S
    done = {}
    for src, pat in S.get(R.prop, ()):
        if src not in done:
            done[src] = Report(src)
            take(done[src], REGISTRY[src][1], ctx, tier)
        Q, kn = done[src], known(src)
        for k, v in Q.obl.items():
            if k in kn or not re.match(pat, k):
                continue
            rule, rest = k.split(':', 1)
            R.rules.setdefault('%s>%s' % (src, rule), Q.rules.get(rule, ''))
            R.obl.setdefault('%s>%s' % (src, k), v)


def main(prop, meta, rules, ctx_factory):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    R = Report(prop)
    ctx = ctx_factory()
    take(R, rules, ctx, tier)
    share(R, ctx, tier)
    kn = known(prop)
    viol, seen = [], []
    for k, (s, w, t) in sorted(R.obl.items()):
        if s == 'violation':
            if k in kn:
                seen.append((k, w, t))
            else:
                viol.append((k, w, t))
    nok, nun = R.count('ok'), R.count('undecided')
    funcs = sorted({f for f in ctx.functions()})
    per = {}
    for k, (s, w, t) in R.obl.items():
        r = k.split(':', 1)[0]
        per.setdefault(r, {'rule': R.rules.get(r, ''), 'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})
        per[r]['obligations'] += 1
        per[r][{'ok': 'discharged', 'undecided': 'undecided', 'violation': 'violated'}[s]] += 1
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': meta['how'],
            'obligations': len(R.obl), 'discharged': nok, 'undecided': nun, 'violated': len(viol), 'known_findings': len(seen),
            'rules': per,
            'functions_analysed': len(funcs), 'functions': funcs[:80],
            'entry_points_interpreted': len(ctx.cache), 'source_files': len(ctx.p.mods) if hasattr(ctx.p, 'mods') else None,
            'undecided_list': [{'obligation': k, 'where': w, 'why': t} for k, (s, w, t) in sorted(R.obl.items()) if s == 'undecided'][:60],
            'samples': [{'obligation': k, 'where': w, 'value': t} for k, (s, w, t) in sorted(R.obl.items()) if s == 'ok'][:25],
        },
        'assumptions': meta.get('assumes', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k, w, t in seen:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, kn[k], w))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d known; %.1fs' % (prop, len(R.obl), nok, nun, len(viol), len(seen), time.time() - t0))
    rp = os.path.join(HERE, 'evidence', prop + '.violation.txt')
    if viol:
        with open(rp, 'w') as f:
            for k, w, t in viol:
                f.write('%s\n  at   %s\n  got  %s\n  rule %s\n\n' % (k, w, t, R.rules.get(k.split(':', 1)[0], '')))
        for k, w, t in viol[:40]:
            print('  %s  [%s]  %s' % (k, w, t))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    floor = max(1, meta.get('floor', 1) // 3)
    if nok < floor:
        print('ANALYSIS-ERROR: only %d obligations discharged (at least %d expected): the code moved away from what this check can read' % (nok, floor))
        return 3
    return 0
