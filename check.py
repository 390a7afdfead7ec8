#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property of the nephosem sources in $NEPHOSEM_REPO (default /repo).

Reads and analyses the source text only; the analysed package is never imported or run.
exit 0: held (known findings are printed); exit 1: VIOLATION; exit 2: analysis broken.
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)

from sa.model import load, AnalysisBroken   # noqa: E402


class Ctx:
    def __init__(self, prop, prog, tier):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.violations = []
        self.obligations = []
        self.notes = []
        self.functions = set()
        self.rules = {}
        self.assumptions = []
        self._seen = set()

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, construct, detail=''):
        self.obligations.append((rule, construct, 'discharged', detail))

    def undecided(self, rule, construct, detail=''):
        """the shape is outside what the rule can judge; never an alarm"""
        self.obligations.append((rule, construct, 'undecided', detail))

    def bad(self, rule, construct, loc, msg):
        key = (rule, construct)
        if key in self._seen:
            return
        self._seen.add(key)
        self.obligations.append((rule, construct, 'violated', '%s: %s' % (loc, msg)))
        self.violations.append({'rule': rule, 'construct': construct, 'loc': loc, 'message': msg})

    def covers(self, interp):
        self.functions |= set(interp.visited_funcs)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        prog = load()
        mod = importlib.import_module('sa.rules.' + prop.lower())
        ctx = Ctx(prop, prog, tier)
        mod.run(ctx)
        if not ctx.obligations:
            raise AnalysisBroken('no obligations were generated')
        floor = getattr(mod, 'FLOOR', 1)
        if len(ctx.obligations) < floor:
            raise AnalysisBroken('only %d obligations, expected at least %d' % (len(ctx.obligations), floor))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        return 2
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get('status') == 'known' and k['property'] == prop]
    new, old = [], []
    for v in ctx.violations:
        m = [k for k in known if k['rule'] == v['rule'] and k['construct'] == v['construct']]
        if m:
            old.append((v, m[0]))
        else:
            new.append(v)
    n = {s: sum(1 for o in ctx.obligations if o[2] == s) for s in ('discharged', 'violated', 'undecided')}
    evd = os.environ.get('EVIDENCE_DIR') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'rules': ctx.rules,
            'modules_parsed': len(prog.modules),
            'functions_in_package': len(prog.funcs),
            'functions_analysed': sorted(ctx.functions),
            'obligations': len(ctx.obligations),
            'discharged': n['discharged'],
            'violated': n['violated'],
            'undecided': n['undecided'],
            'samples': [{'rule': r, 'construct': c, 'result': s, 'detail': d} for r, c, s, d in ctx.obligations[:400]],
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v, k in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, v['construct'], v['rule'], k.get('what', v['message'])))
    rc = 0
    if new:
        rp = os.path.join(evd, prop + '.violations.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s: rule %s violated by %s\n    %s\n    rule: %s\n' % (
                    v['loc'], v['rule'], v['construct'], v['message'], ctx.rules.get(v['rule'], '')))
        for v in new:
            print('%s: [%s] %s: %s' % (v['loc'], v['rule'], v['construct'], v['message']))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    print('%s: %d obligations, %d discharged, %d violated (%d known), %d undecided; %d functions analysed' % (
        prop, len(ctx.obligations), n['discharged'], n['violated'], len(old), n['undecided'], len(ctx.functions)))
    if '-v' in argv:
        for o in ctx.obligations:
            print('  ', o)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
