"""calibration: the rules of the property modules (without the comparison) on refactored trees - no violation, no
broken analysis (usage: rules.py [-m] [Cnn ...])"""
import sys, os, shutil, random, multiprocessing, importlib, warnings
warnings.simplefilter('ignore')
import quiet, refactor
MODS = ['c02', 'c07', 'c09', 'c10', 'c11', 'c13', 'c17', 'c18']


def one(a):
    kinds, prob, seed, mods = a
    sys.path.insert(0, quiet.HERE)
    from sa.model import Program, AnalysisBroken
    from check import Ctx
    from sa.refcmp import RefCmp
    # the rules have to be quiet without the help of the comparison
    RefCmp.verdicts = lambda self: {q: ('UNK' if q in self.cf else 'GONE', []) for q in self.rf}
    d, _ = quiet.build(kinds, prob, seed)
    out, n = [], 0
    try:
        prog = Program(d)
        for m in mods:
            mod = importlib.import_module('sa.rules.' + m)
            for x in ('reference', 'kind_rule'):
                if hasattr(mod, x):
                    setattr(mod, x, lambda *a, **k: None)
            ctx = Ctx(m.upper(), prog, 'quick')
            try:
                mod.run(ctx)
            except AnalysisBroken as e:
                out.append((m, 'BROKEN', str(e)))
            except Exception:
                import traceback
                out.append((m, 'EXC', traceback.format_exc()))
            n += len(ctx.obligations)
            out += [(m, v['rule'], v['construct'], v['message'][:150]) for v in ctx.violations]
    finally:
        shutil.rmtree(d)
    return kinds, n, out


if __name__ == '__main__':
    mods = [k.lower() for k in sys.argv[1:] if k[0] == 'C'] or MODS
    jobs = [((k,), 1.0, 0, mods) for k in sorted(refactor.ALL)]
    if '-m' in sys.argv:
        rng = random.Random(7)
        jobs = [(tuple(rng.sample(sorted(refactor.ALL), 4)), 0.8, i, mods) for i in range(60)]
    seen = set()
    tot = 0
    with multiprocessing.Pool(8) as p:
        for k, n, out in p.imap_unordered(one, jobs):
            tot += n
            for o in out:
                if o not in seen:
                    seen.add(o)
                    print(k, *o)
    print(tot, 'obligations,', len(seen), 'different alarms')
