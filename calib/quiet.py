"""calibration: no behaviour-preserving transformation may produce DIFF (usage: quiet.py [kind ...])"""
import ast, os, sys, shutil, tempfile, time, collections, multiprocessing, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'calib')); sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter('ignore')
import refactor
REPO = os.environ.get('NEPHOSEM_REPO', '/repo')


def build(kinds, prob=1.0, seed=0, only=None):
    d = tempfile.mkdtemp(prefix='quiet_')
    cnt = {}
    rng = random.Random(seed)
    for base, ds, fs in os.walk(os.path.join(REPO, 'nephosem')):
        if 'tests' in base or '__pycache__' in base:
            continue
        for f in fs:
            src = os.path.join(base, f)
            rel = os.path.relpath(src, REPO)
            dst = os.path.join(d, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            t = None
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(src, encoding='utf-8').read())
                except SyntaxError:
                    pass
            if t is not None:
                t, c = refactor.transform_module(t, kinds, prob, rng, only)
                open(dst, 'w', encoding='utf-8').write(ast.unparse(t))
                m = rel[:-3].replace('/', '.').replace('.__init__', '')
                for q, n in c.items():
                    cnt[m + '.' + q] = n
            else:
                shutil.copy(src, dst)
    return d, cnt


def one(a):
    kinds, prob, seed = a
    from sa.model import Program
    from sa.refcmp import RefCmp
    d, cnt = build(kinds, prob, seed)
    out = []
    stat = collections.Counter()
    try:
        R = RefCmp(Program(d))
        V = R.verdicts()
        for q in sorted(R.changed()):
            stat[V[q][0]] += 1
            if V[q][0] not in ('SAME', 'EQ'):
                out.append((V[q][0], q, V[q][1]))
    except Exception as e:
        import traceback
        out.append(('EXC', kinds, traceback.format_exc()))
    if '-k' in sys.argv:
        print('kept', d)
    else:
        shutil.rmtree(d)
    return a, stat, out


if __name__ == '__main__':
    ks = [k for k in sys.argv[1:] if not k.startswith('-')] or sorted(refactor.ALL)
    jobs = [((k,), 1.0, 0) for k in ks]
    if '-m' in sys.argv:
        rng = random.Random(7)
        jobs = [(tuple(rng.sample(sorted(refactor.ALL), 4)), 0.8, i) for i in range(60)]
    tot = collections.Counter()
    with multiprocessing.Pool(8) as p:
        for a, stat, out in p.imap_unordered(one, jobs):
            print(a[0], dict(stat))
            tot.update(stat)
            for st, q, r in out:
                if st in ('DIFF', 'EXC') or '-v' in sys.argv:
                    print('   ', st, q)
                    if st == 'EXC':
                        print(r)
                        continue
                    for x in r[:3]:
                        print('        ', x[0], x[2:])
                        for pr in x[1][:2]:
                            from sa.nf import show
                            print('              ref', show(pr[0])[:300])
                            print('              cur', show(pr[1])[:300])
    print(dict(tot))
