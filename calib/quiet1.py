"""calibration: one respelled site per function - no DIFF allowed (usage: quiet1.py [kind ...] [-v] [-r ROUNDS])"""
import ast, os, sys, shutil, tempfile, collections, multiprocessing, random, copy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'calib')); sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter('ignore')
import exprs
REPO = os.environ.get('NEPHOSEM_REPO', '/repo')


def one(job):
    kind, rnd = job
    from sa.model import Program
    from sa.refcmp import RefCmp
    d = tempfile.mkdtemp(prefix='quiet1_')
    stat, out, more = collections.Counter(), [], False
    try:
        for base, ds, fs in os.walk(os.path.join(REPO, 'nephosem')):
            if 'tests' in base or '__pycache__' in base:
                continue
            for f in fs:
                src = os.path.join(base, f)
                dst = os.path.join(d, os.path.relpath(src, REPO))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                try:
                    t = ast.parse(open(src, encoding='utf-8').read()) if f.endswith('.py') else None
                except SyntaxError:
                    t = None
                if t is None:
                    shutil.copy(src, dst)
                    continue
                for n in ast.walk(t):
                    for c in getattr(n, 'body', []) if isinstance(n, (ast.Module, ast.ClassDef)) else []:
                        if isinstance(c, ast.FunctionDef):
                            k = exprs.apply(c, kind, rnd)
                            more = more or k > rnd + 1
                open(dst, 'w', encoding='utf-8').write(ast.unparse(ast.fix_missing_locations(t)))
        R = RefCmp(Program(d))
        # one function at a time: every other function keeps its reviewed text
        ch = sorted(R.changed())
        for q in ch:
            own = R.compare(q) if q not in R.sigchanged else ('UNK', [])
            v = ('EQ', []) if own[0] == 'EQ' else R.alone(q, own, {q})
            stat[v[0]] += 1
            if v[0] != 'EQ':
                out.append((v[0], q, v[1]))
    except Exception:
        import traceback
        out.append(('EXC', kind, traceback.format_exc()))
    finally:
        shutil.rmtree(d)
    return job, stat, out, more


if __name__ == '__main__':
    args = sys.argv[1:]
    R = int(args[args.index('-r') + 1]) if '-r' in args else 3
    ks = [k for k in args if k in exprs.KINDS] or sorted(exprs.KINDS)
    tot = collections.Counter()
    from sa.nf import show
    with multiprocessing.Pool(8) as p:
        for job, stat, out, more in p.imap_unordered(one, [(k, r) for k in ks for r in range(R)]):
            if not stat and not out:
                continue
            print(job, dict(stat))
            tot.update(stat)
            for st, q, r in out:
                if st in ('DIFF', 'EXC') or '-v' in args:
                    print('   ', st, q)
                    if st == 'EXC':
                        print(r)
                        continue
                    for x in r[:3]:
                        print('        ', x[0], x[2], str(x[3])[:200])
                        for pr in x[1][:2]:
                            print('              ref', show(pr[0])[:300])
                            print('              cur', show(pr[1])[:300])
    print(dict(tot))
