"""Typestate engine over effect trees: propagates sets of abstract states through
if/loop/while/try/inlined blocks to a fixpoint."""
from .nf import mk_not, TRUE, FALSE


class TS:
    def __init__(self, step, assume=None, enter_loop=None, limit=4000, loop_min=0, dead_after_raise=True):
        self.step = step            # (node, state) -> iterable of states
        self.assume = assume or (lambda f, s: (s,))   # (formula, state) -> iterable of states ([] = infeasible)
        self.enter_loop = enter_loop
        self.limit = limit
        self.loop_min = loop_min    # callable(node)->bool or 0: loop may run zero times
        self.at_exit = []

    def run(self, effs, states):
        out = {'next': set(states), 'ret': set(), 'break': set(), 'cont': set(), 'raise': set()}
        cur = set(states)
        for n in effs:
            if not cur:
                break
            f = self.node(n, cur)
            cur = f.get('next', set())
            for k in ('ret', 'break', 'cont', 'raise'):
                out[k] |= f.get(k, set())
            if len(cur) > self.limit:
                raise OverflowError('typestate set too large')
        out['next'] = cur
        return out

    def filt(self, f, states):
        r = set()
        for s in states:
            r |= set(self.assume(f, s))
        return r

    def node(self, n, cur):
        k = n.k
        if k == 'if':
            t = self.run(n.then, self.filt(n.cond, cur))
            e = self.run(n.els, self.filt(mk_not(n.cond), cur))
            return {x: t[x] | e[x] for x in t}
        if k == 'inl':
            f = self.run(n.body, cur)
            return {'next': f['next'] | f['ret'], 'raise': f['raise'], 'ret': set(), 'break': set(), 'cont': set()}
        if k == 'iter':
            f = self.run(n.body, cur)
            return {'next': f['next'] | f['cont'] | f['break'], 'raise': f['raise'], 'ret': f['ret']}
        if k in ('loop', 'while'):
            out = {'ret': set(), 'raise': set()}
            head = set(cur)
            exits = set()
            if k == 'loop' and self.loop_min and self.loop_min(n):
                f = self.run(n.body, self._enter(n, head))
                out['ret'] |= f['ret']
                out['raise'] |= f['raise']
                exits |= f['break']
                head = f['next'] | f['cont']
            seen = set()
            while True:
                new = head - seen
                if not new:
                    break
                seen |= new
                if k == 'while':
                    c = self.run(n.condeff, new)['next']
                    exits |= self.filt(mk_not(n.cond), c) if n.cond != TRUE else set()
                    enter = self.filt(n.cond, c)
                else:
                    exits |= new
                    enter = self._enter(n, new)
                f = self.run(n.body, enter)
                out['ret'] |= f['ret']
                out['raise'] |= f['raise']
                exits |= f['break']
                head = seen | f['next'] | f['cont']
                if len(head) > self.limit:
                    raise OverflowError('typestate set too large')
            out['next'] = exits
            return out
        if k == 'try':
            # exceptions may interrupt the body between any two events
            inter = [set(cur)]
            saved = self.step

            def step(node, s):
                r = set(saved(node, s))
                inter[0] |= r
                return r
            self.step = step
            f = self.run(n.body, cur)
            self.step = saved
            hs = inter[0] | f['raise']
            out = {x: set(f[x]) for x in f}
            out['raise'] = set() if any('*' in nm or 'Exception' in nm or 'BaseException' in nm for nm, _, _ in n.handlers) else f['raise']
            for names, he, loc in n.handlers:
                g = self.run(he, hs)
                for x in g:
                    out[x] |= g[x]
            if n.final:
                res = {}
                for x in out:
                    g = self.run(n.final, out[x]) if out[x] else {'next': set()}
                    res[x] = g['next']
                    for y in ('ret', 'raise'):
                        if g.get(y):
                            res.setdefault(y, set())
                            res[y] = res[y] | g[y]
                out = res
            return out
        st = set()
        for s in cur:
            st |= set(self.step(n, s))
        if k == 'ret':
            return {'ret': st}
        if k == 'raise':
            return {'raise': st}
        if k == 'break':
            return {'break': st}
        if k == 'continue':
            return {'cont': st}
        return {'next': st}

    def _enter(self, n, states):
        if self.enter_loop is None:
            return states
        r = set()
        for s in states:
            r |= set(self.enter_loop(n, s))
        return r
