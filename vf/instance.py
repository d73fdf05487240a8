"""Instances of an abstract path: digits that satisfy everything the path knows.

A question that the domains cannot answer on a path is not yet a violation: the path may be
contradictory in a way the domains do not see.  Before it is reported, digits that satisfy all
facts of the path are looked for (a hill climb over the recorded constraints), and the question
is asked again about them."""
import random
from .val import *
from .interp import Infeasible


def vacuous(k, d):
    """any word: what an overflowing operation leaves behind before the panic"""
    return len(k) == 1 and k[0][0][0] == 'ovf' and len(d) == 1 and d[0][0] == 0 and d[0][1] & (d[0][1] + 1) == 0


class Instances:
    def __init__(self, I, st, extra=()):
        A = st.env.get('A')     # an inductive path: the dividend fits its digits
        more = [(A.t, ((-A.c, st.env['Amax'] - A.c),))] if isinstance(A, Lin) and 'Amax' in st.env else []
        self.I = I
        self.st = st
        atoms = {}
        cons = [(k, d) for k, d in st.dom.items() if not vacuous(k, d)] + more
        todo = [t for k, _ in cons for t, _ in k] + [t for l in extra if isinstance(l, Lin) for t, _ in l.t]
        while todo:
            t = todo.pop()
            if t in atoms:
                continue
            atoms[t] = None
            if t[0] == 'm':
                todo += t[1]
            elif type(t[1]) is int and t[0] in 'qnsw':
                for x in I.defs[t[1]][1:]:
                    if isinstance(x, Lin):
                        todo += [u for u, _ in x.t]
        self.free = sorted((t for t in atoms if t[0] == 'limb'), key=repr)
        defd = [t for t in atoms if t[0] in ('q', 'n', 's', 'w') and type(t[1]) is int]
        self.other = [t for t in atoms if t not in self.free and t not in defd and t[0] != 'm']
        self.defd = sorted(defd, key=lambda t: t[1])
        self.mono = [t for t in atoms if t[0] == 'm']
        self.cons = cons
        self.dom = {t: st.dom.get(((t, 1),), ((0, (1 << 64) - 1),)) for t in self.free}

    def lin(self, v, l):
        if not isinstance(l, Lin):
            return l
        r = l.c
        for t, k in l.t:
            r += k * self.at(v, t)
        return r

    def at(self, v, t):
        if t in v:
            return v[t]
        if t[0] == 'm':
            r = 1
            for f in t[1]:
                r *= self.at(v, f)
        else:
            d = self.I.defs[t[1]]
            x = self.lin(v, d[1])
            if t[0] == 'q':
                r = x // d[2]
            elif t[0] == 'w':
                r = x
            elif t[0] == 'n':
                r = x & self.lin(v, d[2])
            else:
                y = self.lin(v, d[2])
                r = x // y if y else 0
        v[t] = r
        return r

    def cost(self, x):
        v = dict(zip(self.free, x))
        c = 0
        worst = []
        for k, iv in self.cons:
            n = 0
            for t, m in k:
                n += m * self.at(v, t)
            g = min((a - n if n < a else n - b if n > b else 0) for a, b in iv)
            if g:
                c += 2 + min(g, 1 << 400).bit_length()
                worst.append((k, n, iv))
        return c, worst, v

    def cands(self, r, i):
        d = self.dom[self.free[i]]
        lo, hi = d[0][0], d[-1][1]
        o = [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, r.randint(lo, hi), r.randint(lo, hi) >> r.randint(0, 63), 1 << r.randint(0, 63), (1 << r.randint(0, 64)) - 1, r.randint(0, 9)]
        return [x for x in o if any(a <= x <= b for a, b in d)]

    def find(self, count=6, tries=40, seed=1):
        """several assignments of the free digits"""
        if self.other:
            return
        r = random.Random(seed)
        seen = set()
        if not self.free:
            if not self.cost(())[0]:
                yield ()
            return
        for _ in range(tries):
            x = tuple(r.choice(self.cands(r, i)) for i in range(len(self.free)))
            c, w, v = self.cost(x)
            for _ in range(60):
                if not c:
                    break
                best = None
                moves = []
                for i in range(len(self.free)):
                    for y in self.cands(r, i) + [x[i] + 1, x[i] - 1, x[i] + (1 << r.randint(0, 63)), x[i] - (1 << r.randint(0, 63))]:
                        moves.append((i, y))
                # Newton steps towards the violated constraints
                for k, n, iv in w[:6]:
                    for i, t in enumerate(self.free):
                        e = list(x)
                        e[i] += 1
                        m = self.lin(dict(zip(self.free, e)), Lin(0, k)) - n
                        for s in ({m, dict(k).get(t, 0)} - {0}):
                            for a, b in iv:
                                for z in (a, b):
                                    if z not in (INF, -INF):
                                        d = (z - n) // s
                                        moves += [(i, x[i] + d), (i, x[i] + d + 1)]
                for i, y in moves:
                    if y == x[i] or not any(a <= y <= b for a, b in self.dom[self.free[i]]):
                        continue
                    z = x[:i] + (y,) + x[i + 1:]
                    q = self.cost(z)
                    if best is None or q[0] < best[0][0]:
                        best = (q, z)
                if best is None or best[0][0] > c or best[0][0] == c and r.random() < .2:
                    break
                (c, w, v), x = best
            if not c and x not in seen:
                seen.add(x)
                yield x
                if len(seen) >= count:
                    return

    def pin(self, x):
        """the state of the path for one assignment"""
        st = self.st.clone()
        v = dict(zip(self.free, x))
        for t in self.defd + self.mono:
            self.at(v, t)
        st.dom = {((t, 1),): ((n, n),) for t, n in v.items()}
        return st
