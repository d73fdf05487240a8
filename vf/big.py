"""Exact integer arithmetic for the multi-precision code: the abstract interpreter with
values in the ring of integer polynomials over the limbs of the operands, extended by
floor quotients by powers of two, by quotients with remainder bounds and by the bitwise
`and` of two words (or / xor / not are linear in it)."""
import time
from fractions import Fraction
from math import gcd, floor, ceil
from .val import *
from .interp import Interp, Split, Unmodelled, Infeasible, Panic
from .loopcut import headers
from . import natives, natives2
from .natives import rd, some, NONE

M64 = (1 << 64) - 1
B = 1 << 64


def fl(x):
    return x if x in (INF, -INF) else floor(x)


def ce(x):
    return x if x in (INF, -INF) else ceil(x)


def mul_iv(x, y):
    c = [0 if p == 0 or q == 0 else p * q for p in x for q in y]
    return min(c), max(c)


class OutOfTime(Exception):
    """the paths were not all followed in time"""


CAP = 300000        # blocks on one path
NOEND = 'a path does not come to an end'


class Big(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.defs = []       # id -> definition of an atom
        self.ids = {}
        self.expand = False  # replace words by their definitions (for the oracle)
        self.bc = None       # bounds found during one question
        self.flats = False   # bound products by bounds of their factors
        self.count = 0
        self.deadline = INF
        self.cut = None      # inductive treatment of loops (loopcut.Cut)

    def step_block(self, st):
        self.count += 1
        n = st.env['steps'] = st.env.get('steps', 0) + 1
        if n > CAP:
            raise Panic(NOEND, self.where(st))
        if self.count % 256 == 0 and time.time() > self.deadline:
            raise OutOfTime()
        if self.cut is None:
            return super().step_block(st)
        fr = st.frames[-1]
        if fr.ip == 0 and fr.fn['crate'] == 'nanvm_lib' and st.env.get('athead') != (fr.uid, fr.bb) and fr.bb in headers(fr.fn):
            self.cut.at_header(self, st, fr)
            st.env['athead'] = (fr.uid, fr.bb)
        r = super().step_block(st)
        st.env['athead'] = None
        return r

    # ------------------------------------------------------------ atoms
    def define(self, tag, d):
        k = (tag,) + d
        if k not in self.ids:
            self.ids[k] = len(self.defs)
            self.defs.append(k)
        return (tag, self.ids[k])

    def adom(self, st, t):
        """hull of the domain of an atom"""
        d = st.dom.get(((t, 1),))
        lo, hi = (d[0][0], d[-1][1]) if d else (-INF, INF)
        if t[0] == 'm':
            x = (1, 1)
            for f in t[1]:
                x = mul_iv(x, self.adom(st, f))
            lo, hi = max(lo, x[0]), min(hi, x[1])
        elif d is None and t[0] == 'q':
            _, X, k = self.defs[t[1]]
            a, b = self.bounds(st, X)
            lo, hi = fl(Fraction(a) / k) if a != -INF else a, fl(Fraction(b) / k) if b != INF else b
        elif d is None and t[0] == 'n':
            _, X, Y = self.defs[t[1]]
            lo, hi = 0, min(self.bounds(st, X)[1], self.bounds(st, Y)[1])
        return lo, hi

    def ival(self, st, c, d):
        lo = hi = Fraction(c)
        for t, k in d.items():
            a, b = self.adom(st, t)
            if k < 0:
                a, b = b, a
            lo = -INF if a in (INF, -INF) or lo == -INF else lo + a * k
            hi = INF if b in (INF, -INF) or hi == INF else hi + b * k
        return lo, hi

    def elim(self, st, c, d, up):
        """best bound of c + d from above (up) or below: quotient atoms are replaced, the
        latest one first, by their defining inequality  X - K + 1 <= K q <= X"""
        c, d = Fraction(c), dict(d)
        r = self.ival(st, c, d)[1 if up else 0]
        while True:
            q = [t for t in d if t[0] in 'qw' and type(t[1]) is int]
            if not q:
                return r
            t = max(q, key=lambda t: t[1])
            c, d = self.elim1(c, d, t, up)
            x = self.ival(st, c, d)[1 if up else 0]
            r = min(r, x) if up else max(r, x)

    def forms(self, c, d, up):
        """the form, and what the elimination of its quotients turns it into"""
        yield c, d
        c, d = Fraction(c), dict(d)
        while True:
            q = [t for t in d if t[0] in 'qw' and type(t[1]) is int]
            if not q:
                return
            t = max(q, key=lambda t: t[1])
            c, d = self.elim1(c, d, t, up)
            yield c, d

    def elim1(self, c, d, t, up):
        d = dict(d)
        k = d.pop(t)
        if t[0] == 'w':
            X = self.defs[t[1]][1]
            f = Fraction(k)
            c += f * X.c
        else:
            _, X, K = self.defs[t[1]]
            f = k / Fraction(K)
            X = lin_of(X)
            c += f * (X.c if (k > 0) == up else X.c - K + 1)
        for u, n in X.t:
            d[u] = d.get(u, 0) + f * n
            if d[u] == 0:
                del d[u]
        return c, d

    def flat(self, st, c, d, up):
        """products of two atoms replaced by the bound of one of them"""
        ms = [t for t in d if t[0] == 'm' and len(t[1]) == 2]
        for t in ms[:4]:
            for i in (0, 1):
                f, g = t[1][i], t[1][1 - i]
                if self.adom(st, g)[0] < 0:
                    continue
                x = self.adom(st, f)[1 if (d[t] > 0) == up else 0]
                if x in (INF, -INF):
                    continue
                e = dict(d)
                k = e.pop(t)
                e[g] = e.get(g, 0) + k * x
                if not e[g]:
                    del e[g]
                yield e
                if len(ms) > 1:
                    yield from self.flat(st, c, e, up)

    def facts_of(self, st):
        return [(k, v) for k, v in st.dom.items() if len(k) > 1]

    def bounds(self, st, l, deep=0):
        if not isinstance(l, Lin):
            return l, l
        if not deep:
            return self.bounds_(st, l, deep)
        if self.bc is not None:
            return self.bounds_(st, l, deep)
        self.bc = {}
        try:
            return self.bounds_(st, l, deep)
        finally:
            self.bc = None

    def bounds_(self, st, l, deep):
        d = dict(l.t)
        lo, hi = self.elim(st, l.c, d, False), self.elim(st, l.c, d, True)
        if deep:
            for k, iv in self.facts_of(st):
                seen = set()
                for t, n in k:
                    if t in d:
                        f = Fraction(d[t], n)
                        if f in seen:
                            continue
                        seen.add(f)
                        e = dict(d)
                        for u, m in k:
                            x = e.get(u, 0) - f * m
                            if x:
                                e[u] = x
                            else:
                                e.pop(u, None)
                        if len(e) > max(len(d), len(k)):
                            continue
                        a, b = iv[0][0], iv[-1][1]
                        if f < 0:
                            a, b = b, a
                        if a not in (INF, -INF):
                            x = self.sub(st, l.c, e, False, deep - 1)
                            lo = max(lo, f * a + x)
                        if b not in (INF, -INF):
                            x = self.sub(st, l.c, e, True, deep - 1)
                            hi = min(hi, f * b + x)
            if self.flats:
                for up in (False, True):
                    for c, f in self.forms(l.c, d, up):
                        for e in self.flat(st, c, f, up):
                            x = self.sub(st, c, e, up, deep)
                            if up:
                                hi = min(hi, x)
                            else:
                                lo = max(lo, x)
        return ce(lo), fl(hi)

    def sub(self, st, c, e, up, deep):
        if not e:
            return Fraction(c)
        # the bound of a multiple is the multiple of the bound
        p = min(e, key=repr)
        k = e[p]
        if k < 0:
            up = not up
        key = (frozenset((t, Fraction(n) / k) for t, n in e.items()), up, deep)
        r = self.bc.get(key)
        if r is None:
            r = self.bc[key] = self.sub_(st, 0, {t: Fraction(n) / k for t, n in e.items()}, up, deep)
        return r * k + c if r not in (INF, -INF) else r if k > 0 else -r

    def sub_(self, st, c, e, up, deep):
        r = self.elim(st, c, e, up)
        if deep:
            D = 1
            for n in e.values():
                D = D * Fraction(n).denominator // gcd(D, Fraction(n).denominator)
            l = Lin(0, tuple((t, int(n * D)) for t, n in e.items()))
            a, b = self.bounds(st, l, deep)
            x = b if up else a
            if x not in (INF, -INF):
                x = Fraction(x, D) + c
                r = min(r, x) if up else max(r, x)
        return r

    # ------------------------------------------------------------ domain
    def primitive(self, l):
        """l = g * p + c with p primitive and its first coefficient positive"""
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.t[0][1] < 0:
            g = -g
        return g, tuple((t, k // g) for t, k in l.t)

    def dom_of(self, st, l, deep=0):
        if not isinstance(l, Lin):
            return ((l, l),)
        g, p = self.primitive(l)
        lo, hi = self.bounds(st, Lin(0, p), deep)
        d = ((lo, hi),) if lo <= hi else ()
        if p in st.dom:
            d = iv_and(d, st.dom[p])
        if not d:
            raise Infeasible()
        return iv_scale(d, g, l.c)

    def refine(self, st, l, ivs):
        if not isinstance(l, Lin):
            if not any(a <= l <= b for a, b in ivs):
                raise Infeasible()
            return
        g, p = self.primitive(l)
        n = []
        for a, b in ivs:
            a, b = a - l.c, b - l.c
            if g < 0:
                a, b = -b, -a
            h = abs(g)
            a = a if a in (INF, -INF) else -((-a) // h)
            b = b if b in (INF, -INF) else b // h
            if a <= b:
                n.append((a, b))
        if not n:
            raise Infeasible()
        cur = self.dom_of(st, Lin(0, p))
        new = iv_norm(iv_and(cur, tuple(sorted(n))))
        if not new:
            raise Infeasible()
        st.dom[p] = new
        lo, hi = new[0][0], new[-1][1]
        if len(p) == 1:
            t = p[0][0]
            if t[0] == 'q' and new != cur:
                _, X, K = self.defs[t[1]]
                self.refine(st, X, ((lo * K if lo != -INF else lo, hi * K + K - 1 if hi != INF else hi),))
            if t[0] == 'w' and new != cur and (lo == hi or lo > 0):
                self.refine(st, self.defs[t[1]][1], new)
            if t[0] == 'm' and lo > 0 and new != cur:
                for f in set(t[1]):
                    if self.adom(st, f)[0] == 0:
                        self.refine(st, atom(f), ((1, INF),))
            return
        iv = [self.ival(st, 0, {t: k}) for t, k in p]
        for i, (t, k) in enumerate(p):
            omin = sum(x[0] for j, x in enumerate(iv) if j != i)
            omax = sum(x[1] for j, x in enumerate(iv) if j != i)
            a = lo - omax if lo != -INF and omax != INF else -INF
            b = hi - omin if hi != INF and omin != -INF else INF
            if a > iv[i][0] or b < iv[i][1]:
                self.refine(st, Lin(0, ((t, k),)), ((ce(a), fl(b)),))

    def decide_in(self, st, l, ivs):
        if not isinstance(l, Lin):
            return any(a <= l <= b for a, b in ivs)
        no = iv_not(ivs)
        for deep in (0, 1, 2):
            d = self.dom_of(st, l, deep)
            if not iv_and(d, ivs):
                return False
            if not iv_and(d, no):
                if deep and len(l.t) > 1:
                    self.refine(st, l, ivs)     # implied: remembered
                return True
            if deep == 0:
                l2 = self.subst(st, l)
                if not isinstance(l2, Lin):
                    return any(a <= l2 <= b for a, b in ivs)
        raise Split([lambda s: self.refine(s, l, ivs), lambda s: self.refine(s, l, no)])

    def tighten(self, st):
        """propagate the recorded facts once more; Infeasible if they contradict"""
        for deep in (1, 2):
            for k, iv in list(st.dom.items()):
                if iv[0][0] == iv[-1][1]:
                    self.dom_of(st, Lin(0, k))
                else:
                    self.refine(st, Lin(0, k), self.dom_of(st, Lin(0, k), deep))
        qs = sorted({t for k in st.dom for t, _ in k if t[0] == 'q'}, key=lambda t: t[1])
        for i, t in enumerate(qs):
            _, X, K = self.defs[t[1]]
            for u in qs[:i]:
                a, b = self.bounds(st, lin_add(X, atom(u), -K), 2)
                if a != -INF and b != INF and a // K == b // K:
                    self.refine(st, lin_add(atom(t), atom(u), -1), ((a // K, a // K),))

    # ------------------------------------------------------------ ring operations
    def mono(self, s, t):
        f = (s[1] if s[0] == 'm' else (s,)) + (t[1] if t[0] == 'm' else (t,))
        return ('m', tuple(sorted(f, key=repr)))

    def mul(self, a, b):
        if not isinstance(a, Lin):
            return lin_mul(b, a) if isinstance(b, Lin) else a * b
        if not isinstance(b, Lin):
            return lin_mul(a, b)
        r = lin_add(lin_mul(Lin(0, a.t), b.c), lin_mul(Lin(0, b.t), a.c))
        r = lin_add(r, a.c * b.c)
        for s, j in a.t:
            for t, k in b.t:
                r = lin_add(r, Lin(0, ((self.mono(s, t), j * k),)))
        return r

    def fdiv(self, st, x, k):
        """floor(x / k), k a power of two"""
        if not isinstance(x, Lin):
            return x // k
        if k == 1:
            return x
        out = 0
        # multiples of k come out
        ev = tuple((t, c // k) for t, c in x.t if c % k == 0)
        x = simp(Lin(x.c, tuple((t, c) for t, c in x.t if c % k)))
        if ev:
            out = Lin(0, ev)
        if isinstance(x, Lin):
            out = lin_add(out, x.c // k)
            x = Lin(x.c % k, x.t)
            g = k
            for _, c in x.t:
                g = gcd(g, c)
            if g > 1:
                x = Lin(x.c // g, tuple((t, c // g) for t, c in x.t))
                k //= g
                return lin_add(out, self.fdiv(st, x, k))
            qs = [t for t, c in x.t if c == 1 and t[0] == 'q']
            if len(qs) == 1:
                _, X, j = self.defs[qs[0][1]]
                return lin_add(out, self.fdiv(st, lin_add(X, lin_mul(lin_add(x, atom(qs[0]), -1), j)), j * k))
            d = self.dom_of(st, x)
            lo, hi = d[0][0], d[-1][1]
            if lo != -INF and hi != INF and lo // k == hi // k:
                return lin_add(out, lo // k)
            t = self.define('q', (x, k))
            if ((t, 1),) not in st.dom:
                st.dom[((t, 1),)] = ((lo // k if lo != -INF else lo, hi // k if hi != INF else hi),)
            return lin_add(out, atom(t))
        return lin_add(out, x // k)

    def wrap_bits(self, st, v, bits, sg):
        lo, hi = rng(bits, sg)
        K = 1 << bits
        if not isinstance(v, Lin):
            v &= K - 1
            return v - K if sg and v >> (bits - 1) else v
        for deep in (0, 1, 2):
            d = self.dom_of(st, v, deep)
            a, b = d[0][0], d[-1][1]
            if a == -INF or b == INF:
                break
            p, q = (a - lo) // K, (b - lo) // K
            if p == q:
                if deep and len(v.t) > 1:
                    self.refine(st, v, ((a, b),))
                return lin_add(v, -p * K)
        if a != -INF and b != INF and q - p <= 2:
            raise Split([(lambda j: lambda s: self.refine(s, v, ((lo + j * K, hi + j * K),)))(j) for j in range(p, q + 1)])
        w = lin_add(v, lin_mul(self.fdiv(st, lin_add(v, -lo), K), -K))
        if isinstance(w, Lin):
            if any(t[0] in 'mws' for t, _ in w.t):
                t = self.define('w', (w,))
                w = atom(t)
                if w.t not in st.dom:
                    st.dom[w.t] = ((lo, hi),)
            else:
                self.refine(st, w, ((lo, hi),))
        return w

    def wrap(self, st, v, t):
        ii = self.F.int_info(t)
        if ii is None:
            return v
        return self.wrap_bits(st, v, *ii)

    def wrapl(self, st, v, bits, sg):
        return self.wrap_bits(st, v, bits, sg)

    def op_term(self, st, op, a, b):
        r = self.mul(a, b)
        if isinstance(r, Lin) and len(r.t) > 1:
            x, y = self.dom_of(st, a), self.dom_of(st, b)
            self.refine(st, r, (mul_iv((x[0][0], x[-1][1]), (y[0][0], y[-1][1])),))
        return r

    def subst(self, st, l):
        """replace atoms whose value is known in this state"""
        if not isinstance(l, Lin):
            return l
        for _ in range(4):
            r = l.c
            for t, k in l.t:
                r = lin_add(r, lin_mul(self.atom_val(st, t), k))
            if r == l or not isinstance(r, Lin):
                return r
            l = r
        return l

    def atom_val(self, st, t):
        d = st.dom.get(((t, 1),))
        if d and d[0][0] == d[-1][1]:
            return d[0][0]
        if t[0] == 'm':
            r = 1
            for f in t[1]:
                r = self.mul(r, self.atom_val(st, f))
            return r
        if t[0] == 'n':
            _, X, Y = self.defs[t[1]]
            x, y = self.subst(st, X), self.subst(st, Y)
            if x != X or y != Y:
                return self.word_and(st, x, y)
        if t[0] == 'q':
            _, X, K = self.defs[t[1]]
            x = self.subst(st, X)
            if x != X:
                return self.fdiv(st, x, K)
            a, b = self.bounds(st, X)
            if a != -INF and b != INF and a // K == b // K:
                return a // K
        if t[0] == 's':
            _, X, Y = self.defs[t[1]]
            x, y = self.subst(st, X), self.subst(st, Y)
            if x != X or y != Y:
                return self.quot(st, x, y)
        if t[0] == 'w' and self.expand:
            return self.defs[t[1]][1]
        return atom(t)

    # ------------------------------------------------------------ bitwise operations
    def word_and(self, st, x, y, bits=64):
        """x & y for words 0 <= x, y < 2^bits"""
        m = (1 << bits) - 1
        if not isinstance(x, Lin) and not isinstance(y, Lin):
            return x & y
        if not isinstance(x, Lin):
            x, y = y, x
        if not isinstance(y, Lin):
            # runs of ones of the constant
            r, i = 0, 0
            while y >> i:
                if not (y >> i) & 1:
                    i += 1
                    continue
                j = i
                while (y >> j) & 1:
                    j += 1
                lo = lin_mul(self.fdiv(st, x, 1 << i), 1 << i)
                hi = 0 if j >= bits else lin_mul(self.fdiv(st, x, 1 << j), 1 << j)
                r = lin_add(r, lin_add(lo, hi, -1))
                i = j
            return r
        x, y = self.subst(st, x), self.subst(st, y)
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return self.word_and(st, x, y, bits)
        if x == y:
            return x
        if lin_add(x, y) == m:
            return 0
        # complements: (m - z) & y = y - (z & y)
        if x.t[0][1] < 0:
            return self.word(st, lin_add(y, self.word_and(st, lin_add(m, x, -1), y, bits), -1), bits)
        if y.t[0][1] < 0:
            return self.word(st, lin_add(x, self.word_and(st, x, lin_add(m, y, -1), bits), -1), bits)
        # disjoint bits
        for a, b in ((x, y), (y, x)):
            hi = self.dom_of(st, b)[-1][1]
            if hi == 0:
                return 0
            k = 1 << int(hi).bit_length()
            if a.c % k == 0 and all(c % k == 0 for _, c in a.t):
                return 0
        if repr(y) < repr(x):
            x, y = y, x
        t = self.define('n', (x, y))
        if ((t, 1),) not in st.dom:
            st.dom[((t, 1),)] = ((0, min(self.dom_of(st, x)[-1][1], self.dom_of(st, y)[-1][1])),)
            for z in (x, y):
                self.word(st, lin_add(z, atom(t), -1), bits)
        return atom(t)

    def word(self, st, r, bits):
        if isinstance(r, Lin):
            self.refine(st, r, ((0, (1 << bits) - 1),))
        return r

    def sym_op(self, st, op, a, b, bits, sg):
        if bits == 8 or bits == 1:
            d = self.dom_of(st, a)
            if d[0][0] >= 0 and d[-1][1] <= 1 and op.startswith('Bit'):
                return super().sym_op(st, op, a, b, bits, sg)
        if op == 'Shr':
            b = self.amount(st, b, bits)
            return self.fdiv(st, a, 1 << b)
        if op == 'Shl':
            b = self.amount(st, b, bits)
            return self.wrap_bits(st, lin_mul(a, 1 << b), bits, sg)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if sg:
                # two's complement words
                ua, ub = (self.wrap_bits(st, x, bits, False) for x in (a, b))
                return self.wrap_bits(st, self.bitop(st, op, ua, ub, bits), bits, True)
            return self.bitop(st, op, a, b, bits)
        if op in ('Div', 'Rem'):
            for x in (a, b):
                if self.dom_of(st, x)[0][0] < 0 and self.dom_of(st, x, 1)[0][0] < 0 and self.dom_of(st, x, 2)[0][0] < 0:
                    raise Unmodelled('signed division')
            if self.decide_in(st, b, ((0, 0),)):
                raise Panic('division by zero', self.where(st))
            q = self.quot(st, self.subst(st, a), self.subst(st, b))
            return q if op == 'Div' else lin_add(a, self.mul(q, b), -1)
        raise Unmodelled(op)

    def quot(self, st, a, b):
        if isinstance(b, int):
            if b & (b - 1) == 0:
                return self.fdiv(st, a, b)
            if isinstance(a, int):
                return a // b
        return self.sdiv(st, a, b)

    def amount(self, st, b, bits):
        if isinstance(b, Lin):
            b = self.subst(st, b)
        if isinstance(b, Lin):
            d = self.dom_of(st, b)
            if d[-1][1] - d[0][0] > 64:
                raise Unmodelled('symbolic shift amount')
            raise Split([(lambda j: lambda s: self.refine(s, b, ((j, j),)))(j) for j in range(d[0][0], d[-1][1] + 1)])
        return b & (bits - 1)

    def bitop(self, st, op, a, b, bits):
        n = self.word_and(st, a, b, bits)
        if op == 'BitAnd':
            return n
        r = lin_add(lin_add(a, b), lin_mul(n, 1 if op == 'BitOr' else 2), -1)
        if isinstance(r, Lin) and isinstance(n, Lin):
            self.refine(st, r, ((0, (1 << bits) - 1),))
        return r

    def sdiv(self, st, a, b):
        """quotient of a >= 0 by b > 0 with its defining inequalities"""
        t = self.define('s', (a, b))
        s = atom(t)
        if ((t, 1),) not in st.dom:
            for deep in (0, 1):
                x, y = self.dom_of(st, a, deep), self.dom_of(st, b, deep)
            hi = x[-1][1] // max(1, y[0][0])
            if hi >= B and self.bounds(st, lin_add(a, self.mul(b, B), -1), 2)[1] < 0:
                hi = B - 1
            lo = x[0][0] // y[-1][1]
            if lo < 1 and self.bounds(st, lin_add(a, b, -1), 2)[0] >= 0:
                lo = 1
            st.dom[((t, 1),)] = ((lo, hi),)
            r = lin_add(a, self.mul(s, b), -1)
            self.refine(st, r, ((0, y[-1][1] - 1),))
            self.refine(st, lin_add(b, r, -1), ((1, INF),))
        return s

    # ------------------------------------------------------------ the oracle's side
    def reduce(self, st, l):
        """l modulo the equations that hold in this state"""
        l = self.subst(st, l)
        # quotients whose dividend is known better by the equations
        if isinstance(l, Lin):
            rows = None
            for t, _ in l.t:
                if t[0] == 'q':
                    _, X, K = self.defs[t[1]]
                    if rows is None:
                        rows = self.rows(st, True)
                    r = self.by_rows(X, rows)
                    c = r['c'] if r[0] is not None else r[1]
                    d = r['d'] if r[0] is not None else {}
                    if c.denominator == 1 and all(k.denominator == 1 for k in d.values()) and t not in d:
                        x = simp(Lin(int(c), tuple(sorted(((t, int(k)) for t, k in d.items()), key=lambda t: repr(t[0])))))
                        if x != X:
                            y = self.fdiv(st, x, K)
                            e = lin_add(y, atom(t), -1)
                            if isinstance(e, Lin):
                                self.refine(st, e, ((0, 0),))
            l = self.subst(st, l)
        return self.by_rows(l, self.rows(st))

    def rows(self, st, limb=False):
        eqs = []
        for k, iv in self.facts_of(st):
            if iv[0][0] == iv[-1][1]:
                e = self.subst(st, Lin(-iv[0][0], k))
                if isinstance(e, Lin):
                    eqs.append(e)
        for k, iv in list(st.dom.items()):
            if len(k) == 1 and k[0][0][0] == 'w' and iv[0][0] == iv[-1][1]:
                e = self.subst(st, lin_add(self.defs[k[0][0][1]][1], iv[0][0], -1))
                if isinstance(e, Lin):
                    eqs.append(e)
        # triangular form
        rows = []
        for e in eqs:
            e = self.by_rows(e, rows, limb)
            if isinstance(e, dict) and e[0] is not None:
                rows.append(e)
        return rows

    def by_rows(self, l, rows, limb=False):
        l = lin_of(l)
        d = {t: Fraction(k) for t, k in l.t}
        c = Fraction(l.c)
        for r in rows:
            p = r[0]
            if p in d:
                f = d[p]
                c += f * r[1]
                del d[p]
                for t, k in r[2].items():
                    d[t] = d.get(t, 0) + f * k
                    if d[t] == 0:
                        del d[t]
        # pivot: the atom with the largest id / repr
        if not d:
            return {0: None, 1: c, 2: {}}
        p = max(d, key=lambda t: ((t[0] != 'limb') != limb, repr(t)))
        f = -d[p]
        return {0: p, 1: c / f, 2: {t: k / f for t, k in d.items() if t != p}, 'c': c, 'd': d}

    def is_zero(self, st, l):
        self.expand = True
        try:
            return self.is_zero_(st, l)
        finally:
            self.expand = False

    def is_zero_(self, st, l):
        if not isinstance(self.subst(st, l), Lin):
            return self.subst(st, l) == 0
        r = self.reduce(st, l)
        return r[0] is None and r[1] == 0


# ---------------------------------------------------------------- values
def limbs(I, st, name, n):
    """the limbs of an arbitrary n-limb magnitude with a non-zero top limb"""
    e = []
    for i in range(n):
        t = ('limb', name, i)
        st.dom[((t, 1),)] = ((1 if i == n - 1 else 0, M64),)
        e.append(atom(t))
    return tuple(e)


def value(e):
    r = 0
    for i, x in enumerate(e):
        r = lin_add(r, lin_mul(x, 1 << (64 * i)))
    return r


def js_value(e, neg):
    """a JsBigint object: its header and, behind it, its items"""
    h = Agg(0, (-len(e) if neg else len(e),))
    return Ptr(('c', ConstBox(Agg(0, (h, Opq(('items', e)))))), ())


def js_read(I, st, v):
    """header length and items of a bigint handed out"""
    while type(v) is Agg and len(v.f) >= 1:
        v = v.f[0]
    o = rd(I, st, v)
    return o.f[0].f[0], o.f[1].t[1]


def bit_counts(N):
    def leading(w):
        def f(I, st, a, fn):
            x = rd(I, st, a[0]) if type(a[0]) is Ptr else a[0]
            if isinstance(x, Lin):
                x = I.subst(st, x)
            if not isinstance(x, Lin):
                return w - x.bit_length()
            d = I.dom_of(st, x, 2)
            lo, hi = max(0, d[0][0]), min(d[-1][1], (1 << w) - 1)
            ks = range(lo.bit_length(), hi.bit_length() + 1)
            if len(ks) == 1:
                return w - ks[0]
            raise Split([(lambda k: lambda s: I.refine(s, x, (((1 << k) >> 1, (1 << k) - 1),)))(k) for k in ks])
        return f
    for w, t in ((64, 'u64'), (32, 'u32'), (128, 'u128'), (64, 'usize')):
        N['std::num::<impl %s>::leading_zeros' % t] = leading(w)


def make(F):
    N = dict(natives.NAT)
    bit_counts(N)
    I = Big(F, N)

    def items(I, st, a, fn):
        o = rd(I, st, a[0])
        e = o.f[1].t[1]
        return SliceP(Ptr(('c', ConstBox(VecV(e))), ()), 0, len(e))

    def same(I, st, a, fn):
        v = a[0]
        v = rd(I, st, v) if type(v) is Ptr and type(rd(I, st, v)) is not Agg else v
        while type(v) is Ptr:
            o = rd(I, st, v)
            if type(o) is Agg and len(o.f) == 2 and type(o.f[1]) is Opq:
                return v
            if type(o) is Agg and len(o.f) == 1:
                o = o.f[0]
            v = o
        return v

    def flex_new(I, st, a, fn):
        v = a[1]
        return Opq(('bigint', a[0], v.e))

    def new(I, st, a, fn):
        c = a[1]
        if type(c) is not Opq or c.t[0] != 'bigint':
            raise Unmodelled('a memory block of %r' % (c,))
        h, e = c.t[1], c.t[2]
        n = h.f[0]
        if abs(n) > len(e):
            raise Panic('the header says %s items, there are %d' % (n, len(e)), I.where(st))
        return Ptr(('c', ConstBox(Agg(0, (h, Opq(('items', tuple(e)[:abs(n)])))))), ())
    for f in F.fns:
        nd = f['nd']
        last = nd.rsplit('::', 1)[-1]
        if nd == 'nanvm_lib::mem::flexible_array::FlexibleArray::<I, T>::items':
            N[nd] = items
        elif nd == 'nanvm_lib::mem::manager::Manager::new':
            N[nd] = new
        elif nd == 'vroots::env::flex_new':
            N[nd] = flex_new
        elif last in ('deref', 'to_ref') and nd.startswith('<nanvm_lib::mem::') or nd.endswith('MutRef::<T, D>::to_ref'):
            N[nd] = same
        elif nd.startswith('nanvm_lib::mem::') and last in ('deref', 'object'):
            N[nd] = same
    return I
