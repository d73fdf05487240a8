"""Big floats: the abstract interpreter over integers of any size.

A JsBigint is one polynomial over the unknown significand, extended by floor quotients by
constants; the operations of js_bigint stand for the integer operations they are shown to
implement by B01..B06.  At the heads of loops states are merged: of what is known about
discarded low digits only whether they are all zero is kept."""
import re
from fractions import Fraction
from .val import *
from .interp import Infeasible, Split, Unmodelled, Panic
from .big import Big, CAP, NOEND, OutOfTime, B, M64, value, bit_counts
from .loopcut import headers, reach
from .product import frame_live
from . import natives
from .natives import rd

J = 'nanvm_lib::js::js_bigint::'


def bn(l, neg):
    return Opq(('bn', l, neg))


def lins(v):
    if isinstance(v, Lin):
        yield v
    elif type(v) is Agg:
        for x in v.f:
            yield from lins(x)
    elif type(v) is VecV:
        for x in v.e:
            yield from lins(x)
    elif type(v) is SliceP:
        for x in (v.ptr, v.off, v.len) if hasattr(v, 'off') else (v.ptr,):
            yield from lins(x)
    elif type(v) is Ptr and v.b[0] == 'c':
        yield from lins(v.b[1].v)
    elif type(v) is Opq:
        for x in v.t:
            yield from lins(x)
    elif type(v) is tuple:
        for x in v:
            yield from lins(x)


class Flo(Big):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.seen = set()
        self.merged = 0
        self.base = None        # domains of the unknowns

    def step_block(self, st):
        fr = st.frames[-1]
        if fr.ip == 0 and fr.fn['crate'] == 'nanvm_lib' and st.env.get('mhead') != (fr.uid, fr.bb) and fr.bb in headers(fr.fn):
            self.merge(st)
            st.env['mhead'] = (fr.uid, fr.bb)
        r = super().step_block(st)
        st.env['mhead'] = None
        return r

    def ratio(self, t):
        _, X, K = self.defs[t[1]]
        return Fraction(K, max(abs(c) for _, c in X.t)) if isinstance(X, Lin) else 0

    def merge(self, st):
        key = []
        used = set()
        reset = set()
        for i, fr in enumerate(st.frames):
            top = i == len(st.frames) - 1
            live = reach(st, fr, True) if top else set(range(len(fr.loc)))
            loc = tuple((j, fr.loc[j]) for j in sorted(live))
            key.append((fr.fn['name'], fr.bb, fr.ip, loc))
            for _, v in loc:
                for l in lins(v):
                    used |= {t for t, _ in l.t}
        dom = {k: v for k, v in st.dom.items() if len(k) == 1 and k[0][0][0] not in 'qswnm'}
        for t in used:
            if t[0] == 'q':
                _, X, K = self.defs[t[1]]
                r = lin_add(X, atom(t), -K)
                lo, hi = self.bounds(st, r, 2)
                if lo >= 1:
                    lo, hi = 1, K - 1
                elif hi > 0:
                    lo, hi = 0, K - 1
                d = self.dom_of(st, atom(t), 2)
                qlo, qhi = d[0][0], d[-1][1]
                if qlo > 2 and qlo & (qlo - 1) and not (qlo - 1) & (qlo - 2):
                    qlo -= 1        # the parity of a power of two is of no interest
                dom[((t, 1),)] = ((qlo, qhi),)
                if isinstance(X, Lin) and len(X.t) == 1 and X.t[0][0][0] == 'limb' and X.t[0][1] > 0:
                    u, c = X.t[0]
                    b = self.base.get(((u, 1),), ((-INF, INF),))
                    reset.add(u)
                    # bounds that do not come from a comparison with a power of two but from
                    # the parity of discarded digits are forgotten
                    lb, hb = (c * b[0][0] + X.c) // K, (c * b[-1][1] + X.c) // K
                    if 0 <= lb < qlo and lb.bit_length() == qlo.bit_length():
                        qlo = lb
                    if 1 < qhi < hb and hb.bit_length() == (qhi - 1).bit_length():
                        qhi = hb
                    dom[((t, 1),)] = ((qlo, qhi),)
                    dom[((u, 1),)] = iv_and(b, ((-((X.c - qlo * K) // c), (qhi * K + K - 1 - X.c) // c),))
                g, p = self.primitive(r)
                a, b = lo - r.c, hi - r.c
                if g < 0:
                    a, b = -b, -a
                dom[p] = ((-((-a) // abs(g)), b // abs(g)),)
            elif t not in [u[0][0] for u in dom]:
                dom[((t, 1),)] = st.dom.get(((t, 1),), ((-INF, INF),))
        if max([self.ratio(t) for k in st.dom for t, _ in k if t[0] == 'q' and t not in used], default=0) > \
                max([self.ratio(t) for t in used if t[0] == 'q'], default=0):
            reset = set()       # the last digits are known: what is known about the others is kept
        for u, _ in [k[0] for k in self.base]:
            if u not in reset:
                for k in [k for k in st.dom if len(k) > 1] * 2:
                    self.refine(st, Lin(0, k), st.dom[k])
                d = self.dom_of(st, atom(u), 2)
                dom[((u, 1),)] = ((d[0][0], d[-1][1]),)
        st.dom = dom
        key.append(frozenset(dom.items()))
        try:
            ids = {str(f.uid): str(i) for i, f in enumerate(st.frames)}
            key = re.sub(r"Ptr\('l', (\d+),", lambda m: "Ptr('l', f%s," % ids.get(m.group(1), m.group(1)), repr(key))
        except TypeError:
            return
        if key in self.seen:
            self.merged += 1
            raise Infeasible()
        self.seen.add(key)


def make(F):
    N = dict(natives.NAT)
    bit_counts(N)
    I = Flo(F, N)

    def arg(st, v):
        for _ in range(8):
            if type(v) is Opq and v.t[0] == 'bn':
                return v.t[1], v.t[2]
            if type(v) is Ptr:
                v = rd(I, st, v)
            elif type(v) is Agg and len(v.f):
                v = v.f[0]
            else:
                break
        raise Unmodelled('a bigint is expected: %r' % (v,))

    def neg_of(v):
        return bool(v.v) if type(v) is Agg else bool(v)

    def signed(st, v):
        l, n = arg(st, v)
        if isinstance(n, bool) or n in (0, 1):
            return lin_mul(l, -1) if n else l
        raise Unmodelled('sign')

    def make_bn(st, l):
        """a signed value split into magnitude and sign"""
        if isinstance(l, Lin):
            l = I.subst(st, l)
        if not isinstance(l, Lin):
            return bn(abs(l), l < 0)
        if I.decide_in(st, l, ((-INF, -1),)):
            return bn(lin_mul(l, -1), True)
        return bn(l, False)

    def amount(st, b):
        if isinstance(b, Lin):
            b = I.subst(st, b)
        if isinstance(b, Lin):
            d = I.dom_of(st, b, 1)
            if d[0][0] == -INF or d[-1][1] == INF or d[-1][1] - d[0][0] > 80:
                raise Unmodelled('symbolic amount %s' % (d,))
            if d[0][0] != d[-1][1]:
                raise Split([(lambda j: lambda s: I.refine(s, b, ((j, j),)))(j) for j in range(d[0][0], d[-1][1] + 1)])
            b = d[0][0]
        return b

    def f_zero(st, a):
        return bn(0, False)

    def f_from(st, a):
        n = a[2]
        if isinstance(n, int):
            return bn(n, neg_of(a[1]) and n != 0)
        if neg_of(a[1]) and I.decide_in(st, n, ((0, 0),)):
            return bn(0, False)
        return bn(n, neg_of(a[1]))

    def f_add(st, a):
        return make_bn(st, lin_add(signed(st, a[1]), signed(st, a[2])))

    def f_sub(st, a):
        return make_bn(st, lin_add(signed(st, a[1]), signed(st, a[2]), -1))

    def f_neg(st, a):
        return make_bn(st, lin_mul(signed(st, a[1]), -1))

    def f_mul(st, a):
        return make_bn(st, I.mul(signed(st, a[1]), signed(st, a[2])))

    def f_divmod(st, a):
        x, nx = arg(st, a[1])
        y, ny = arg(st, a[2])
        if isinstance(y, Lin):
            y = I.subst(st, y)
        if isinstance(y, Lin):
            raise Unmodelled('symbolic divisor')
        if y == 0:
            raise Panic('division by zero', I.where(st))
        if nx or ny:
            raise Unmodelled('division of negative numbers')
        q = I.fdiv(st, x, y)
        r = lin_add(x, lin_mul(q, y), -1)
        if isinstance(r, Lin):
            I.refine(st, r, ((0, y - 1),))
        if not isinstance(q, Lin) or I.dom_of(st, q, 2)[-1][1] <= 0:
            # (a dividend below the divisor gives the wrong remainder, see known_findings.txt)
            if q == 0 or isinstance(q, Lin):
                r = y
        elif I.dom_of(st, q, 2)[0][0] <= 0 and I.decide_in(st, q, ((0, 0),)):
            r = y
        return Agg(0, (make_bn(st, q), make_bn(st, r)))

    def f_pow(st, a, e=None):
        x = signed(st, a[1])
        if e is None:
            e, n = arg(st, a[2])
            if n:
                raise Panic('negative exponent', I.where(st))
        e = amount(st, e)
        if isinstance(x, Lin):
            if e > 8:
                raise Unmodelled('power of a symbolic number')
            r = 1
            for _ in range(e):
                r = I.mul(r, x)
            return make_bn(st, r)
        if abs(x) > 1 and e > 1 << 16:
            raise Unmodelled('a huge power')
        return make_bn(st, (x ** (e & 1)) if abs(x) <= 1 and e else x ** e)

    def shift(st, l, n, k):
        if k >= 0:
            if k > 1 << 16:
                raise Unmodelled('a huge shift')
            return bn(lin_mul(l, 1 << k), n)
        if n:
            return make_bn(st, I.fdiv(st, lin_mul(l, -1), 1 << -k))
        return bn(I.fdiv(st, l, 1 << min(-k, 1 << 16)), False)

    def f_shl(st, a, w=1):
        l, n = arg(st, a[1])
        k, m = arg(st, a[2])
        k = amount(st, k)
        return shift(st, l, n, w * (-k if m else k))

    def f_shr(st, a):
        return f_shl(st, a, -1)

    def f_shl64(st, a):
        l, n = arg(st, a[1])
        return shift(st, l, n, amount(st, a[2]))

    def f_shr64(st, a):
        l, n = arg(st, a[1])
        return shift(st, l, n, -amount(st, a[2]))

    def diff(st, a):
        return lin_add(signed(st, a[0]), signed(st, a[1]), -1)

    def order(k):
        return Agg(k + 1, ())

    def f_cmp(st, a):
        d = diff(st, a)
        if not isinstance(d, Lin):
            return order((d > 0) - (d < 0))
        if I.decide_in(st, d, ((-INF, -1),)):
            return order(-1)
        return order(0) if I.decide_in(st, d, ((0, 0),)) else order(1)

    def zero_test(st, d):
        if not isinstance(d, Lin):
            return int(d == 0)
        return int(I.decide_in(st, d, ((0, 0),)))

    def f_eq(st, a):
        return zero_test(st, diff(st, a))

    def f_zero_p(st, a):
        return zero_test(st, arg(st, a[0])[0])

    def f_bit(st, a):
        l, _ = arg(st, a[0])
        if not isinstance(l, Lin):
            return l & 1
        b = lin_add(l, lin_mul(I.fdiv(st, l, 2), 2), -1)
        if isinstance(b, Lin):
            I.refine(st, b, ((0, 1),))
        return b

    def f_sign(st, a):
        l, n = arg(st, a[0])
        return Agg(1 if n else 0, ())

    def digits(st, v):
        """the limbs, their number decided"""
        l, n = arg(st, v)
        if isinstance(l, Lin):
            l = I.subst(st, l)
        k = 0
        if not isinstance(l, Lin):
            e = []
            while l:
                e.append(l & M64)
                l >>= 64
            return tuple(e), n
        d = I.dom_of(st, l, 2)
        if d[-1][1] == INF:
            raise Unmodelled('limbs of an unbounded number')
        k = max(0, (d[0][0].bit_length() + 63) // 64)
        while not I.decide_in(st, l, ((-INF, (1 << 64 * k) - 1),)):
            k += 1
        q = [l] + [I.fdiv(st, l, 1 << 64 * i) for i in range(1, k)] + [0]
        e = []
        for i in range(k):
            x = lin_add(q[i], lin_mul(q[i + 1], B), -1)
            if isinstance(x, Lin):
                I.refine(st, x, ((0, M64),))
            e.append(x)
        return tuple(e), n

    def f_items(st, a):
        e, _ = digits(st, a[0])
        return SliceP(Ptr(('c', ConstBox(VecV(e))), ()), 0, len(e))

    def f_len(st, a):
        e, n = digits(st, a[0])
        return -len(e) if n else len(e)

    def f_new(st, a):
        e = a[2].e if type(a[2]) is VecV else rd(I, st, a[2]).e if type(a[2]) is Ptr else None
        if e is None:
            raise Unmodelled('new_bigint of %r' % (a[2],))
        return bn(value(e), neg_of(a[1]))

    table = {'zero': f_zero, 'from_u64': f_from, 'add': f_add, 'sub': f_sub, 'mul': f_mul, 'div_mod': f_divmod, 'pow': f_pow,
             'pow_u64': lambda st, a: f_pow(st, a, a[2]), 'shl': f_shl, 'shr': f_shr, 'shl_on_u64': f_shl64, 'shr_on_u64': f_shr64,
             'compare': f_cmp, 'equals': f_eq, 'is_zero': f_zero_p, 'get_last_bit': f_bit, 'sign': f_sign, 'negative': f_neg, 'header_len': f_len,
             'new_bigint': f_new}

    def wrapn(f):
        return lambda I_, st, a, fn: f(st, a)

    def same(I_, st, a, fn):
        l, n = arg(st, a[0])
        return bn(l, n)
    for f in F.fns:
        nd = f['nd']
        last = nd.rsplit('::', 1)[-1]
        if nd.startswith(J) and '{' not in nd and last in table and (nd.count('::') == 3 or 'JsBigintHeader>>' in nd):
            N[nd] = wrapn(table[last])
        elif nd == 'nanvm_lib::mem::flexible_array::FlexibleArray::<I, T>::items':
            N[nd] = wrapn(f_items)
        elif nd.startswith('<nanvm_lib::mem::') and last in ('deref', 'clone') or nd.startswith('nanvm_lib::mem::') and last in ('to_ref', 'to_mut_ref'):
            N[nd] = same
    return I
