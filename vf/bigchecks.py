"""B01..B06: the multi-precision arithmetic of js_bigint, BigUint and BigInt."""
import multiprocessing
import re
import time
from math import gcd
from itertools import chain
import sys
from . import big
from .big import M64, B, OutOfTime, NOEND, limbs, value, js_value, js_read
from .val import *
from .loopcut import Cut
from .instance import Instances
from .interp import State, Unmodelled, Split, Infeasible
from .natives import rd
from .report import Result
from .tokchecks import TRUST

FACTS = None
LIMIT = 200             # seconds for one shape
sys.set_int_max_str_digits(0)


class Bad(Exception):
    pass


# ------------------------------------------------------------------ operands
def mk(I, F, kind, mag, neg):
    if kind == 'j':
        return js_value(mag, neg)
    u = Agg(0, (VecV(mag),))
    if kind == 'u':
        return u
    t = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('big_int::BigInt'))]
    names = [x[0] for x in t['v'][0]['f']]
    f = {'sign': Agg(1 if neg else 0, ()), 'value': u}
    return Agg(0, tuple(f[n] for n in names))


def unmk(I, F, st, kind, v):
    """(negative, limbs); the representation has to be the canonical one"""
    if kind == 'j':
        n, e = js_read(I, st, v)
        if abs(n) != len(e):
            raise Bad('the header says %s limbs, there are %d' % (n, len(e)))
        neg = n < 0
    elif kind == 'u':
        e, neg = v.f[0].e, False
    else:
        t = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('big_int::BigInt'))]
        names = [x[0] for x in t['v'][0]['f']]
        e, neg = v.f[names.index('value')].f[0].e, bool(v.f[names.index('sign')].v)
    e = tuple(e)
    for x in e:
        d = I.dom_of(st, x, 1)
        if d[0][0] < 0 or d[-1][1] > M64:
            d = I.dom_of(st, x, 2)
            if d[0][0] < 0 or d[-1][1] > M64:
                raise Bad('a limb is not shown to be a word: %s' % (d,))
    if e and not never(I, st, e[-1], 0):
        raise Bad('the result is not canonical: its top limb may be zero')
    if neg and not e:
        raise Bad('a negative zero')
    return neg, e


def never(I, st, l, c):
    x = I.subst(st, l)
    if not isinstance(x, Lin):
        return x != c
    for deep in (0, 1, 2):
        d = iv_and(I.dom_of(st, l, deep), I.dom_of(st, x, deep))
        if not iv_and(d, ((c, c),)):
            return True
    return False


def val(mag, neg):
    return lin_mul(value(mag), -1 if neg else 1)


def same(I, st, l, r, what):
    d = lin_add(l, r, -1)
    if not I.is_zero(st, d):
        raise Bad('%s: it is off by %s' % (what, show(I, I.subst(st, d))))


def within(I, st, l, lo, hi, what):
    x = I.subst(st, l)
    for deep in (0, 1, 2):
        a, b = I.bounds(st, x, deep)
        if a >= lo and b <= hi:
            return
    r = I.reduce(st, l)
    if r[0] is None:
        if lo <= r[1] <= hi:
            return
    else:
        den = 1
        for x in [r['c']] + list(r['d'].values()):
            den = den * x.denominator // gcd(den, x.denominator)
        x = Lin(int(r['c'] * den), tuple(sorted(((t, int(k * den)) for t, k in r['d'].items()), key=lambda t: repr(t[0]))))
        for deep in (0, 1, 2):
            a, b = I.bounds(st, x, deep)
            if a >= lo * den and b <= hi * den:
                return
    raise Bad(what)


def show(I, l):
    if not isinstance(l, Lin):
        return str(l)

    def at(t):
        if t[0] == 'limb':
            return '%s[%d]' % t[1:]
        if t[0] == 'm':
            return '*'.join(at(x) for x in t[1])
        if t[0] not in ('q', 'n', 's', 'w'):
            return str(t)[:60]
        d = I.defs[t[1]]
        return {'q': 'quot', 'n': 'and', 's': 'div', 'w': 'word'}[t[0]] + '#%d' % t[1]

    def k(c):
        n = abs(c).bit_length() - 1
        return ('-' if c < 0 else '') + ('2^%d' % n if abs(c) == 1 << n and n > 8 else str(abs(c)))
    o = [k(l.c)] if l.c else []
    return ' + '.join(o + ['%s*%s' % (k(c), at(t)) for t, c in l.t])[:200]


def decided(I, st, l, ivs):
    """every answer the oracle needs, splitting the path if necessary"""
    return I.decide_in(st, l, ivs)


# ------------------------------------------------------------------ oracles
def twos(I, st, mag, neg, n):
    """the n two's complement words of a value"""
    e = list(mag) + [0] * (n - len(mag))
    if not neg:
        return e
    o, low = [], True
    for x in e:
        if low:
            if decided(I, st, x, ((0, 0),)):
                o.append(0)
            else:
                o.append(lin_add(B, x, -1))
                low = False
        else:
            o.append(lin_add(M64, x, -1))
    return o


def order(v):
    """Ordering: Less, Equal, Greater are -1, 0, 1 (variants 0, 1, 2)"""
    if type(v) is Agg:
        if v.f:
            v = v.f[0]
        return v.v - 1
    return v if v < 128 else v - 256


def check(I, F, st, op, kind, a, b, extra, ret):
    """a, b = (negative, limbs)"""
    A = val(a[1], a[0])
    Bv = val(b[1], b[0]) if b else None
    if op in ('cmp', 'pcmp'):
        if op == 'pcmp' and not ret.v:
            raise Bad('the values are not ordered')
        o = order(ret)
        d = lin_add(A, Bv, -1)
        if o == 0:
            same(I, st, A, Bv, 'different values compare equal')
        else:
            within(I, st, d, *((1, INF) if o > 0 else (-INF, -1)), 'the order is not that of the values (%s)' % ('Greater' if o > 0 else 'Less'))
        return
    if op == 'eq':
        d = lin_add(A, Bv, -1)
        if ret not in (0, 1):
            raise Unmodelled('result %r' % (ret,))
        if ret:
            same(I, st, A, Bv, 'different values are equal')
        elif not differ(I, st, a, b):
            raise Bad('equal values are different')
        return
    if op == 'zero':
        if bool(ret) != (not a[1]):
            raise Bad('is_zero is %s for %s limbs' % (bool(ret), len(a[1])))
        return
    if op == 'bit':
        x = a[1][0] if a[1] else 0
        same(I, st, ret, lin_add(x, lin_mul(I.fdiv(st, x, 2), 2), -1), 'the last bit')
        return
    if op == 'divmod':
        q, r = unmk(I, F, st, kind, ret.f[0]), unmk(I, F, st, kind, ret.f[1])
        if not q[1] and list(r[1]) == list(b[1]):
            raise Bad('for a dividend below the divisor the remainder is the divisor')
        same(I, st, st.env.get('A', value(a[1])), lin_add(I.mul(value(q[1]), value(b[1])), value(r[1])), 'dividend = quotient * divisor + remainder')
        within(I, st, lin_add(value(b[1]), value(r[1]), -1), 1, INF, 'the remainder is not below the divisor')
        if q[1] and q[0] != (a[0] != b[0]):
            raise Bad('the sign of the quotient is wrong')
        if r[1] and r[0] != a[0]:
            if r[0] == (a[0] != b[0]):
                raise Bad('the remainder has the sign of the quotient, not that of the dividend')
            raise Bad('the sign of the remainder is wrong')
        return
    n, e = unmk(I, F, st, kind, ret)
    V = val(e, n)
    if op == 'add':
        same(I, st, V, lin_add(A, Bv), 'the sum')
    elif op == 'sub':
        if kind == 'u' and not e:
            within(I, st, lin_add(A, Bv, -1), -INF, 0, 'the difference is cut off at zero although it is positive')
        else:
            same(I, st, V, lin_add(A, Bv, -1), 'the difference')
    elif op == 'neg':
        same(I, st, V, lin_mul(A, -1), 'the negation')
    elif op == 'abs':
        same(I, st, V, value(a[1]), 'the absolute value')
    elif op == 'not':
        same(I, st, V, lin_add(-1, A, -1), 'the complement')
    elif op in ('from', 'fromi'):
        same(I, st, V, extra, 'the converted value')
    elif op == 'mul':
        same(I, st, V, I.mul(A, Bv), 'the product')
    elif op == 'div':
        r = lin_add(A, I.mul(V, Bv), -1)
        if n != (a[0] != b[0]) and e:
            raise Bad('the sign of the quotient')
        r = lin_mul(r, -1 if a[0] else 1)
        within(I, st, r, 0, INF, 'the quotient is too large')
        within(I, st, lin_add(value(b[1]), r, -1), 1, INF, 'the quotient is too small')
    elif op == 'pow':
        if extra is None:
            # 0, 1 and -1 to any power
            p = A
            if not b[1]:
                p = 1
            elif A == -1:
                x = b[1][0]
                p = -1 if decided(I, st, lin_add(x, lin_mul(I.fdiv(st, x, 2), 2), -1) if isinstance(x, Lin) else x & 1, ((1, 1),)) else 1
        else:
            p = 1
            for _ in range(extra):
                p = I.mul(p, A)
        same(I, st, V, p, 'the power')
    elif op in ('shl', 'shr'):
        s = extra if op == 'shl' else -extra
        s = max(s, -64 * len(a[1]) - 64) if a[1] else 0
        if s >= 0:
            same(I, st, V, lin_mul(A, 1 << s), 'the shifted value')
        else:
            within(I, st, lin_add(A, lin_mul(V, 1 << -s), -1), 0, (1 << -s) - 1, 'the value is not the quotient by 2^n rounded down')
    elif op in ('and', 'or', 'xor'):
        m = max(len(a[1]), len(b[1])) + 1
        x, y = twos(I, st, a[1], a[0], m), twos(I, st, b[1], b[0], m)
        w = [I.bitop(st, {'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor'}[op], p, q, 64) if isinstance(p, Lin) or isinstance(q, Lin) else {'and': p & q, 'or': p | q, 'xor': p ^ q}[op] for p, q in zip(x, y)]
        f = {'and': a[0] and b[0], 'or': a[0] or b[0], 'xor': a[0] != b[0]}[op]
        same(I, st, V, lin_add(value(w), -(1 << (64 * m)) if f else 0), 'the bitwise ' + op)
    else:
        raise Unmodelled(op)


def differ(I, st, a, b):
    if len(a[1]) != len(b[1]) or a[0] != b[0]:
        return True
    return any(never(I, st, lin_add(x, y, -1), 0) for x, y in zip(a[1], b[1]))


def confirm(I, F, st, op, kind, a, b, ex, info, why):
    """what goes wrong for an instance of the path, and the instance; (None, '') if there is none"""
    J = Instances(I, st, list(a[1]) + list(b[1] if b else ()))
    for x in J.find():
        z = J.pin(x)
        try:
            check(I, F, z, op, kind, a, b, ex, info)
        except (Split, Infeasible):
            continue
        except Bad as e:
            return str(e), ' for ' + ', '.join('%s[%d]=%#x' % (t[1], t[2], n) for t, n in zip(J.free, x))
    return None, ''


# ------------------------------------------------------------------ jobs
def job(spec):
    sys.setrecursionlimit(20000)
    root, kind, op, na, nb, sa, sb, extra, may = spec
    F = FACTS
    I = big.make(F)
    n, bad, open_ = 0, [], 0
    st0 = State()
    a = None
    if isinstance(na, tuple):
        a = (sa, na)
    elif na == 'byte':
        a = (sa, limbs(I, st0, 'a', 1))
        st0.dom[a[1][0].t] = ((2, 255),)
    elif na is not None:
        a = (sa, limbs(I, st0, 'a', na))
    b = None
    if isinstance(nb, tuple) and nb and isinstance(nb[-1], tuple):
        # some digits are known, others lie in a range
        e = []
        for i, x in enumerate(nb):
            if isinstance(x, tuple):
                t = atom(('limb', 'b', i))
                st0.dom[t.t] = (x,)
                x = t
            e.append(x)
        b = (sb, tuple(e))
    elif isinstance(nb, tuple):
        b = (sb, nb)
    elif nb is not None:
        b = (sb, limbs(I, st0, 'b', nb))
    args = []
    ex = extra
    if op == 'from':
        t = atom(('limb', 'n', 0))
        st0.dom[t.t] = ((0, M64),)
        ex = lin_mul(t, -1) if sa else t
        args = ([int(sa)] if kind == 'j' else []) + [t]
        a = (False, ())
    elif op == 'fromi':
        t = atom(('limb', 'n', 0))
        st0.dom[t.t] = ((-1 << 63, (1 << 63) - 1),)
        ex = t
        args = [t]
        a = (False, ())
    else:
        args = [mk(I, F, kind, a[1], a[0])]
        if b is not None:
            args.append(mk(I, F, kind, b[1], b[0]))
    cut = None
    if op == 'divmod' and may == 'cut':
        def broken(why):
            bad.append((root, why, '', what))
        cut = I.cut = Cut(b[1], na, broken, extra)
        cut.I = I
        I.flats = True
        st0.env['A'] = value(a[1])
        st0.env['Amax'] = (1 << 64 * na) - 1
        may = None
    I.deadline = time.time() + LIMIT
    I.push(st0, F.roots[root], args)
    what = '%s(%s%s)' % (root[5:], show_op(na, sa), '' if b is None else ', ' + show_op(nb, sb))
    try:
        for status, s, info in chain(I.run(st0), (y for x in (cut.rest() if cut and cut.used else ()) for y in I.run(x))):
            if status == 'panic' and may and info[0] != NOEND:
                n += 1
                continue
            if status == 'panic' and not any(True for _ in Instances(I, s).find(1)):
                open_ += 1
                continue
            if status != 'done':
                bad.append((root, '%s: %s' % (status, info[0] if type(info) is tuple else info), info[1] if type(info) is tuple and len(info) > 1 else '', what))
                continue
            if may == 'must':
                if not any(True for _ in Instances(I, s).find(1)):
                    open_ += 1
                    continue
                bad.append((root, 'it has to panic', '', what))
                continue
            todo = [s]
            while todo:
                x = todo.pop()
                y = x.clone()
                try:
                    check(I, F, y, op, kind, a, b, ex, info)
                except Split as sp:
                    for alt in sp.alts:
                        z = x.clone()
                        try:
                            alt(z)
                            todo.append(z)
                        except Infeasible:
                            pass
                    continue
                except Infeasible:
                    continue
                except Bad as e:
                    if not getattr(x, 'tight', False):
                        z = x.clone()
                        try:
                            I.tighten(z)
                            z.tight = True
                            todo.append(z)
                        except Infeasible:
                            pass
                        continue
                    w, m = confirm(I, F, x, op, kind, a, b, ex, info, str(e))
                    if w is None:
                        open_ += 1
                    else:
                        bad.append((root, w, '', what + m))
                n += 1
            if len(bad) > 10:
                break
        if cut is not None:
            if not cut.used or not cut.valid:
                return n, [], [], 0
            n += cut.kept
            open_ += cut.open
    except OutOfTime:
        open_ += 1
    except Unmodelled as u:
        bad.append((root, 'not analysable: %s' % str(u)[:300], '; '.join(list(getattr(u, 'stack', []))[-4:]), what))
    fns = sorted(F.fns[j]['name'] for j in I.visited if F.fns[j]['crate'] in ('nanvm_lib', 'vroots'))
    return n, bad, fns, open_


def show_op(n, neg):
    if n == 'byte':
        return '%sa number from 2 to 255' % ('-' if neg else '')
    if isinstance(n, tuple) and any(isinstance(x, tuple) for x in n):
        return '%s[%s]' % ('-' if neg else '', ', '.join('%#x..%#x' % x if isinstance(x, tuple) else '%#x' % x for x in n))
    if isinstance(n, tuple):
        return str((-1 if neg else 1) * sum(x << 64 * i for i, x in enumerate(n)))
    return '%s%s limbs' % ('-' if neg else '', n)


SG = [(False, False), (False, True), (True, False), (True, True)]


def two(ops, kinds, sizes, may=None):
    o = []
    for op in ops:
        for k in kinds:
            for na, nb in sizes:
                for sa, sb in SG:
                    if k == 'u' and (sa or sb) or sa and not na or sb and not nb:
                        continue
                    o.append(('root_%s_%s' % (k, op), k, op, na, nb, sa, sb, None, may))
    return o


def one(ops, kinds, sizes):
    o = []
    for op in ops:
        for k in kinds:
            for na in sizes:
                for sa in (False, True):
                    if k == 'u' and sa or sa and not na:
                        continue
                    o.append(('root_%s_%s' % (k, op), k, op, na, None, sa, False, None, None))
    return o


def words(n):
    o = []
    while n:
        o.append(n & M64)
        n >>= 64
    return tuple(o)


def plan(prop, tier):
    T = tier == 'thorough'
    sq = [(x, y) for x in range(0, 5 if T else 4) for y in range(0, 5 if T else 4)]
    if prop == 'B01':
        o = two(['add', 'sub'], 'jui', sq)
        o += one(['neg'], 'ji', range(0, 4)) + one(['abs'], 'i', range(0, 4)) + one(['not'], 'j', range(0, 5 if T else 4))
        o += [('root_j_from', 'j', 'from', None, None, s, False, None, None) for s in (False, True)]
        o += [('root_%s_from' % k, k, 'from', None, None, False, False, None, None) for k in 'ui']
        o += [('root_i_fromi', 'i', 'fromi', None, None, False, False, None, None)]
        return o
    if prop == 'B02':
        return two(['cmp', 'eq'], 'jui', sq) + two(['pcmp'], 'ui', sq[:10]) + one(['zero'], 'jui', range(0, 4)) + one(['bit'], 'ju', range(0, 4))
    if prop == 'B03':
        sizes = [(x, y) for x in range(0, 3) for y in range(0, 3)] + [(1, 3), (3, 1)]
        if T:
            sizes += [(2, 3), (3, 2), (1, 4), (4, 1)]
        o = two(['mul'], 'jui', sizes)
        for k in 'ju':
            for e in range(0, 13 if T else 9):
                for na in (0, 1, 2, 'byte') if e < 2 else (0, 1, 'byte') if e < 4 else (0, 'byte'):
                    for sa in (False, True):
                        if (k == 'u' or not na) and sa:
                            continue
                        o.append(('root_%s_pow' % k, k, 'pow', na, words(e), sa, False, e, None))
            # 0, 1 and -1 to any power, of any size; other numbers to a power that does not fit a word
            for x, sa in (((), False), ((1,), False), ((1,), True)):
                if k == 'u' and sa:
                    continue
                for nb in range(0, 4):
                    o.append(('root_%s_pow' % k, k, 'pow', x, nb, sa, False, None, None))
            for x in (2, 3, 1 << 63, M64):
                for e in (9, 16, 31, 64, 100) + ((128, 256, 257, 320) if x == 2 else ()):
                    o.append(('root_%s_pow' % k, k, 'pow', (x,), words(e), k == 'j' and e % 2 == 1, False, e, None))
            for na in ('byte', 2):
                for nb in (2, 3):
                    o.append(('root_%s_pow' % k, k, 'pow', na, nb, False, False, None, 'must'))
        for na in (0, 1, 2):
            for nb in (1, 2):
                for sa in (False, True) if na else (False,):
                    o.append(('root_j_pow', 'j', 'pow', na, nb, sa, True, None, 'must'))
        return o
    if prop == 'B04':
        o = []
        am = [0, 1, 2, 7, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 1000]
        if T:
            am = list(range(0, 200)) + [256, 1000]
        for op in ('shl', 'shr'):
            for k in 'ju':
                for na in range(0, 4):
                    for s in am:
                        for sa in (False, True):
                            for sb in (False, True):
                                if k == 'u' and (sa or sb) or not na and sa or sb and not s:
                                    continue
                                o.append(('root_%s_%s' % (k, op), k, op, na, words(s), sa, sb, -s if sb else s, None))
        for k in 'ju':
            o.append(('root_%s_shl' % k, k, 'shl', 1, words(1 << 14), False, False, 1 << 14, None))
            o.append(('root_%s_shl' % k, k, 'shl', 2, words(16421), False, False, 16421, None))
            for na in range(0, 4):
                for s in (1 << 13, 1 << 14, 16421, 1 << 22, 1 << 32, 1 << 38, 1 << 63, M64):
                    o.append(('root_%s_shr' % k, k, 'shr', na, words(s), False, False, s, None))
            for na in range(0, 3):
                for sa in (False, True):
                    if k == 'u' and sa or not na and sa:
                        continue
                    for x in ((5, 1), (0, 1), (64, 0, 1)):
                        n = sum(w << 64 * i for i, w in enumerate(x))
                        o.append(('root_%s_shr' % k, k, 'shr', na, x, sa, False, n, None))
                        o.append(('root_%s_shl' % k, k, 'shl', na, x, sa, False, n, 'must' if na else None))
                        if k == 'j':
                            o.append(('root_j_shl', k, 'shl', na, x, sa, True, -n, None))
                            o.append(('root_j_shr', k, 'shr', na, x, sa, True, -n, 'must' if na else None))
        return o
    if prop == 'B05':
        return two(['and', 'or', 'xor'], 'j', [(x, y) for x in range(0, 4 if T else 3) for y in range(0, 4 if T else 3)] + [(3, 1), (1, 3), (3, 3)])
    if prop == 'B06':
        sizes = [(x, 1) for x in range(0, 3)] + [(0, 2), (1, 2)]
        # divisors of two digits: those with a large top digit need few iterations, ...
        top = ((0, M64), (1 << 63, M64))
        o = [('root_%s_divmod' % k, k, 'divmod', 2, top, sa, sb, None, None) for k in 'uij' for sa, sb in SG if k != 'u' or not (sa or sb)]
        o += [('root_%s_divmod' % k, k, 'divmod', 3, b, False, False, None, None) for k in 'uj' for b in ((1, M64), (0, M64)) + (((M64, M64), (M64, M64 >> 1)) if T else ())]
        # ... the others are treated by induction
        o = two(['divmod'], 'jui', [(3, 1), (2, 2)], 'cut') + o
        return o + (two(['divmod'], 'jui', sizes) + two(['div'], 'ui', sizes)
                + two(['divmod'], 'jui', [(x, 0) for x in range(0, 3)], 'must') + two(['div'], 'ui', [(x, 0) for x in range(0, 3)], 'must'))


C = 'every path of the function is interpreted over the extracted MIR with symbolic 64-bit limbs (exact polynomials); '
RULES = {
    'B01': C + 'the value of the result minus the sum, difference, negation, ... of the values of the operands has to be the zero polynomial on every path, and the result canonical',
    'B02': C + 'an answer equal has to make the difference of the operands the zero polynomial, an answer less or greater has to bound it on that side of zero',
    'B03': C + 'the value of the result minus the product or power has to be the zero polynomial; paths that have to panic must not return',
    'B04': C + 'the value of a left shift minus the operand times 2^n has to be the zero polynomial; the operand minus 2^n times a right shift has to lie in 0..2^n-1',
    'B05': C + 'the value of the result has to be that of the digit-wise combination of the two\'s complements of the operands',
    'B06': C + 'dividend - quotient * divisor - remainder has to be the zero polynomial, divisor - remainder has to be positive, and the signs those of truncated division',
}


def b_check(W, prop, tier):
    global FACTS, LIMIT
    if tier == 'thorough':
        LIMIT = 600
    res = Result('other')
    FACTS = W.facts('big')
    jobs = plan(prop, tier)
    with multiprocessing.get_context('fork').Pool(8) as p:
        out = []
        for o in p.imap_unordered(job, jobs, 1):
            out.append(o)
            if any(NOEND in x[1] for x in o[1]):
                p.terminate()
                break
    n = sum(o[0] for o in out)
    fns = set()
    for _, bad, f, _ in out:
        fns |= set(f)
        for root, why, site, sh in bad:
            res.add('%s %s' % (root[5:], re.sub(r'\d+|: it is off by.*', '', why)), site or root, '%s: %s' % (sh, why))
    res.coverage.update({'obligations': max(n, 1), 'discharged': max(0, n - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST,
                         'shapes': len(jobs), 'paths': n, 'paths_left_open': sum(o[3] for o in out), 'functions_executed_abstractly': sorted(fns), 'rule': RULES[prop], 'explanation': RULES[prop]})
    res.assumptions = ['operands are canonical: no leading zero limb, no negative zero']
    return res


CHECKS = {p: b_check for p in RULES}
