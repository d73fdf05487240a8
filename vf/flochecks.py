"""B07: big floats become the nearest double."""
import multiprocessing
import re
import sys
import time
from . import flo
from .big import OutOfTime, NOEND, value
from .bigchecks import Bad, within, decided
from .flo import bn
from .instance import Instances
from .interp import State, Unmodelled, Split, Infeasible
from .report import Result
from .tokchecks import TRUST
from .val import *

FACTS = None
LIMIT = 25
FAR = 5000      # no significand used here has as many bits


def spec_bits(I, st, bits, neg, S, P, Q, rem, e):
    """bits is the double nearest to v = S * P / Q (v in the open interval to (S+1) * P / Q if
    rem), ties to even; e is None, or the exponent of two if it is symbolic (P = Q = 1)"""
    body = lin_add(bits, -(1 << 63)) if neg else bits
    E = I.fdiv(st, body, 1 << 52) if isinstance(body, Lin) else body >> 52
    frac = lin_add(body, lin_mul(E, 1 << 52), -1)
    if isinstance(frac, Lin):
        I.refine(st, frac, ((0, (1 << 52) - 1),))
    if isinstance(E, Lin):
        E = I.subst(st, E)
    if isinstance(S, int) and S == 0 or isinstance(S, Lin) and decided(I, st, S, ((0, 0),)):
        if rem:
            return
        if not isinstance(body, int) or body != 0:
            raise Bad('zero becomes something else')
        return
    if isinstance(E, Lin):
        d = I.dom_of(st, E, 2)
        lo, hi = d[0][0], d[-1][1]
        if lo < 0 or hi > 2047:
            raise Bad('the sign or exponent bits are wrong: exponent field in %s..%s' % (lo, hi))
        if hi == 2047:
            if decided(I, st, E, ((2047, 2047),)):
                E = 2047
        elif lo == 0:
            if decided(I, st, E, ((0, 0),)):
                E = 0
        if isinstance(E, Lin):
            E = I.subst(st, E)
        if isinstance(E, Lin) and e is None:
            lo, hi = I.dom_of(st, E, 2)[0][0], I.dom_of(st, E, 2)[-1][1]
            if hi - lo > 64:
                raise Bad('the exponent field is not determined')
            decided(I, st, E, ((lo, lo),))
            E = lo
    elif not 0 <= E <= 2047:
        raise Bad('the sign or exponent bits are wrong')
    elo = ehi = None
    if not isinstance(e, Lin) and e is not None:
        e = max(-FAR, min(e, FAR))
    if isinstance(e, Lin):
        d = I.dom_of(st, e, 2)
        elo, ehi = d[0][0], d[-1][1]
        if elo == ehi:
            e = elo
    if E == 2047:
        # infinity: v is at least half a unit above the largest double
        if not (frac == 0 or isinstance(frac, Lin) and decided(I, st, frac, ((0, 0),))):
            raise Bad('a NaN')
        x = max(-FAR, min(elo, FAR)) if isinstance(e, Lin) else e
        p, q = (P << x, Q) if x is not None and x >= 0 else (P, Q << -x) if x is not None else (P, Q)
        d = lin_add(lin_mul(S, p), -((((1 << 54) - 1) << 970) * q))
        if not isinstance(d, Lin):
            if d < 0:
                raise Bad('a value that has a nearest double becomes an infinity')
            return
        within(I, st, d, 0, INF, 'a value that has a nearest double becomes an infinity')
        return
    if isinstance(E, int) and E == 0:
        m, k = frac, -1074
    else:
        m, k = lin_add(frac, 1 << 52), lin_add(E, -1075)
    # v / 2^k = S * p / q
    if isinstance(e, Lin):
        x = lin_add(e, k, -1)
        if isinstance(x, Lin):
            x = I.subst(st, x)
        if isinstance(x, Lin):
            if m == 0:
                x = I.dom_of(st, x, 2)[-1][1]       # rounding to zero: the largest exponent decides
                if x == INF:
                    raise Bad('zero for arbitrarily large exponents')
            else:
                raise Bad('the exponent field does not follow the exponent')
    else:
        x = (e or 0) - k if isinstance(k, int) else None
        if x is None:
            raise Bad('the exponent field is not determined')
    x = max(-FAR, min(x, FAR))
    p, q = (P << x, Q) if x >= 0 else (P, Q << -x)
    d = lin_add(lin_mul(S, 2 * p), lin_mul(m, 2 * q), -1)
    u = 2 * p if rem else 0
    if isinstance(d, Lin):
        within(I, st, d, -q, q - u, 'the result is not the nearest double')
    elif not -q <= d <= q - u:
        raise Bad('the result is not the nearest double')
    if not rem:
        for t in (q, -q):
            if (isinstance(d, int) and d == t) or isinstance(d, Lin) and possible(I, st, d, t) and decided(I, st, d, ((t, t),)):
                b = lin_add(m, lin_mul(I.fdiv(st, m, 2), 2), -1) if isinstance(m, Lin) else m & 1
                if isinstance(b, Lin):
                    even(I, st, S, p, q, t, m)
                elif b:
                    raise Bad('a tie is not rounded to even')
                break
    if k != -1074:
        lowest = lin_add(m, -(1 << 52))
        if lowest == 0 or isinstance(lowest, Lin) and possible(I, st, lowest, 0) and decided(I, st, lowest, ((0, 0),)):
            d = lin_mul(d, 2)
            if isinstance(d, Lin):
                within(I, st, d, -q, INF, 'the next lower double is nearer')
            elif d < -q:
                raise Bad('the next lower double is nearer')


def even(I, st, S, p, q, t, m):
    """S p / q = m + t/2 with m even"""
    b = lin_add(m, lin_mul(I.fdiv(st, m, 2), 2), -1)
    within(I, st, b, 0, 0, 'a tie is not rounded to even')


def possible(I, st, l, c):
    for deep in (0, 1, 2):
        if not iv_and(I.dom_of(st, l, deep), ((c, c),)):
            return False
    return True


def spec_bin(I, st, ret, neg, S, e, rem, p):
    """to_bin: S' has p bits, and S' * 2^e' is S * 10^e rounded down, the flag set if inexact"""
    T, tn = ret.f[0].t[1], ret.f[0].t[2]
    n2, e2, r2 = ret.f[1], ret.f[2], ret.f[3]
    if S == 0 or isinstance(S, Lin) and decided(I, st, S, ((0, 0),)):
        if T != 0:
            raise Bad('zero becomes something else')
        if n2 != neg:
            raise Bad('the sign is lost')
        return
    if tn or n2 != neg:
        raise Bad('the sign is lost')
    if isinstance(T, Lin):
        within(I, st, T, 1 << (p - 1), (1 << p) - 1, 'the significand has not the requested number of bits')
    elif not 1 << (p - 1) <= T < 1 << p:
        raise Bad('the significand has not the requested number of bits')
    if not isinstance(e2, int):
        raise Bad('the exponent is not determined')
    P, Q = (10 ** e, 1) if e >= 0 else (1, 10 ** -e)
    if e2 >= 0:
        Q <<= e2
    else:
        P <<= -e2
    d = lin_add(lin_mul(S, P), lin_mul(T, Q), -1)
    if isinstance(d, int):
        if not 0 <= d < Q:
            raise Bad('the value is not rounded down')
    else:
        within(I, st, d, 0, Q - 1, 'the value is not rounded down')
    if r2 not in (0, 1):
        raise Bad('the flag is not determined')
    z = d == 0 if isinstance(d, int) else possible(I, st, d, 0) and (not possible_not(I, st, d, 0) or decided(I, st, d, ((0, 0),)))
    if bool(r2) != (rem or not z):
        raise Bad('the inexact flag is %s although the discarded digits are %szero' % (bool(r2), 'not ' if rem or not z else ''))


def possible_not(I, st, l, c):
    for deep in (0, 1, 2):
        d = I.dom_of(st, l, deep)
        if d[0][0] == d[-1][1] == c:
            return False
    return True


def job(spec):
    sys.setrecursionlimit(20000)
    root, lo, hi, neg, e, rem, p = spec
    F = FACTS
    I = flo.make(F)
    st0 = State()
    n, bad, opn = 0, [], 0
    if lo == hi:
        S = lo
    else:
        S = atom(('limb', 'S', 0))
        st0.dom[S.t] = ((lo, hi),)
    x = e
    if isinstance(e, tuple):
        x = atom(('limb', 'e', 0))
        st0.dom[x.t] = (e,)
    args = [bn(S, False), int(neg), x]
    if root != 'root_f_dec':
        args.append(int(rem))
    if root == 'root_f_tobin':
        args.append(p)
    I.deadline = time.time() + LIMIT
    what = '%s(%s significand %s, exponent %s%s)' % (root[7:], 'negative' if neg else 'positive', show(lo, hi), '%d..%d' % e if isinstance(e, tuple) else e, ', inexact' if rem else '')

    def spec_of(st, ret):
        if root == 'root_f_dec':
            spec_bits(I, st, ret, neg, S, *((10 ** min(e, 700), 1) if e >= 0 else (1, 10 ** min(-e, 1400))), False, None)
        elif root == 'root_f_bin':
            spec_bits(I, st, ret, neg, S, 1, 1, rem, x)
        else:
            spec_bin(I, st, ret, neg, S, e, rem, p)
    I.base = dict(st0.dom)
    I.push(st0, F.roots[root], args)
    try:
        for status, s, info in I.run(st0):
            if status != 'done':
                for v in Instances(I, s).find(1):
                    bad.append((root, '%s: %s' % (status, info[0] if type(info) is tuple else info), info[1] if type(info) is tuple and len(info) > 1 else '', what))
                    break
                else:
                    opn += 1
                continue
            todo = [s]
            while todo:
                a = todo.pop()
                b = a.clone()
                try:
                    spec_of(b, info)
                except Split as sp:
                    for alt in sp.alts:
                        z = a.clone()
                        try:
                            alt(z)
                            todo.append(z)
                        except Infeasible:
                            pass
                    continue
                except Infeasible:
                    continue
                except Bad as w:
                    if not getattr(a, 'tight', False):
                        z = a.clone()
                        try:
                            I.tighten(z)
                            z.tight = True
                            todo.append(z)
                        except Infeasible:
                            pass
                        continue
                    why, inst = confirm(I, a, info, spec_of, S, x)
                    if why is None:
                        opn += 1
                    else:
                        bad.append((root, why, '', what + inst))
                n += 1
            if len(bad) > 5:
                break
    except OutOfTime:
        opn += 1
    except Unmodelled as u:
        bad.append((root, 'not analysable: %s' % str(u)[:300], '; '.join(list(getattr(u, 'stack', []))[-4:]), what))
    fns = sorted(F.fns[j]['name'] for j in I.visited if F.fns[j]['crate'] in ('nanvm_lib', 'vroots'))
    return n, bad, fns, opn, I.merged


def confirm(I, st, ret, spec_of, S, x):
    J = Instances(I, st, [S, x])
    for v in J.find():
        z = J.pin(v)
        try:
            spec_of(z, pin(J, dict(zip(J.free, v)), ret))
        except (Split, Infeasible):
            continue
        except Bad as w:
            return str(w), ' for ' + ', '.join('%s = %d' % (t[1], n) for t, n in zip(J.free, v))
    return None, ''


def pin(J, v, r):
    if isinstance(r, Lin):
        return J.lin(v, r)
    if type(r) is Agg:
        return Agg(r.v, tuple(pin(J, v, x) for x in r.f))
    if type(r) is Opq:
        return Opq(tuple(pin(J, v, x) for x in r.t))
    return r


def show(lo, hi):
    def s(n):
        k = n.bit_length()
        return '2^%d%s' % (k, '-1') if n == (1 << k) - 1 and k > 20 else '2^%d' % (k - 1) if n == 1 << max(k - 1, 0) and k > 20 else str(n) if k < 80 else '%d bits' % k
    return s(lo) if lo == hi else '%s..%s' % (s(lo), s(hi))


def plan(tier):
    T = tier == 'thorough'
    W = 1 << 64
    o = []

    def dec(lo, hi, e):
        o.append(('root_f_dec', lo, hi, e % 2 == 1, e, False, None))
    # decimal literals of up to 19 digits
    for e in list(range(-30, 12)) + [-40, -64, -100, -200, -290, -305, -308, -309, -343, -344, -345, -400, -401, -419, -420, -421, -422, -1000, -10 ** 6, -1 << 63]:
        dec(0, W - 1, e)
    for e in list(range(12, 28)) + [40, 64, 100, 200, 290, 308, 309, 310, -320, -323, -324, -325, -330, -340]:
        for v in ((1, 99),) if 0 < e < 40 else ((3, 3), (17, 17)):
            dec(v[0], v[1], e)
        dec(10 ** 16, 10 ** 16 + 10 ** 6, e)
        dec(1 << 63, W - 1, e)
    for e in (400, 401, 1000, 10 ** 6, (1 << 63) - 1):
        dec(1, 1, e)
    # longer ones
    for e in (-400, -345, -100, -27, -1, 0, 1, 22, 200):
        dec(1 << 199, (1 << 200) - 1, e)
    dec(1 << 299, (1 << 300) - 1, 0)
    # every exponent of a binary float
    for rem in (False, True):
        for neg in (False, True):
            for x in ((-5000, -1076), (-1075, -1066), (-1065, -1055), (-1054, -1045), (-1044, -1035), (-1034, -1025), (-1024, 960), (961, 5000)):
                o.append(('root_f_bin', 1 << 53, (1 << 54) - 1, neg, (x[0] - 53, x[1] - 53), rem, None))
        for e in (-1200, -1128, -1127, -1074, -1000, 0, 900, 970):
            o.append(('root_f_bin', 1 << 53 if rem else 0, (1 << 70) - 1, False, e, rem, None))
    for e in (-1 << 62, 1 << 62):
        o.append(('root_f_bin', 0, (1 << 70) - 1, False, (e, e + 1000), False, None))
    for p in (24, 53, 54, 63, 64, 113):
        for e in (-30, -3, -1, 0, 1, 4):
            for rem in (False, True) if p in (24, 54) else (False,):
                o.append(('root_f_tobin', 0 if p > 50 else W >> 1, W - 1, e % 2 == 0, e, rem, p))
    if not T:
        return o
    for e in range(-425, 405):
        for lo, hi in ((0, W - 1), (1, 99), (1 << 63, W - 1), (W, (1 << 200) - 1)):
            if ('root_f_dec', lo, hi, e % 2 == 1, e, False, None) not in o:
                dec(lo, hi, e)
    return o


def b07(W, prop, tier):
    global FACTS, LIMIT
    if tier == 'thorough':
        LIMIT = 600
    res = Result('other')
    FACTS = W.facts('flo')
    jobs = plan(tier)
    with multiprocessing.get_context('fork').Pool(8) as p:
        out = list(p.imap_unordered(job, jobs, 1))
    n = sum(o[0] for o in out)
    fns = set()
    for o in out:
        fns |= set(o[2])
        for root, why, site, sh in o[1]:
            res.add('%s %s' % (root[7:], re.sub(r'-?\d+', '', why)), site or root, '%s: %s' % (sh, why))
    rule = ('every path of the conversions is interpreted over the extracted MIR with a symbolic significand and, for binary floats, a symbolic exponent; on every path '
            '2 * (value / unit - significand of the result) has to lie in -1..1 with ties even, infinities only from half a unit above the largest double on')
    res.coverage.update({'obligations': max(n, 1), 'discharged': max(0, n - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py B07', 'trusted_base': TRUST,
                         'shapes': len(jobs), 'paths': n, 'paths_left_open': sum(o[3] for o in out), 'merged_states': sum(o[4] for o in out),
                         'functions_executed_abstractly': sorted(fns), 'rule': rule, 'explanation': rule})
    res.assumptions = ['the operations of js_bigint are exact (B01 to B06)', 'a binary float marked inexact has at least 54 significant bits, as to_bin(54) provides']
    return res


CHECKS = {'B07': b07}
