"""Import path resolution, on every path of a bounded shape with uninterpreted characters."""
import itertools
from .val import *
from .interp import Split, Infeasible, Interp, State
from .natives import NAT
from .parse import resolve

SLASH, DOT = 47, 46
OTHER = ((0, 45), (48, 127))
WIDE = ((128, 0xD7FF), (0xE000, 0x10FFFF))


def norm(s):
    """reference on sequences of '/', '.' and anything else"""
    comp, cur = [], []
    for c in s:
        if c == SLASH:
            comp.append(tuple(cur))
            cur = []
        else:
            cur.append(c)
    comp.append(tuple(cur))
    root = (SLASH,) if s[:1] == (SLASH,) else ()
    o = []
    for c in comp:
        if c in ((), (DOT,)):
            continue
        if c == (DOT, DOT):
            if o and o[-1] != c:
                o.pop()
            elif not root:
                o.append(c)
        else:
            o.append(c)
    r = root
    for i, c in enumerate(o):
        r += ((SLASH,) if i else ()) + c
    return r


def cat(a, b):
    return norm(b) if not a else norm(a + (SLASH,) + b)


def split(p):
    if SLASH not in p:
        return (), p
    i = len(p) - 1 - p[::-1].index(SLASH)
    return (p[:i] or (SLASH,)), p[i + 1:]


def relative(f, s):
    return cat(split(f)[0], s)


def strings(n, chars='/.x'):
    """every string of '/', '.' and other characters up to length n (u: not ASCII)"""
    for k in range(n + 1):
        yield from itertools.product(chars, repeat=k)


def pieces(n):
    """every sequence of up to n components"""
    for k in range(1, n + 1):
        for c in itertools.product(('', '.', '..', 'x', 'xx', '.x'), repeat=k):
            yield tuple('/'.join(c))


def sym(st, s):
    o = []
    for c in s:
        if c == '/':
            o.append(SLASH)
        elif c == '.':
            o.append(DOT)
        else:
            o.append(st.fresh('~c', WIDE if c == 'u' else OTHER))
    return tuple(o)


def show(s):
    return ''.join(chr(c) if isinstance(c, int) else 'x' for c in s)


def check(F, root, args, ref, res):
    """all shapes in args; returns the number of paths decided"""
    I = Interp(F, dict(NAT))
    I.opts['u8split'] = True
    n = 0
    bad = {}
    for shape in args:
        st = State()
        a = [sym(st, s) for s in shape]
        want = ref(*a)
        if type(want) is not tuple or not want or type(want[0]) is not tuple:
            want = (want,)
        I.push(st, F.roots[root], [StrV(x) for x in a])
        for status, s, info in I.run(st):
            n += 1
            if status != 'done':
                bad.setdefault('%s: %s' % (status, info[0] if status == 'panic' else info), []).append(shape)
                continue
            got = info.f if type(info) is Agg and len(want) > 1 else (info,)
            got = tuple(g.s if type(g) is StrV else None for g in got)
            if not same(I, s, want, got):
                bad.setdefault('wrong path', []).append((shape, want, got))
    return n, bad, I


def same(I, s, want, got):
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if g is None or len(w) != len(g):
            return False
        for x, y in zip(w, g):
            if x != y:
                d = I.dom_of(s, x) if isinstance(x, Lin) else None
                e = I.dom_of(s, y) if isinstance(y, Lin) else None
                vx = x if d is None else d[0][0] if len(d) == 1 and d[0][0] == d[0][1] else None
                vy = y if e is None else e[0][0] if len(e) == 1 and e[0][0] == e[0][1] else None
                if vx is None or vx != vy:
                    return False
    return True
