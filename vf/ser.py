"""Serializers on uninterpreted values: the text they produce is read back by a reference."""
from .val import *
from .interp import Split, Panic, Infeasible, Unmodelled, State, Interp
from .natives import NAT, rd, wr, some, NONE, ok, err, seq_of
from . import natives2

UNITDOM = ((0, 0xFFFF),)
WORD = ((0, (1 << 64) - 1),)


class Bad(Exception):
    """the text is not what the reference accepts"""


# ------------------------------------------------------------------ values
# ('num', tag, name)  tag fin / inf / nan;  ('null',)  ('bool', b)  ('str', id, units)
# ('big', id, sign, limbs)  ('arr', id, items)  ('obj', id, ((name-term, value), ...))
def any_of(t):
    return Opq(('any', t))


def ref_of(t):
    return Opq(('ref', t))


KIND = {'num': 'Number', 'null': 'Null', 'bool': 'Bool', 'str': 'String', 'obj': 'Object', 'arr': 'Array', 'big': 'Bigint'}


def kind_of_type(s):
    if s == 'bool':
        return 'bool'
    if s == 'f64':
        return 'num'
    if s.endswith('null::Null'):
        return 'null'
    i = s.find('FlexibleArray<')
    if i >= 0:
        r = s[i + len('FlexibleArray<'):]
        return 'str' if r.startswith('u16') else 'big' if r.startswith('u64') else 'obj' if r.startswith('(') else 'arr'
    raise Unmodelled('kind of value %s' % s)


def term_of(I, st, v, tag):
    n = 0
    while not (type(v) is Opq and v.t[0] == tag) and n < 6:
        if type(v) is Ptr:
            v = rd(I, st, v)
        elif type(v) is Agg and len(v.f) == 1:
            v = v.f[0]
        n += 1
    if type(v) is Opq and v.t[0] == tag:
        return v.t[1]
    raise Unmodelled('expected a value: %r' % (v,))


def elems(t):
    if t[0] == 'arr':
        return tuple(any_of(x) for x in t[2])
    if t[0] == 'obj':
        return tuple(Agg(0, (ref_of(k), any_of(v))) for k, v in t[2])
    if t[0] == 'str':
        return t[2]
    if t[0] == 'big':
        return t[3]
    raise Unmodelled('elements of %s' % t[0])


class SerInterp(Interp):
    def generic_eq(self, st, op, a, b):
        if type(a) is Opq and type(b) is Opq and a.t[0] in ('any', 'ref') and a.t[0] == b.t[0]:
            x, y = a.t[1], b.t[1]
            if x == y and not (x[0] == 'num' and x[1] == 'nan'):
                r = 1
            elif x[0] != 'num' or y[0] != 'num':
                r = 0
            else:
                return Interp.generic_eq(self, st, op, a, b)
            return r if op == 'Eq' else 1 - r
        return Interp.generic_eq(self, st, op, a, b)


def make(F):
    I = SerInterp(F, dict(NAT))
    N = I.nat_by_def
    ty = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('js::type_::Type'))]
    tyv = {v['n']: i for i, v in enumerate(ty['v'])}

    def targ(fn):
        return F.types[[x for x in fn['args'] if isinstance(x, int)][-1]]['s']

    def any_is(I, st, a, fn):
        return int(term_of(I, st, a[0], 'any')[0] == kind_of_type(targ(fn)))

    def get_type(I, st, a, fn):
        return Agg(tyv[KIND[term_of(I, st, a[0], 'any')[0]]], ())

    def unbox(t):
        if t[0] == 'num':
            return Opq(('num', t))
        if t[0] == 'bool':
            return t[1]
        if t[0] == 'null':
            return Agg(0, ())
        return ref_of(t)

    def try_move(I, st, a, fn):
        t = term_of(I, st, a[0], 'any')
        return ok(unbox(t)) if t[0] == kind_of_type(targ(fn)) else err(UNIT)

    def flex(t):
        n = len(elems(t))
        h = Agg(0, (n if t[2] == 'Positive' else -n,)) if t[0] == 'big' else n
        return Ptr(('c', ConstBox(Agg(0, (h, Opq(('flex', t)))))), ())

    def deref(I, st, a, fn):
        return flex(term_of(I, st, a[0], 'ref'))

    def try_ref(I, st, a, fn):
        t = term_of(I, st, a[0], 'any')
        return ok(flex(t)) if t[0] == kind_of_type(targ(fn)) else err(UNIT)

    def items(I, st, a, fn):
        e = elems(rd(I, st, a[0]).f[1].t[1])
        return SliceP(Ptr(('c', ConstBox(VecV(e))), ()), 0, len(e))

    def same(I, st, a, fn):
        return a[0]

    def clone(I, st, a, fn):
        v = rd(I, st, a[0])
        if type(v) is Opq and v.t[0] in ('any', 'ref'):
            return v
        raise Unmodelled('clone of %r' % (v,))

    def to_any(I, st, a, fn):
        v = a[0]
        if type(v) is Opq and v.t[0] == 'ref':
            return any_of(v.t[1])
        if type(v) is Opq and v.t[0] == 'num':
            return any_of(v.t[1])
        if type(v) is FloatV:
            import math
            return any_of(('num', 'fin' if math.isfinite(v.f()) else 'inf', v.b))
        return any_of(('idx', v))

    def eq(I, st, a, fn):
        return I.generic_eq(st, 'Eq', rd(I, st, a[0]), rd(I, st, a[1]))

    def fclass(yes):
        def f(I, st, a, fn):
            v = a[0]
            if type(v) is Opq and v.t[0] == 'num':
                return int(v.t[1][1] in yes)
            if type(v) is FloatV:
                import math
                x = v.f()
                return int(('nan' if math.isnan(x) else 'inf' if math.isinf(x) else 'fin') in yes)
            raise Unmodelled('class of the number %r' % (v,))
        return f
    for f in F.fns:
        nd = f['nd']
        last = nd.rsplit('::', 1)[-1]
        if nd.startswith('nanvm_lib::js::any::<impl'):
            m = {'is': any_is, 'get_type': get_type, 'try_move': try_move, 'try_ref': try_ref, 'move_from': to_any}.get(last)
            if m:
                N[nd] = m
        elif nd == 'nanvm_lib::js::any_cast::AnyCast::move_to_any':
            N[nd] = to_any
        elif nd.startswith('nanvm_lib::mem::ref_::<impl std::ops::Deref for') and last == 'deref':
            N[nd] = deref
        elif nd == 'nanvm_lib::mem::block::Block::<T, D>::object':
            N[nd] = same
        elif nd == 'nanvm_lib::mem::flexible_array::FlexibleArray::<I, T>::items':
            N[nd] = items
    N['<nanvm_lib::mem::optional_ref::OptionalRef<T> as std::clone::Clone>::clone'] = clone
    N['<nanvm_lib::mem::optional_ref::OptionalRef<T> as std::cmp::PartialEq>::eq'] = eq
    for p in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::', 'std::num::<impl f64>::'):
        N[p + 'is_finite'] = fclass(('fin',))
        N[p + 'is_infinite'] = fclass(('inf',))
        N[p + 'is_nan'] = fclass(('nan',))
    I.opts['to_string'] = num_text
    # the order of a hash map is arbitrary
    for n in list(N):
        if N[n] in (natives2.map_iter, natives2.map_into_iter) and 'Hash' in n:
            N[n] = shuffled(N[n])
    return I


def shuffled(f):
    def g(I, st, a, fn):
        v = a[0]
        p = None
        if type(v) is not MapV:
            p, v = natives2.mapp(I, st, v)
        e = v.e
        if v.k == 'h' and len(e) > 1 and not st.env.get('fixed'):
            o, left = [], list(e)
            while len(left) > 1:
                o.append(left.pop(I.choose(st, len(left), 'hash order')))
            v = MapV(tuple(o) + tuple(left), v.k)
            if p is not None:
                wr(I, st, p, v)
            else:
                a = [v] + list(a[1:])
        return f(I, st, a, fn)
    return g


def num_text(I, st, v, t):
    if type(v) is Opq and v.t[0] == 'num':
        return StrV((('num', v.t[1]),))
    return None


# ------------------------------------------------------------------ reading back
class Reader:
    """reference reader of the produced text: a sequence of code points, affine expressions
    and ('num', term) segments"""

    def __init__(self, I, st, s, refs=None):
        self.I, self.st, self.s, self.i = I, st, s, 0
        self.refs = refs
        self.ids = {}

    def peek(self):
        if self.i >= len(self.s):
            return None
        c = self.s[self.i]
        return c if isinstance(c, int) else ''

    def exact(self, c):
        """value of an item that is known exactly"""
        if isinstance(c, Lin):
            d = self.I.dom_of(self.st, c)
            if d[0][0] == d[-1][1]:
                return int(d[0][0])
        return c

    def lit(self, w):
        for ch in w:
            if self.i >= len(self.s) or self.exact(self.s[self.i]) != ord(ch):
                raise Bad('%r expected, found %s' % (w, show(self.s[self.i:self.i + 12])))
            self.i += 1

    def at(self, w):
        return all(self.i + k < len(self.s) and self.s[self.i + k] == ord(ch) for k, ch in enumerate(w))

    def string(self):
        """list of escape groups up to the closing quote"""
        self.lit('"')
        o = []
        while True:
            if self.i >= len(self.s):
                raise Bad('unterminated string')
            c = self.exact(self.s[self.i])
            self.i += 1
            if c == 34:
                return o
            if c == 92:
                n = self.exact(self.s[self.i])
                self.i += 1
                if n == ord('u'):
                    o.append(('u',) + tuple(self.s[self.i:self.i + 4]))
                    self.i += 4
                else:
                    o.append(('e', n))
            else:
                o.append(('c', c))

    def value(self, want, djs=False):
        """reads one value and checks it against the expected term"""
        k = want[0]
        if k in ('arr', 'obj') and self.refs is not None and self.at('_'):
            self.lit('_')
            n = self.number()
            if n not in self.refs:
                raise Bad('_%d is used before it is defined' % n)
            if self.refs[n] != want[1]:
                raise Bad('_%d stands for another value' % n)
            return
        if k == 'null' or k == 'num' and want[1] != 'fin':
            self.lit('null')
        elif k == 'bool':
            self.lit('true' if want[1] else 'false')
        elif k == 'num':
            if self.i >= len(self.s) or self.s[self.i] != ('num', want):
                raise Bad('the number is written as %s' % show(self.s[self.i:self.i + 12]))
            self.i += 1
        elif k == 'str':
            self.text(want)
        elif k == 'arr':
            self.compound(want, djs)
        elif k == 'obj':
            self.compound(want, djs)
        elif k == 'big':
            if not djs:
                raise Bad('a bigint in JSON')
            self.bigint(want)
        else:
            raise AssertionError(k)

    def text(self, want):
        g = self.string()
        u = []
        for x in g:
            u.append(x)
        k = 0
        for x in want[2]:
            if k >= len(u):
                raise Bad('the string is cut')
            self.unit(u[k], x)
            k += 1
        if k != len(u):
            raise Bad('the string has more characters')

    def unit(self, g, x):
        check_unit(self.I, self.st, g, x)

    def compound(self, want, djs):
        if self.refs is not None:
            self.seen(want)
        o, c = '[]' if want[0] == 'arr' else '{}'
        self.lit(o)
        for n, e in enumerate(want[2]):
            if n:
                self.lit(',')
            if want[0] == 'obj':
                self.text(e[0])
                self.lit(':')
                e = e[1]
            self.value(e, djs)
        self.lit(c)

    def seen(self, want):
        n = self.ids.get(want[1], 0)
        if n:
            raise Bad('a shared value is written twice')
        self.ids[want[1]] = n + 1

    def number(self):
        j = self.i
        while isinstance(self.peek(), int) and 48 <= self.s[self.i] <= 57:
            self.i += 1
        if j == self.i:
            raise Bad('a number is expected')
        return int(''.join(map(chr, self.s[j:self.i])))

    def bigint(self, want):
        if want[2] == 'Negative':
            self.lit('-')
        j = self.i
        while self.i < len(self.s) and self.exact(self.s[self.i]) != ord('n'):
            self.i += 1
        digits(self.I, self.st, self.s[j:self.i], want[3])
        self.lit('n')

    def end(self):
        if self.i != len(self.s):
            raise Bad('more text: %s' % show(self.s[self.i:self.i + 20]))


def show(s):
    o = ''
    for c in s:
        o += chr(c) if isinstance(c, int) and 32 <= c < 127 else '<%s>' % (c[0] if type(c) is tuple else '?')
    return repr(o)


SIMPLE = {ord('"'): 34, 92: 92, ord('/'): 47, ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9}


# ---- values of expressions over one unit
TAB = {}


def root_of(v):
    """the single unit an expression depends on"""
    if not isinstance(v, Lin):
        return None
    r = None
    for t, k in v.t:
        x = t_root(t)
        if r is None:
            r = x
        elif x != r:
            raise Unmodelled('expression over two units')
    return r


def t_root(t):
    if t[0] in ('and', 'shr', 'div', 'rem', 'BitAnd', 'BitOr', 'BitXor', 'mul'):
        a = [root_of(x) for x in t[1:] if isinstance(x, Lin)]
        if len(set(a)) == 1:
            return a[0]
        raise Unmodelled('expression over two units')
    if t[0] == 'wrap':
        return root_of(t[3])
    return t


def table_of(t, lo, hi):
    """value of the term for every value of its root"""
    k = (strip(t), lo, hi)
    r = TAB.get(k)
    if r is None:
        if t_root(t) == t:
            r = list(range(lo, hi + 1))
        elif t[0] == 'wrap':
            b, sg = t[1], t[2]
            x = lin_table(t[3], lo, hi)
            r = [v & ((1 << b) - 1) for v in x]
            if sg:
                r = [v - (1 << b) if v >> (b - 1) else v for v in r]
        else:
            x, y = lin_table(t[1], lo, hi), lin_table(t[2], lo, hi)
            op = {'and': int.__and__, 'BitAnd': int.__and__, 'BitOr': int.__or__, 'BitXor': int.__xor__, 'shr': int.__rshift__,
                  'div': int.__floordiv__, 'rem': int.__mod__, 'mul': int.__mul__}[t[0]]
            r = [op(p, q) for p, q in zip(x, y)]
        TAB[k] = r
    return r


def strip(t):
    return repr(t).replace(repr(t_root(t)), 'U')


def lin_table(l, lo, hi):
    if not isinstance(l, Lin):
        return [l] * (hi - lo + 1)
    r = None
    for t, k in l.t:
        x = table_of(t, lo, hi)
        r = [k * v for v in x] if r is None else [p + k * v for p, v in zip(r, x)]
    return [v + l.c for v in r] if l.c else r


def unit_values(st, u):
    """values of the unit allowed on this path"""
    (t, k), = u.t
    d = st.dom.get(u.t, UNITDOM)
    cons = []
    rt = repr(t)
    for key, ivs in st.dom.items():
        if key == u.t:
            continue
        try:
            if root_of(Lin(0, key)) != t:
                continue
        except Unmodelled:
            continue
        cons.append((key, ivs))
    mk = (d, tuple(sorted((repr(k).replace(rt, 'U'), i) for k, i in cons)))
    r = VALS.get(mk)
    if r is None:
        r = VALS[mk] = (len(VALS), unit_values1(d, [(lin_table(Lin(0, k), 0, 0xFFFF), i) for k, i in cons]))
    return r


VALS = {}


def unit_values1(d, cons):
    o = []
    for a, b in d:
        for v in range(int(a), int(b) + 1):
            if all(any(l <= c[v] <= h for l, h in ivs) for c, ivs in cons):
                o.append(v)
    return o


MEMO = {}


def check_unit(I, st, g, u):
    if isinstance(u, int):
        vn, vs = -1, [0]
    else:
        vn, vs = unit_values(st, u)
    for e in g[1:]:
        if isinstance(e, Lin) and not isinstance(u, int):
            r = root_of(e)
            if r != u.t[0][0]:
                raise Bad('the escape of another character')
    key = (repr(g) if isinstance(u, int) else repr(g).replace(repr(u.t[0][0]), 'U'), u if isinstance(u, int) else 0, vn)
    if key in MEMO:
        return
    tabs = [lin_table(e, 0, 0xFFFF) if isinstance(e, Lin) else None for e in g[1:]]
    for v in vs:
        c = [t[v] if t is not None else e for t, e in zip(tabs, g[1:])]
        w = u if isinstance(u, int) else v
        if g[0] == 'c':
            if type(c[0]) is not int:
                raise Bad('%r in a string' % (c[0],))
            if c[0] < 0x20 or c[0] in (34, 92):
                raise Bad('the character %#x is not escaped' % c[0])
            r = c[0]
        elif g[0] == 'e':
            r = SIMPLE.get(c[0])
        else:
            r = 0
            for x in c:
                if 48 <= x <= 57:
                    x -= 48
                elif 65 <= x <= 70 or 97 <= x <= 102:
                    x = (x & 31) + 9
                else:
                    raise Bad('\\u with a character that is no hexadecimal digit for the unit %#x' % w)
                r = r * 16 + x
            if len(c) != 4:
                raise Bad('\\u with %d digits' % len(c))
        if r != w:
            raise Bad('the unit %#x is written as %r' % (w, ''.join(chr(x) if x < 0x110000 else '?' for x in c if isinstance(x, int))))
    MEMO[key] = True


# ---- digits
def reduce10(I, st, l):
    """remainders by 10 are replaced by x - 10*(x/10); terms known to be zero vanish"""
    l = lin_of(l)
    out = l.c
    for t, k in l.t:
        if t[0] == 'rem' and t[2] == 10:
            out = lin_add(out, lin_mul(lin_add(reduce10(I, st, t[1]), quot(I, st, t[1]), -10), k))
        else:
            d = st.dom.get(((t, 1),))
            if d is not None and d[0][0] == d[-1][1]:
                out = lin_add(out, int(d[0][0]) * k)
            elif t[0] == 'div' and t[2] == 10:
                out = lin_add(out, lin_mul(quot(I, st, t[1]), k))
            else:
                out = lin_add(out, lin_mul(atom(t), k))
    return out


def quot(I, st, x):
    d = I.dom_of(st, x)
    if d[0][0] // 10 == d[-1][1] // 10:
        return int(d[0][0]) // 10
    try:
        if I.decide_in(st, atom(('div', x, 10)), ((0, 0),)):
            return 0
    except Split:
        pass
    d = st.dom.get(((('div', x, 10), 1),))
    if d is not None and d[0][0] == d[-1][1]:
        return int(d[0][0])
    x = reduce10(I, st, x)
    if isinstance(x, int):
        return x // 10
    return atom(('q10', x))


def digits(I, st, ds, limbs):
    if not ds:
        raise Bad('a bigint without digits')
    total = 0
    for d in ds:
        if not isinstance(d, (int, Lin)):
            raise Bad('%r in a bigint' % (d,))
        dom = I.dom_of(st, d)
        if dom[0][0] < 48 or dom[-1][1] > 57:
            raise Bad('a digit outside 0..9')
        total = lin_add(lin_mul(total, 10), lin_add(d, -48))
    want = 0
    for i, l in enumerate(limbs):
        want = lin_add(want, lin_mul(l, 1 << (64 * i)))
    diff = reduce10(I, st, lin_add(total, want, -1))
    if diff != 0:
        raise Bad('the digits do not add up to the value (difference %s)' % str(diff)[:160])
    top = reduce10(I, st, lin_add(ds[0], -48))
    if len(ds) > 1 and isinstance(top, int) and top == 0:
        raise Bad('a leading zero')
