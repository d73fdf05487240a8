"""Abstract values and the numeric domain used by the MIR abstract interpreter."""


class Inf(float):
    """an infinity that can be combined with integers too large for a float"""
    def __add__(self, o):
        return wrap(float(self) + float(o)) if isinstance(o, float) else self
    __radd__ = __add__

    def __sub__(self, o):
        return wrap(float(self) - float(o)) if isinstance(o, float) else self

    def __rsub__(self, o):
        return wrap(float(o) - float(self)) if isinstance(o, float) else -self

    def __neg__(self):
        return NINF if self > 0 else INF

    def __abs__(self):
        return INF

    def __mul__(self, o):
        if isinstance(o, float):
            return wrap(float(self) * float(o))
        return self if o > 0 else -self if o < 0 else 0
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self if o > 0 else -self


def wrap(x):
    return INF if x == INF else NINF if x == NINF else x


INF = Inf('inf')
NINF = Inf('-inf')


class Lin:
    """Affine form  c + sum coef*term  over opaque integer terms."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = hash(('Lin', c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return '(' + ' + '.join([str(self.c)] + ['%s*%s' % (k, t) for t, k in self.t]) + ')'


def atom(term):
    return Lin(0, ((term, 1),))


def _key(tc):
    return repr(tc[0])


def lin_of(v):
    if isinstance(v, Lin):
        return v
    return Lin(v, ())


def simp(l):
    return l.c if not l.t else l


def lin_add(a, b, kb=1):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a + kb * b
    a = lin_of(a)
    b = lin_of(b)
    d = dict(a.t)
    for t, k in b.t:
        n = d.get(t, 0) + kb * k
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return simp(Lin(a.c + kb * b.c, tuple(sorted(d.items(), key=_key))))


def lin_mul(a, k):
    """multiply by python int k"""
    if k == 0:
        return 0
    if not isinstance(a, Lin):
        return a * k
    return Lin(a.c * k, tuple((t, c * k) for t, c in a.t))


class Agg:
    """struct / tuple / enum / closure value"""
    __slots__ = ('v', 'f', '_h', '_g')

    def __init__(self, v, f):
        self.v = v
        self.f = f
        self._h = None
        self._g = None

    def __repr__(self):
        return 'Agg%s%s' % (self.v, list(self.f))

    def __eq__(self, o):
        return self is o or isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.v, self.f))
        return self._h


UNIT = Agg(0, ())


class VecV:
    """contents of a Vec / VecDeque / array / boxed slice.  `drained` counts elements
    already handed to the product comparison (append-only output buffers)."""
    __slots__ = ('e', 'drained', 'kind', '_h', '_g')

    def __init__(self, e, drained=0, kind='v'):
        self._h = None
        self._g = None
        self.e = e
        self.drained = drained
        self.kind = kind

    def __repr__(self):
        return 'Vec%s%s' % ('(+%d)' % self.drained if self.drained else '', list(self.e))

    def __eq__(self, o):
        return self is o or isinstance(o, VecV) and self.e == o.e and self.drained == o.drained

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.e, self.drained, 'V'))
        return self._h


class StrV:
    """String contents (also used, by value, for &str).  Items are code points (int or
    Lin) or ('S', id) segments standing for an arbitrary string."""
    __slots__ = ('s', 'drained')

    def __init__(self, s, drained=0):
        self.s = s
        self.drained = drained

    def __repr__(self):
        return 'Str' + ('(+)' if self.drained else '') + show_str(self.s)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.s == o.s and self.drained == o.drained

    def __hash__(self):
        return hash((self.s, 'S', self.drained))


def show_str(s):
    o = ''
    for x in s:
        if isinstance(x, int):
            o += chr(x) if 32 <= x < 127 else '\\u{%x}' % x
        else:
            o += '<%s>' % (x,)
    return repr(o)


class FloatV:
    __slots__ = ('b', 'w')

    def f(self):
        import struct
        return struct.unpack('<d', struct.pack('<Q', self.b))[0] if self.w == 64 else struct.unpack('<f', struct.pack('<I', self.b))[0]

    def __init__(self, b, w=64):
        self.b = b
        self.w = w

    def __repr__(self):
        import struct
        return 'f%r' % struct.unpack('<d', struct.pack('<Q', self.b))[0] if self.w == 64 else 'f32'

    def __eq__(self, o):
        return isinstance(o, FloatV) and self.b == o.b

    def __hash__(self):
        return hash(('F', self.b))


class Opq:
    """uninterpreted value"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Opq%s' % (self.t,)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.t == o.t

    def __hash__(self):
        return hash(('O', self.t))


class FnV:
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'Fn#%d' % self.i

    def __eq__(self, o):
        return isinstance(o, FnV) and self.i == o.i

    def __hash__(self):
        return hash(('Fn', self.i))


class Ptr:
    """pointer to a place: base = int frame uid+local ('l',uid,loc) / ('h',id) / ('c',ConstBox)"""
    __slots__ = ('b', 'p')

    def __init__(self, b, p):
        self.b = b
        self.p = p

    def __repr__(self):
        return 'Ptr%s%s' % (self.b, list(self.p))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.b == o.b and self.p == o.p

    def __hash__(self):
        return hash(('P', self.b, self.p))


class SliceP:
    """&[T]: window [s, s+n) of the sequence stored at ptr"""
    __slots__ = ('ptr', 's', 'n')

    def __init__(self, ptr, s, n):
        self.ptr = ptr
        self.s = s
        self.n = n

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.ptr, self.s, self.n)

    def __eq__(self, o):
        return isinstance(o, SliceP) and (self.ptr, self.s, self.n) == (o.ptr, o.s, o.n)

    def __hash__(self):
        return hash(('SP', self.ptr, self.s, self.n))


class ItV:
    """native iterator state: kind + tuple payload"""
    __slots__ = ('k', 'a')

    def __init__(self, k, a):
        self.k = k
        self.a = a

    def __repr__(self):
        return 'It:%s%s' % (self.k, self.a)

    def __eq__(self, o):
        return isinstance(o, ItV) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))


class MapV:
    """BTreeMap / BTreeSet / HashMap contents: insertion-ordered tuple of (key, value)"""
    __slots__ = ('e', 'k')

    def __init__(self, e, k='m'):
        self.e = e
        self.k = k

    def __repr__(self):
        return 'Map%s' % (self.e,)

    def __eq__(self, o):
        return isinstance(o, MapV) and self.e == o.e

    def __hash__(self):
        return hash(('M', self.e))


class ConstBox:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, ConstBox) and self.v == o.v

    def __hash__(self):
        return hash(('CB', self.v))

    def __repr__(self):
        return 'const(%r)' % (self.v,)


class _Moved:
    def __repr__(self):
        return 'MOVED'


MOVED = _Moved()


# ---- interval sets: sorted tuple of disjoint (lo, hi) ----
def iv_and(a, b):
    o = []
    for l, h in a:
        for m, k in b:
            x = max(l, m)
            y = min(h, k)
            if x <= y:
                o.append((x, y))
    return tuple(sorted(o))


def iv_not(a):
    o = []
    cur = -INF
    for l, h in sorted(a):
        if cur <= l - 1:
            o.append((cur, l - 1))
        cur = h + 1
    if cur < INF:
        o.append((cur, INF))
    return tuple(o)


def iv_scale(a, k, c):
    """image of k*x+c"""
    r = []
    for l, h in a:
        x, y = l * k + c, h * k + c
        r.append((min(x, y), max(x, y)))
    return tuple(sorted(r))


def iv_norm(a):
    o = []
    for l, h in sorted(a):
        if o and l <= o[-1][1] + 1:
            o[-1] = (o[-1][0], max(h, o[-1][1]))
        else:
            o.append((l, h))
    return tuple(o)


def rng(bits, signed):
    if signed:
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return (0, (1 << bits) - 1)


FALL = object()   # returned by a native: use the function's own MIR instead


def ground(v):
    """no pointer, term or register inside: invariant under renaming"""
    t = type(v)
    if t is int or t is bool or t is FnV or t is FloatV or v is None:
        return True
    if t is Agg:
        if v._g is None:
            v._g = all(ground(x) for x in v.f)
        return v._g
    if t is VecV:
        if v._g is None:
            v._g = v.drained == 0 and all(ground(x) for x in v.e)
        return v._g
    return False


INTERN = {}
