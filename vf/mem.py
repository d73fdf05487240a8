"""Interpreter with a typed model of raw memory.

An allocation is a map from byte offsets to typed leaves; a raw pointer is an allocation, a
byte offset (possibly an affine form) and the pointee type.  Every access is checked:
liveness, bounds, alignment, initialisation; `dealloc` must name the layout and the address
of the allocation; drop glue runs from its own MIR; panics unwind through the cleanup
blocks.  The specification side (`vroots::env`) is a set of observations in the roots.
"""
from .val import *
from .interp import (Interp, State, Unmodelled, Panic, Infeasible, Split, Frame, relf, short, stack_of, norm_name)
from . import natives as N
from .natives import NAT, NONE, some, ok, err, rd, wr, nat as _nat0

MNAT = dict(NAT)
for _n in [n for n in MNAT if n == 'std::mem::drop' or n.startswith(('std::cell::', "<std::cell::"))]:
    MNAT.pop(_n, None)      # drops are executed here, cells are memory


def nat(*names):
    def d(f):
        for n in names:
            MNAT[n] = f
            MNAT[norm_name(n)] = f
        return f
    return d


class MemFault(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Alloc:
    __slots__ = ('size', 'align', 'lv', 'live', 'site')

    def __init__(self, size, align, lv, live, site):
        self.size = size
        self.align = align
        self.lv = lv
        self.live = live
        self.site = site

    def with_(self, lv=None, live=None):
        return Alloc(self.size, self.align, self.lv if lv is None else lv, self.live if live is None else live, self.site)


class PathEnd(Exception):
    pass


ADDR_MAX = (1 << 47) - 1


class MemInterp(Interp):
    def __init__(self, facts, natives=None, opts=None):
        Interp.__init__(self, facts, natives or MNAT, opts)
        self.checks = {}          # obligation kind -> count
        self.t_isize = facts.find_type(lambda t: t['k'] == 'int' and t['bits'] == 64)
        self.accesses = 0

    # ------------------------------------------------------------ layouts
    def ptee(self, t):
        d = self.F.types[t]
        if d['k'] in ('ref', 'ptr'):
            return d['e']
        return None

    def lay(self, t):
        d = self.F.types[t]
        if d['k'] == 'slice':
            return self.F.types[d['e']]['l']
        if d['k'] == 'str':
            return {'size': 1, 'align': 1}
        if not d.get('l'):
            raise Unmodelled('no layout for %s' % d['s'])
        return d['l']

    def fields(self, t, var=0):
        """[(offset, type)] of a struct-like type, or None"""
        d = self.F.types[t]
        k = d['k']
        l = d.get('l')
        if k == 'adt' and d['ak'] == 'struct':
            if not isinstance(l['f'], list):
                return None
            return [(l['f'][i], f[1]) for i, f in enumerate(d['v'][0]['f'])]
        if k == 'adt' and d['ak'] == 'union':
            return [(0, f[1]) for f in d['v'][0]['f']]
        if k == 'tuple':
            return [(l['f'][i], x) for i, x in enumerate(d['e'])] if isinstance(l['f'], list) else []
        if k == 'closure':
            return [(l['f'][i], x) for i, x in enumerate(d['up'])] if isinstance(l['f'], list) else []
        if k == 'adt' and d['ak'] == 'enum':
            v = l['v']
            if isinstance(v, dict) and 'v' in v:
                offs = v['v'][var]
            else:
                offs = l['f'] if isinstance(l['f'], list) else []
            return [(offs[i], f[1]) for i, f in enumerate(d['v'][var]['f'])]
        return None

    # ------------------------------------------------------------ raw memory
    def alloc_of(self, st, b, what):
        if b[0] == 'n':
            raise MemFault('null', '%s through a null pointer' % what)
        a = st.heap.get(b)
        if a is None:
            raise Unmodelled('unknown allocation')
        if not a.live:
            raise MemFault('uaf', '%s after the memory was released' % what)
        return a

    def in_bounds(self, st, a, off, size, what):
        self.accesses += 1
        lo = self.cmp(st, 'Ge', off, 0)
        hi = self.cmp(st, 'Le', lin_add(off, size), a.size)
        if not lo or not hi:
            raise MemFault('oob', '%s of %s byte(s) at offset %s of an allocation of %s' % (what, size, off, a.size))

    def aligned(self, st, a, off, align, what):
        l = lin_of(off)
        bad = l.c % align != 0 or any(k % align != 0 for _, k in l.t)
        if not bad:
            al = a.align
            if isinstance(al, int):
                bad = al % align != 0
        if bad:
            raise MemFault('misaligned', '%s at offset %s of an allocation aligned to %s needs alignment %s' % (what, off, a.align, align))

    def touch(self, st, b, off, t, what):
        """checks of a typed access"""
        l = self.lay(t)
        a = self.alloc_of(st, b, what)
        if l['size'] or True:
            self.in_bounds(st, a, off, l['size'], what)
        self.aligned(st, a, off, l['align'], what)
        return a

    def load(self, st, b, off, t):
        if b[0] == 'n' and self.lay(t)['size'] == 0:
            return self.zst(t)
        a = self.touch(st, b, off, t, 'read')
        return self.load_leaf(st, a, off, t)

    def load_leaf(self, st, a, off, t):
        d = self.F.types[t]
        size = self.lay(t)['size']
        if size == 0:
            return self.zst(t)
        x = a.lv.get(off)
        k = d['k']
        if k in ('uint', 'int', 'bool', 'char', 'float', 'ptr', 'ref', 'fnptr'):
            if x is None:
                raise MemFault('uninit', 'read of uninitialised memory (%s)' % d['s'])
            if x[0] != size or x[2] == 'blob':
                raise MemFault('type', 'read of %s bytes where %s bytes were written' % (size, x[0]))
            return x[1]
        if x is not None and x[0] == size and x[2] == 'blob':
            return x[1]
        if k == 'array':
            es = self.lay(d['e'])['size']
            return VecV(tuple(self.load_leaf(st, a, lin_add(off, i * es), d['e']) for i in range(d['n'])), kind='a')
        if k == 'pat':
            return self.load_leaf(st, a, off, d['e'])
        if k in ('tuple', 'closure') or k == 'adt' and d['ak'] == 'struct':
            fs = self.fields(t)
            if fs is not None:
                if k == 'adt' and not d['v'][0]['f'] and x is None:
                    raise MemFault('uninit', 'read of uninitialised memory (%s)' % d['s'])
                return Agg(0, tuple(self.load_leaf(st, a, lin_add(off, o), ft) for o, ft in fs))
        if x is None:
            raise MemFault('uninit', 'read of uninitialised memory (%s)' % d['s'])
        raise Unmodelled('load of %s' % d['s'])

    def store(self, st, b, off, t, v):
        if self.lay(t)['size'] == 0:
            if b[0] != 'n':
                self.touch(st, b, off, t, 'write')
            return
        a = self.touch(st, b, off, t, 'write')
        lv = dict(a.lv)
        self.clear(st, lv, off, self.lay(t)['size'])
        self.store_leaf(st, lv, off, t, v)
        st.heap[b] = a.with_(lv=lv)

    def clear(self, st, lv, off, size):
        """remove every leaf overlapping [off, off+size)"""
        for o in list(lv):
            s = lv[o][0]
            d = lin_add(o, off, -1)
            if isinstance(d, int):
                if d < size and d + s > 0:
                    if d < 0 or d + s > size:
                        if lv[o][2] == 'blob':
                            raise Unmodelled('partial overwrite')
                    del lv[o]
            else:
                ds = self.dom_of(st, d)
                if ds[0][0] < size and ds[-1][1] + s > 0:
                    raise Unmodelled('symbolic overlap')

    def store_leaf(self, st, lv, off, t, v):
        d = self.F.types[t]
        size = self.lay(t)['size']
        if size == 0:
            return
        if v is None:
            return
        k = d['k']
        if k in ('uint', 'int', 'bool', 'char', 'float', 'ptr', 'ref', 'fnptr'):
            if v is MOVED:
                raise Unmodelled('store of a moved value')
            lv[off] = (size, v, k)
            return
        if k == 'pat':
            return self.store_leaf(st, lv, off, d['e'], v)
        if k == 'array' and type(v) is VecV and not v.drained:
            es = self.lay(d['e'])['size']
            for i, x in enumerate(v.e):
                self.store_leaf(st, lv, lin_add(off, i * es), d['e'], x)
            return
        if type(v) is Agg and (k in ('tuple', 'closure') or k == 'adt' and d['ak'] == 'struct'):
            fs = self.fields(t)
            if fs is not None and len(fs) == len(v.f):
                for (o, ft), x in zip(fs, v.f):
                    self.store_leaf(st, lv, lin_add(off, o), ft, x)
                return
        lv[off] = (size, v, 'blob')

    # ------------------------------------------------------------ places
    def read_at(self, st, b, p):
        if b[0] in ('m', 'n'):
            b, off, t, rest = self.mres(st, b, p)
            v = self.load(st, b, off, t)
            for i in rest:
                v = self.proj(st, v, i)
            return v
        return Interp.read_at(self, st, b, p)

    def mres(self, st, b, p):
        """(off, ty[, index...]) -> resolved offset and type"""
        off, t = p[0], p[1]
        rest = p[2:]
        if rest:
            d = self.F.types[t]
            if d['k'] in ('slice', 'array'):
                e = d['e']
            else:
                e = t
            off = lin_add(off, lin_mul(rest[0], self.lay(e)['size']) if not isinstance(rest[0], Lin) else lin_mul(rest[0], self.lay(e)['size']))
            t = e
            rest = rest[1:]
        return b, off, t, rest

    def write_at(self, st, b, p, val):
        if b[0] in ('m', 'n'):
            b, off, t, rest = self.mres(st, b, p)
            if rest:
                v = self.load(st, b, off, t)
                self.store(st, b, off, t, self.upd(st, v, rest, 0, val))
            else:
                self.store(st, b, off, t, val)
            return
        Interp.write_at(self, st, b, p, val)

    def place(self, st, fr, pl):
        b = ('l', fr.uid, pl[0])
        p = ()
        w = None
        t = fr.fn['locals'][pl[0]]
        var = 0
        F = self.F
        for e in pl[1]:
            raw = b[0] in ('m', 'n')
            d = F.types[t]
            if e == '*':
                v = self.read_at(st, b, p)
                if d['k'] in ('ref', 'ptr'):
                    nt = d['e']
                elif d['k'] == 'adt' and d.get('box'):
                    nt = d['args'][0]
                else:
                    raise Unmodelled('deref of type %s' % d['s'])
                ty = type(v)
                if ty is Agg:
                    v = self.dig_ptr(v)
                    ty = type(v)
                if ty is Ptr:
                    b, p, w = v.b, v.p, None
                    if b[0] in ('m', 'n'):
                        bb, off, _, rest = self.mres(st, b, p)
                        b, p = bb, (off, nt)
                        if b[0] == 'm' and F.types[nt]['k'] not in ('slice', 'str'):
                            a = self.alloc_of(st, b, 'access')
                            self.aligned(st, a, off, self.lay(nt)['align'], 'access')
                elif ty is SliceP:
                    b, p, w = v.ptr.b, v.ptr.p, (v.s, v.n)
                    if b[0] in ('m', 'n'):
                        bb, off, et, rest = self.mres(st, b, p)
                        p = (off, F.types[nt]['e'] if F.types[nt]['k'] == 'slice' else et)
                elif ty is StrV:
                    w = None
                elif ty is Opq:
                    b, p, w = ('c', ConstBox(Opq(('deref', v)))), (), None
                else:
                    raise Unmodelled('deref of %r' % (v,))
                t = nt
                var = 0
                continue
            k = e[0]
            if k == 'f':
                if raw:
                    fs = self.fields(t, var)
                    if fs is None:
                        raise Unmodelled('field of %s' % d['s'])
                    p = (lin_add(p[0], fs[e[1]][0]), e[2])
                else:
                    p = p + (e[1],)
                t = e[2]
                var = 0
            elif k == 'd':
                var = e[1]
            elif k == 'oc':
                t = e[1]
            elif k in ('i', 'ci'):
                if k == 'i':
                    i = fr.loc[e[1]]
                    if not isinstance(i, int) and not raw:
                        i = self.concretize(st, i)
                    if w is not None:
                        i = lin_add(i, w[0])
                elif w is not None:
                    i = lin_add(w[0], lin_add(w[1], -e[1]) if e[3] else e[1])
                else:
                    n = d['n'] if d['k'] == 'array' else len(self.read_at(st, b, p).e)
                    i = n - e[1] if e[3] else e[1]
                t = d['e']
                if raw:
                    p = (lin_add(p[0], lin_mul(i, self.lay(t)['size'])), t)
                else:
                    p = p + (i,)
                w = None
            elif k == 's':
                if w is None:
                    w = (0, d['n'] if d['k'] == 'array' else len(self.read_at(st, b, p).e))
                s, n = w
                w = (s + e[1], (n - e[1] - e[2]) if e[3] else (e[2] - e[1]))
                if d['k'] == 'array':
                    t = next((i for i, x in enumerate(F.types) if x['k'] == 'slice' and x['e'] == d['e']), t)
            else:
                raise Unmodelled('proj %s' % (e,))
        return b, p, w

    def move_out(self, st, fr, o):
        if o[0] == 'mv' and o[1][1]:
            b, p, w = self.place(st, fr, o[1])
            if b[0] in ('m', 'n', 'c'):
                return
        Interp.move_out(self, st, fr, o)

    def ptr_cast(self, st, r, v):
        nt = self.ptee(r[4])
        if type(v) is Ptr and v.b[0] in ('m', 'n') and nt is not None:
            b, off, t, rest = self.mres(st, v.b, v.p)
            if self.F.types[nt]['k'] in ('slice', 'str'):
                raise Unmodelled('cast to a wide pointer')
            return Ptr(b, (off, nt))
        if type(v) is SliceP and nt is not None and self.F.types[nt]['k'] != 'slice':
            # *[T] as *T
            if v.ptr.b[0] in ('m', 'n'):
                b, off, t, rest = self.mres(st, v.ptr.b, v.ptr.p)
                return Ptr(b, (lin_add(off, lin_mul(v.s, self.lay(t)['size'])), nt))
            return Ptr(v.ptr.b, v.ptr.p + (v.s,))
        if type(v) is Ptr and nt is not None:
            return self.tree_cast(v, self.ptee(r[3]), nt)
        return v

    def tree_cast(self, v, t, nt):
        """pointer to a struct seen as a pointer to the part of it with the wanted type at offset 0"""
        p = v.p
        while t is not None and t != nt:
            fs = self.fields(t) if self.F.types[t]['k'] in ('adt', 'tuple') else None
            if not fs or self.F.types[t].get('ak') not in ('struct', None):
                return v
            c = [(i, ft) for i, (o, ft) in enumerate(fs) if o == 0 and self.lay(ft)['size'] == self.lay(t)['size']]
            if not c or self.F.types[t].get('box'):
                return v
            p = p + (c[0][0],)
            t = c[0][1]
        return Ptr(v.b, p)

    def cast(self, st, r, v):
        k = r[1]
        if k.startswith('PointerExpose'):
            return self.addr_of(st, v)
        if k.startswith('PointerWithExposed') or k == 'PointerFromExposedAddress':
            return self.int_to_ptr(st, v, self.ptee(r[4]))
        if k.startswith('PCUnsize') and isinstance(v, Ptr):
            td = self.F.types[r[4]]
            sd = self.F.types[r[3]]
            if td['k'] in ('ref', 'ptr') and self.F.types[td['e']]['k'] == 'slice':
                n = self.F.types[sd['e']]['n']
                if v.b[0] in ('m', 'n'):
                    b, off, t, rest = self.mres(st, v.b, v.p)
                    v = Ptr(b, (off, self.F.types[td['e']]['e']))
                return SliceP(v, 0, n)
        return Interp.cast(self, st, r, v)

    def rewrap(self, v, t):
        """a scalar as a value of a transparent wrapper type"""
        d = self.F.types[t]
        if d['k'] not in ('adt', 'tuple'):
            return v
        if d.get('ak') not in ('struct', None):
            raise Unmodelled('transmute to %s' % d['s'])
        fs = self.fields(t)
        big = [i for i, (o, ft) in enumerate(fs) if self.lay(ft)['size']]
        if len(big) != 1:
            raise Unmodelled('transmute to %s' % d['s'])
        return Agg(0, tuple(self.rewrap(v, ft) if i == big[0] else UNIT for i, (o, ft) in enumerate(fs)))

    def unwrap(self, v):
        while type(v) is Agg:
            big = [x for x in v.f if not (type(x) is Agg and not x.f)]
            if len(big) != 1:
                raise Unmodelled('transmute of %r' % (v,))
            v = big[0]
        return v

    def transmute(self, st, r, v):
        a, b = self.F.types[r[3]], self.F.types[r[4]]
        sc = ('uint', 'int', 'char', 'bool')
        if a['k'] in sc and b['k'] == 'adt' and b.get('ak') == 'struct':
            return self.rewrap(v, r[4])
        if b['k'] in sc and a['k'] == 'adt' and a.get('ak') == 'struct':
            return self.unwrap(v)
        if b['k'] in ('uint',) and a['k'] in ('ptr', 'ref'):
            return self.addr_of(st, v)
        if type(v) is Agg and b['k'] in ('ref', 'ptr'):
            v = self.dig_ptr(v)
        if type(v) is Ptr and v.b[0] in ('m', 'n') and b['k'] in ('ref', 'ptr'):
            return self.ptr_cast(st, r, v)
        if b['k'] in ('ref', 'ptr') and isinstance(v, (int, Lin)):
            return self.int_to_ptr(st, v, b['e'])
        return Interp.transmute(self, st, r, v)

    def addr_of(self, st, v):
        if type(v) is SliceP:
            v = Ptr(v.ptr.b, v.ptr.p + (v.s,))
        if type(v) is not Ptr:
            raise Unmodelled('address of %r' % (v,))
        if v.b[0] == 'n':
            return v.p[0]
        if v.b[0] != 'm':
            t = ('addrl', v.b, v.p)
            x = atom(t)
            if x.t not in st.dom:
                st.dom[x.t] = ((1, ADDR_MAX),)
            return x
        b, off, t, rest = self.mres(st, v.b, v.p)
        x = atom(('addr', b[1]))
        if x.t not in st.dom:
            st.dom[x.t] = ((4096, ADDR_MAX - (1 << 20)),)
        return lin_add(x, off)

    def int_to_ptr(self, st, v, t):
        if isinstance(v, int):
            return Ptr(('n', v), (v, t))
        for tm, k in v.t:
            if isinstance(tm, tuple) and tm[0] == 'addr' and k == 1:
                off = lin_add(v, atom(tm), -1)
                if isinstance(off, int) and not -4096 <= off <= 1 << 32:
                    break
                return Ptr(('m', tm[1]), (off, t))
        return Ptr(('n', v), (v, t))

    def ptr_offset(self, st, p, n):
        if type(p) is Ptr and p.b[0] in ('m', 'n'):
            b, off, t, rest = self.mres(st, p.b, p.p)
            return Ptr(b, (lin_add(off, lin_mul(n, self.lay(t)['size'])), t))
        if type(p) is Ptr and isinstance(n, int) and p.p and isinstance(p.p[-1], int):
            return Ptr(p.b, p.p[:-1] + (p.p[-1] + n,))
        raise Unmodelled('ptr offset')

    def rvalue(self, st, fr, r):
        if r[0] in ('ref', 'addr'):
            pl = r[1]
            b, p, w = self.place(st, fr, pl)
            if b[0] in ('m', 'n'):
                if w is not None:
                    return SliceP(Ptr(b, p), w[0], w[1])
                return Ptr(b, p)
        if r[0] == 'agg' and r[1] == 'rawptr':
            ops = tuple(self.operand(st, fr, o) for o in r[5])
            if isinstance(ops[0], Ptr) and isinstance(ops[1], (int, Lin)):
                return self.mk_slice(st, ops[0], ops[1])
        if r[0] == 'len':
            b, p, w = self.place(st, fr, r[1])
            if w is not None:
                return w[1]
        if r[0] == 'discr' and r[1][1]:
            b, p, w = self.place(st, fr, r[1])
            if b[0] == 'm':
                return self.discr(st, self.read_at(st, b, (p[0], r[2])), r[2])
        return Interp.rvalue(self, st, fr, r)

    def mk_slice(self, st, p, n):
        if p.b[0] == 'm':
            b, off, t, rest = self.mres(st, p.b, p.p)
            a = self.alloc_of(st, b, 'slice')
            self.aligned(st, a, off, self.lay(t)['align'], 'slice')
            self.in_bounds(st, a, off, lin_mul(n, self.lay(t)['size']), 'slice')
            return SliceP(Ptr(b, (off, t)), 0, n)
        if p.b[0] == 'n':
            return SliceP(p, 0, n)
        # pointer to the first element of a local array / vec
        if p.p and isinstance(p.p[-1], int):
            return SliceP(Ptr(p.b, p.p[:-1]), p.p[-1], n)
        return SliceP(p, 0, n)

    def generic_eq(self, st, op, a, b):
        if type(a) is Ptr and type(b) is Ptr:
            r = self.same_ptr(st, a, b)
            return int(r) if op == 'Eq' else int(not r)
        if isinstance(a, Opq) and a == b and a.t[0] == 'bits2f':
            nan = self.decide_in(st, a.t[1], ((0x7ff0000000000001, 0x7fffffffffffffff), (0xfff0000000000001, 0xffffffffffffffff)))
            return int(not nan) if op == 'Eq' else int(nan)
        return Interp.generic_eq(self, st, op, a, b)

    def same_ptr(self, st, a, b):
        if a.b[0] in ('m', 'n') and b.b[0] in ('m', 'n'):
            x = self.mres(st, a.b, a.p)
            y = self.mres(st, b.b, b.p)
            if x[0] != y[0]:
                return False
            return bool(self.cmp(st, 'Eq', x[1], y[1]))
        return a == b

    # ------------------------------------------------------------ numbers with tags
    def sym_op(self, st, op, a, b, bits, sg):
        bl = self.as_bl(a if isinstance(b, int) else b if isinstance(a, int) else None)
        if bl and not sg:
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                return self.bit_linear(st, op, a if isinstance(b, int) else b, b if isinstance(b, int) else a, bits)
            if op == 'Shr' and isinstance(b, int):
                _, x, m, c = bl
                r = self.sym_op(st, 'Shr', x, b, bits, sg)
                for o, k in (('BitAnd', m >> b), ('BitXor', c >> b)):
                    r = self.sym_op(st, o, r, k, bits, sg) if isinstance(r, Lin) else (r & k if o == 'BitAnd' else r ^ k)
                return r
        if op == 'BitAnd' and not sg:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, Lin):
                r = self.and_mask(st, a, b, bits)
                if r is not None:
                    return r
        if op == 'Shr' and not sg and isinstance(a, Lin) and isinstance(b, int):
            s = self.split_low(st, a)
            if s is not None:
                c, x, j = s
                if j <= b:
                    return c >> b
                if c:
                    lo = self.sym_op(st, 'Shr', x, b, bits, sg) if isinstance(x, Lin) else x >> b
                    return lin_add(lo, c >> b)
            return self.shr_term(st, a, b)
        if op == 'BitOr' and not sg:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, Lin) and isinstance(b, int):
                s = self.split_low(st, a)
                if s is not None and b & ((1 << s[2]) - 1) == 0:
                    return lin_add(s[1], s[0] | b)
        if op == 'BitXor' and not sg:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, Lin) and isinstance(b, int):
                s = self.split_low(st, a)
                if s is not None and b & ((1 << s[2]) - 1) == 0:
                    return lin_add(s[1], s[0] ^ b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and not sg and isinstance(b, int) and isinstance(a, Lin):
            return self.bit_linear(st, op, a, b, bits)
        return Interp.sym_op(self, st, op, a, b, bits, sg)

    @staticmethod
    def as_bl(a):
        if isinstance(a, Lin) and a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and type(a.t[0][0]) is tuple and a.t[0][0][0] == 'bl':
            return a.t[0][0]
        return None

    def bit_linear(self, st, op, a, b, bits):
        """constant bit operations on one word stay exact: (x & m) ^ c"""
        full = (1 << bits) - 1
        x, m, c = a, full, 0
        bl = self.as_bl(a)
        if bl:
            x, m, c = bl[1:4]
        if op == 'BitAnd':
            m, c = m & b, c & b
        elif op == 'BitXor':
            c ^= b
        else:
            m, c = m & ~b, (c & ~b) | b
        if m == 0:
            return c
        if m == full and c == 0:
            return x
        if c == 0:
            r = self.and_mask(st, x, m, bits)
            if r is not None:
                return r
        return self.term(st, ('bl', x, m, c), ((c & ~m, (c & ~m) | m),))

    def split_low(self, st, a):
        """a = c + x with 0 <= x < 2^j and 2^j | c"""
        if not isinstance(a, Lin):
            return None
        x = Lin(0, a.t)
        d = self.dom_of(st, x)
        lo, hi = d[0][0], d[-1][1]
        if lo == -INF or hi == INF:
            return None
        c = a.c
        # allow a small constant to belong to the low part
        for low in (c & 0xfffffff, 0):
            if lo + low >= 0:
                j = int(hi + low).bit_length()
                cc = c - low
                if cc >= 0 and cc % (1 << j) == 0:
                    return cc, lin_add(x, low), j
        return None

    def and_mask(self, st, a, m, bits):
        s = self.split_low(st, a)
        if s is not None:
            c, x, j = s
            low = m & ((1 << j) - 1)
            if low == (1 << j) - 1:
                return lin_add(x, c & m)
            if low == 0:
                return c & m
            if c & m or c:
                y = self.and_mask(st, x, low, bits)
                if y is not None:
                    return lin_add(y, c & m)
        # high mask: ~(2^k - 1)
        full = (1 << bits) - 1
        k = ((full ^ m) + 1).bit_length() - 1
        if (full ^ m) == (1 << k) - 1 and k:
            return lin_mul(self.shr_term(st, a, k), 1 << k)
        # contiguous run of ones
        if m:
            z = (m & -m).bit_length() - 1
            w = m >> z
            if w & (w + 1) == 0 and z:
                h = self.shr_term(st, a, z)
                wb = w.bit_length()
                if isinstance(h, int):
                    return (h & w) << z
                d = self.dom_of(st, h)
                if d[-1][1] <= w:
                    return lin_mul(h, 1 << z)
                top = self.shr_term(st, a, z + wb)
                # h = top * 2^wb + mid : decide top by its few values
                return lin_mul(lin_add(h, lin_mul(top, 1 << wb), -1), 1 << z) if isinstance(top, int) else None
        return None

    def shr_term(self, st, a, k):
        d = self.dom_of(st, a)
        if d[0][0] == -INF or d[-1][1] == INF or d[0][0] < 0:
            return self.term(st, ('shr', a, k), ((-INF, INF),))
        im = iv_norm(tuple((int(x) >> k, int(y) >> k) for x, y in d))
        if len(im) == 1 and im[0][0] == im[0][1]:
            return im[0][0]
        t = atom(('shr', a, k))
        old = st.dom.get(t.t)
        st.dom[t.t] = im if old is None else iv_norm(iv_and(old, im))
        return t

    def refine(self, st, l, ivs):
        Interp.refine(self, st, l, ivs)
        if isinstance(l, Lin) and len(l.t) == 1:
            (t, k), = l.t
            if isinstance(t, tuple) and t[0] == 'shr':
                d = st.dom.get(((t, 1),))
                if d:
                    s = t[2]
                    self.refine(st, t[1], tuple((x if x == -INF else x << s, y if y == INF else ((y + 1) << s) - 1) for x, y in d))

    def decide_in(self, st, l, ivs):
        if type(l) is Lin and len(l.t) == 1 and l.t[0][1] in (1, -1) and len(ivs) == 1 and ivs[0][0] == ivs[0][1] and type(l.t[0][0]) is tuple and l.t[0][0][0] == 'bl':
            _, x, m, c = l.t[0][0]
            v = (ivs[0][0] - l.c) * l.t[0][1]
            if v < 0 or (v ^ c) & ~m:
                return False
            y = self.and_mask(st, x, m, 64)
            if y is not None:
                return self.decide_in(st, lin_of(y), (((v ^ c), (v ^ c)),)) if isinstance(y, Lin) else y == v ^ c
        if type(l) is Lin and len(l.t) == 2 and len(ivs) == 1 and ivs[0][0] == ivs[0][1]:
            # two live allocations are disjoint
            (x, kx), (y, ky) = l.t
            if kx == -ky and abs(kx) == 1 and type(x) is tuple and type(y) is tuple and x[0] == y[0] == 'addr':
                if kx < 0:
                    x, y = y, x
                ax, ay = st.heap[('m', x[1])], st.heap[('m', y[1])]
                d = ivs[0][0] - l.c      # the queried value of x - y
                if ax.live and ay.live and isinstance(ax.size, int) and isinstance(ay.size, int) and -ax.size < d < ay.size:
                    return False
        # keep shifted views in step with their source
        if isinstance(l, Lin):
            for t, k in l.t:
                if isinstance(t, tuple) and t[0] == 'shr':
                    self.shr_term(st, t[1], t[2])
        return Interp.decide_in(self, st, l, ivs)

    # ------------------------------------------------------------ drops and unwinding
    def lookup_native(self, fn):
        nd = fn['nd']
        if nd.startswith('std::ptr::drop_glue') or nd == 'std::ptr::drop_in_place':
            f = self.nat_by_def.get(nd)
            return f
        return Interp.lookup_native(self, fn)

    def drop(self, st, fr, t):
        glue = t[4]
        if glue is None:
            if not t[1][1]:
                fr.loc[t[1][0]] = MOVED
            fr.bb = t[2]
            fr.ip = 0
            return
        b, p, w = self.place(st, fr, t[1])
        if b[0] not in ('m', 'n'):
            v = self.read_at(st, b, p)
            if v is MOVED or v is None:
                # drop elaboration guarantees initialisedness; a moved value here is a model error
                raise Unmodelled('drop of a moved value in %s' % fr.fn['name'])
        ptr = SliceP(Ptr(b, p), w[0], w[1]) if w is not None else Ptr(b, p)
        fn = self.F.fns[glue]
        nat = self.lookup_native(fn)
        if nat is not None:
            nat(self, st, [ptr], fn)
            fr.bb = t[2]
            fr.ip = 0
            return
        if fn.get('blocks') is None:
            raise Unmodelled('no drop glue for %s' % fn['name'])
        self.push(st, glue, [ptr], None, t[2])

    def unwind(self, st, why):
        """propagate a panic: returns True if a cleanup block continues"""
        st.env['panic'] = why
        while st.frames:
            fr = st.frames[-1]
            t = fr.fn['blocks'][fr.bb][1]
            u = None
            if t[0] == 'call':
                u = t[5]
            elif t[0] == 'drop':
                u = t[3]
            elif t[0] == 'assert':
                u = t[5]
            if u == -3:
                raise PathEnd()
            if isinstance(u, int) and u >= 0:
                fr.bb = u
                fr.ip = 0
                return True
            st.frames.pop()
            st.byuid.pop(fr.uid, None)
        return False

    def step_block(self, st):
        fr = st.frames[-1]
        t = fr.fn['blocks'][fr.bb][1]
        if t[0] in ('resume', 'abort') and fr.ip >= len(fr.fn['blocks'][fr.bb][0]) or (t[0] in ('resume', 'abort') and not fr.fn['blocks'][fr.bb][0]):
            if t[0] == 'abort':
                raise PathEnd()
            st.frames.pop()
            st.byuid.pop(fr.uid, None)
            if not self.unwind(st, st.env.get('panic')):
                return 'unwound'
            return None
        return Interp.step_block(self, st)

    def explore(self, root, init=None, limit=8000000):
        """all paths of a root: yields (status, state, info)"""
        st = State()
        if init:
            init(st)
        self.push(st, self.F.roots[root], [])
        work = [st]
        n = 0
        while work:
            s = work.pop()
            try:
                while True:
                    n += 1
                    if n > limit:
                        u = Unmodelled('more than %d steps' % limit)
                        u.stack = stack_of(s)
                        raise u
                    try:
                        r = self.step_block(s)
                    except Split as sp:
                        for alt in sp.alts:
                            c = s.clone()
                            try:
                                alt(c)
                            except Infeasible:
                                continue
                            work.append(c)
                        break
                    except Panic as p:
                        if s.env.get('panic'):
                            raise PathEnd()      # panic while unwinding aborts
                        where = p.where or self.where(s)
                        if not self.unwind(s, (p.msg, where)):
                            yield 'panic', s, (p.msg, where)
                            break
                        continue
                    if r in ('done', 'unwound'):
                        yield ('done' if r == 'done' else 'panic'), s, (s.env.get('result') if r == 'done' else s.env.get('panic'))
                        break
            except MemFault as m:
                yield 'fault', s, m
            except PathEnd:
                yield 'abort', s, None
            except Infeasible:
                continue
            except Unmodelled as u:
                if not hasattr(u, 'stack'):
                    u.stack = stack_of(s)
                raise
            except (TypeError, AttributeError, IndexError, KeyError, ValueError) as e:
                import traceback
                u = Unmodelled('internal %r %s' % (e, traceback.format_exc(limit=-4)))
                u.stack = stack_of(s)
                raise u

    # ------------------------------------------------------------ allocation summary
    def live(self, st):
        return [b for b, a in st.heap.items() if isinstance(a, Alloc) and a.live]


# ---------------------------------------------------------------- layouts and the allocator
LAY = 'std::alloc::Layout::'
LAY2 = 'std::alloc::layout::Layout::'


def L(*names):
    return [p + n for n in names for p in (LAY, LAY2)]


def mklay(size, align):
    return Agg(0, (size, align))


def lay_parts(I, st, v):
    if type(v) is Ptr:
        v = rd(I, st, v)
    if type(v) is Agg and len(v.f) == 2:
        a = v.f[1]
        while type(a) is Agg and a.f:
            a = a.f[0]
        if type(a) is Agg:
            a = 1 << a.v      # AlignmentEnum variant
        return v.f[0], a
    raise Unmodelled('layout %r' % (v,))


@nat(*L('from_size_align'))
def lay_new(I, st, a, fn):
    size, align = a
    al = I.concretize(st, align)
    if al <= 0 or al & (al - 1):
        return err(UNIT)
    if I.decide_in(st, size, ((0, (1 << 63) - al),)):
        return ok(mklay(size, al))
    return err(UNIT)


@nat(*L('from_size_align_unchecked'))
def lay_new_u(I, st, a, fn):
    size, align = a
    al = I.concretize(st, align)
    if al <= 0 or al & (al - 1) or not I.decide_in(st, size, ((0, (1 << 63) - al),)):
        raise MemFault('layout', 'Layout::from_size_align_unchecked(%s, %s) is not a valid layout' % (size, align))
    return mklay(size, al)


@nat(*L('size'))
def lay_size(I, st, a, fn):
    return lay_parts(I, st, a[0])[0]


@nat(*L('align'))
def lay_align(I, st, a, fn):
    return lay_parts(I, st, a[0])[1]


@nat(*L('new'))
def lay_of(I, st, a, fn):
    l = I.lay(fn['args'][0])
    return mklay(l['size'], l['align'])


def u8ty(I):
    return I.F.find_type(lambda t: t['k'] == 'uint' and t['bits'] == 8)


@nat('std::alloc::alloc', 'std::std::alloc', 'std::alloc::alloc_zeroed')
def do_alloc(I, st, a, fn):
    size, align = lay_parts(I, st, a[0])
    if not I.decide_in(st, size, ((1, INF),)):
        raise MemFault('layout', 'allocation of zero bytes')
    if I.opts.get('alloc_fails') and I.choose(st, 2, 'alloc') == 1:
        st.env['oom'] = True
        return Ptr(('n', 0), (0, u8ty(I)))
    st.nheap += 1
    b = ('m', st.nheap)
    st.heap[b] = Alloc(size, align, {}, True, I.where(st))
    return Ptr(b, (0, u8ty(I)))


@nat('std::alloc::dealloc', 'std::std::dealloc')
def do_dealloc(I, st, a, fn):
    p = a[0]
    size, align = lay_parts(I, st, a[1])
    if type(p) is not Ptr or p.b[0] != 'm':
        raise MemFault('wild', 'dealloc of a pointer that was not allocated')
    b, off, t, rest = I.mres(st, p.b, p.p)
    al = st.heap[b]
    if not al.live:
        raise MemFault('double-free', 'memory released twice')
    I.checks['dealloc'] = I.checks.get('dealloc', 0) + 1
    if not I.cmp(st, 'Eq', off, 0):
        raise MemFault('layout', 'dealloc at offset %s of the allocation' % (off,))
    if not I.cmp(st, 'Eq', size, al.size) or al.align != align:
        raise MemFault('layout', 'dealloc with layout (%s, %s) of memory allocated with layout (%s, %s)' % (size, align, al.size, al.align))
    st.heap[b] = al.with_(live=False)
    return UNIT


@nat('std::alloc::handle_alloc_error', 'std::std::handle_alloc_error', 'std::process::abort', 'std::intrinsics::abort', 'intrinsic:abort')
def abort(I, st, a, fn):
    raise PathEnd()


# ---------------------------------------------------------------- pointers
def moff(I, st, p, n):
    if type(p) is Ptr and p.b[0] in ('m', 'n'):
        b, off, t, rest = I.mres(st, p.b, p.p)
        return Ptr(b, (lin_add(off, n), t))
    return None


def _unwrapnn(p):
    n = 0
    while type(p) is Agg and p.f and n < 4:
        p = p.f[0]
        n += 1
    return p


def _byte(sign):
    def f(I, st, a, fn):
        r = moff(I, st, a[0], lin_mul(a[1], sign))
        if r is None:
            if a[1] == 0:
                return a[0]
            raise Unmodelled('byte offset of %r' % (a[0],))
        return r
    return f


def _elem(sign):
    def f(I, st, a, fn):
        if type(a[0]) is Ptr and a[0].b[0] not in ('m', 'n') and I.lay(fn['args'][0])['size'] == 0:
            return a[0]
        return I.ptr_offset(st, a[0], lin_mul(a[1], sign))
    return f


for _k in ('const_ptr::<impl *const T>', 'mut_ptr::<impl *mut T>'):
    for _n, _s in (('add', 1), ('offset', 1), ('sub', -1), ('wrapping_add', 1), ('wrapping_sub', -1), ('wrapping_offset', 1)):
        MNAT['std::ptr::%s::%s' % (_k, _n)] = _elem(_s)
        MNAT['std::ptr::%s::%s' % (_k, 'wrapping_byte_' + _n if not _n.startswith('wrapping') else 'wrapping_byte_' + _n[9:])] = _byte(_s)
        MNAT['std::ptr::%s::byte_%s' % (_k, _n)] = _byte(_s)


@nat('std::ptr::const_ptr::<impl *const T>::is_null', 'std::ptr::mut_ptr::<impl *mut T>::is_null')
def is_null(I, st, a, fn):
    p = a[0]
    return int(type(p) is Ptr and p.b[0] == 'n' and p.p[0] == 0)


@nat('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut',
     'std::slice::raw::from_raw_parts', 'std::slice::raw::from_raw_parts_mut')
def from_raw_parts(I, st, a, fn):
    t = fn['args'][0]
    p = a[0]
    if type(p) is Ptr and p.b[0] in ('m', 'n'):
        b, off, _, rest = I.mres(st, p.b, p.p)
        p = Ptr(b, (off, t))
    return I.mk_slice(st, p, a[1])


@nat('std::ptr::null', 'std::ptr::null_mut')
def null(I, st, a, fn):
    return Ptr(('n', 0), (0, fn['args'][0]))


@nat('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'intrinsic:read_via_copy')
def ptr_read(I, st, a, fn):
    v = rd(I, st, retype(I, st, a[0], fn['args'][0]))
    if v is None or v is MOVED:
        raise MemFault('uninit', 'read of a value that was moved away')
    return v


@nat('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write', 'intrinsic:write_via_move')
def ptr_write(I, st, a, fn):
    wr(I, st, retype(I, st, a[0], fn['args'][0]), a[1])
    return UNIT


def retype(I, st, p, t):
    if type(p) is Ptr and p.b[0] in ('m', 'n'):
        b, off, _, rest = I.mres(st, p.b, p.p)
        return Ptr(b, (off, t))
    return p


@nat('std::ptr::eq', 'std::ptr::addr_eq')
def ptr_eq(I, st, a, fn):
    if type(a[0]) is Ptr and type(a[1]) is Ptr:
        return int(I.same_ptr(st, a[0], a[1]))
    return int(a[0] == a[1])


@nat('std::ptr::const_ptr::<impl *const T>::addr', 'std::ptr::mut_ptr::<impl *mut T>::addr', 'std::ptr::const_ptr::<impl *const T>::expose_provenance',
     'std::ptr::mut_ptr::<impl *mut T>::expose_provenance')
def ptr_addr(I, st, a, fn):
    return I.addr_of(st, a[0])


@nat('intrinsic:needs_drop', 'std::mem::needs_drop')
def needs_drop(I, st, a, fn):
    return 1


@nat('std::mem::forget')
def forget(I, st, a, fn):
    return UNIT


@nat('intrinsic:atomic_xadd', 'intrinsic:atomic_xsub')
def atomic_add(I, st, a, fn):
    p = retype(I, st, a[0], I.t_isize) if a[0].b[0] == 'm' else a[0]
    v = rd(I, st, p)
    leaf = v
    while type(leaf) is Agg:
        leaf = leaf.f[0]
    n = lin_add(leaf, a[1], 1 if fn['intr'] == 'atomic_xadd' else -1)

    def put(x):
        return Agg(x.v, (put(x.f[0]),) + x.f[1:]) if type(x) is Agg else I.wrap(st, n, I.t_isize)
    wr(I, st, p, put(v))
    return leaf


@nat('intrinsic:atomic_load')
def atomic_load(I, st, a, fn):
    p = retype(I, st, a[0], I.t_isize) if a[0].b[0] == 'm' else a[0]
    v = rd(I, st, p)
    while type(v) is Agg:
        v = v.f[0]
    return v


@nat('intrinsic:atomic_store')
def atomic_store(I, st, a, fn):
    p = retype(I, st, a[0], I.t_isize) if a[0].b[0] == 'm' else a[0]

    def put(x):
        return Agg(x.v, (put(x.f[0]),) + x.f[1:]) if type(x) is Agg else a[1]
    wr(I, st, p, put(rd(I, st, p)) if a[0].b[0] != 'm' else a[1])
    return UNIT


@nat('intrinsic:ctpop', 'std::num::<impl usize>::is_power_of_two')
def ctpop(I, st, a, fn):
    if isinstance(a[0], int):
        c = bin(a[0]).count('1')
        return c if fn['intr'] else int(c == 1)
    raise Unmodelled('popcount')


# ---------------------------------------------------------------- the specification side
def E(n):
    return nat('vroots::env::' + n)


def site_of(I, st):
    """innermost library frame, else the root's own position"""
    for fr in reversed(st.frames):
        if fr.fn['crate'] in ('nanvm_lib', 'nanvm'):
            return I.where(st)
    c = st.env.get('calls') or ()
    if c:
        f = I.F.fns[c[-1]]
        return '%s (%s:%s)' % (short(f['name']), relf(f['file']), f['line'])
    return '?'


@E('choose')
def env_choose(I, st, a, fn):
    r = I.choose(st, a[0], 'choose')
    st.trace = st.trace + (r,)
    return r


@E('created')
def env_created(I, st, a, fn):
    st.env['made'] = st.env.get('made', ()) + (a[0],)
    return UNIT


@E('dropped')
def env_dropped(I, st, a, fn):
    d = st.env.get('dead', ())
    i = a[0]
    if not isinstance(i, int):
        raise MemFault('element', 'a destroyed element is not one that was stored')
    I.checks['destroyed'] = I.checks.get('destroyed', 0) + 1
    if d.count(i) >= st.env.get('made', ()).count(i):
        raise MemFault('double-drop', 'an element is destroyed twice')
    st.env['dead'] = d + (i,)
    return UNIT


@E('looked')
def env_looked(I, st, a, fn):
    i = a[0]
    if st.env.get('dead', ()).count(i) >= st.env.get('made', ()).count(i):
        raise MemFault('use-after-drop', 'an element is read after it was destroyed')
    return UNIT


KINDS = {1: ('element', 'the element seen is not the element stored'), 2: ('unique', 'mutable access does not agree with there being exactly one owner'),
         3: ('length', 'the length seen is not the length stored'), 4: ('bytes', 'Local::size() differs from the bytes allocated through it')}


@E('check')
def env_check(I, st, a, fn):
    v = a[0]
    if not isinstance(v, int):
        v = int(I.decide_in(st, v, ((1, 1),)))
    k = a[1]
    kind, msg = KINDS.get(k, ('check%s' % k, 'obligation %s fails' % k))
    I.checks[kind] = I.checks.get(kind, 0) + 1
    if not v:
        raise MemFault(kind, msg)
    return UNIT


@E('end')
def env_end(I, st, a, fn):
    I.checks['end'] = I.checks.get('end', 0) + 1
    l = I.live(st)
    if l:
        raise MemFault('leak', 'memory allocated at %s is never released' % st.heap[l[0]].site)
    if sorted(st.env.get('made', ())) != sorted(st.env.get('dead', ())):
        raise MemFault('not-dropped', 'an element is never destroyed')
    return UNIT


def snap(st):
    return {b: (a.live, dict(a.lv)) for b, a in st.heap.items() if isinstance(a, Alloc)}


@E('before')
def env_before(I, st, a, fn):
    st.env['snap'] = snap(st)
    return UNIT


@E('after')
def env_after(I, st, a, fn):
    s0, s1 = st.env['snap'], snap(st)
    diff = []
    for b in s1:
        if b not in s0:
            raise Unmodelled('cloning allocates')
        if s0[b][0] != s1[b][0]:
            raise MemFault('count', 'cloning an owner releases memory')
        for o in set(s0[b][1]) | set(s1[b][1]):
            x, y = s0[b][1].get(o), s1[b][1].get(o)
            if x != y:
                diff.append((b, o, x, y))
    if not diff:
        raise MemFault('count', 'cloning an owner is not recorded in the object')
    if len(diff) > 1 or not isinstance(diff[0][2][1], int) or not isinstance(diff[0][3][1], int):
        raise Unmodelled('cloning an owner changes more than one word: %r' % (diff,))
    b, o, x, y = diff[0]
    st.env['cell'] = (b, o, x[1], y[1] - x[1], x[0], x[2])
    return UNIT


@E('havoc_owners')
def env_havoc(I, st, a, fn):
    b, o, c1, d, sz, kd = st.env['cell']
    k = st.fresh('k', ((1, 1 << 62),))
    st.env['k'] = k
    al = st.heap[b]
    lv = dict(al.lv)
    lv[o] = (sz, lin_add(lin_mul(lin_add(k, -1), d), c1), kd)
    st.heap[b] = al.with_(lv=lv)
    st.env['base'] = snap(st)
    st.env['base_dead'] = st.env.get('dead', ())
    return UNIT


@E('only_owner')
def env_only(I, st, a, fn):
    return int(I.decide_in(st, st.env['k'], ((1, 1),)))


@E('owners')
def env_owners(I, st, a, fn):
    b, o, c1, d, sz, kd = st.env['cell']
    I.checks['owners'] = I.checks.get('owners', 0) + 1
    s0 = st.env['base']
    for x, (live, lv) in s0.items():
        al = st.heap[x]
        if al.live != live:
            raise MemFault('early-free', 'memory is released while there are owners')
        for q in set(lv) | set(al.lv):
            if (x, q) == (b, o):
                continue
            if lv.get(q) != al.lv.get(q):
                raise MemFault('count', 'an operation on one owner changes the shared object')
    if st.env.get('dead', ()) != st.env['base_dead']:
        raise MemFault('early-free', 'an element is destroyed while there are owners')
    v = st.heap[b].lv[o][1]
    w = lin_add(lin_mul(lin_add(st.env['k'], a[0] - 1), d), c1)
    if not I.cmp(st, 'Eq', v, w):
        raise MemFault('count', 'the record of owners is off: %s instead of %s' % (show(v), show(w)))
    return UNIT


def show(v):
    if not isinstance(v, Lin):
        return str(v)
    return ' + '.join([str(v.c)] + ['%s*%s' % (k, t[0].strip('~') if isinstance(t, tuple) else t) for t, k in v.t])


@E('live_bytes')
def env_live_bytes(I, st, a, fn):
    n = 0
    for b in I.live(st):
        n = lin_add(n, st.heap[b].size)
    return n


@E('may_panic')
def env_may_panic(I, st, a, fn):
    if I.choose(st, 2, 'panic') == 1:
        st.trace = st.trace + ('panic',)
        raise Panic('injected panic', 'a callback supplied by the caller')
    return UNIT


@E('any_u64')
def env_any_u64(I, st, a, fn):
    return st.fresh('u64', ((0, (1 << 64) - 1),))


@E('any_usize')
def env_any_usize(I, st, a, fn):
    return st.fresh('usize', ((0, (1 << 64) - 1),))


@E('any_f64')
def env_any_f64(I, st, a, fn):
    return Opq(('bits2f', st.fresh('bits', ((0, (1 << 64) - 1),))))


@E('emit')
def env_emit(I, st, a, fn):
    st.env['emit'] = st.env.get('emit', ()) + (a[0],)
    return UNIT


@E('mark')
def env_mark(I, st, a, fn):
    st.env['marks'] = st.env.get('marks', ()) + (a[0],)
    return UNIT


@E('holds_exactly')
def env_exact(I, st, a, fn):
    s, n, sz, over = a
    I.checks['size'] = I.checks.get('size', 0) + 1
    d = lin_add(s, lin_mul(n, sz), -1)
    if isinstance(d, int) and over <= d <= over + 32:
        return UNIT
    raise MemFault('size', 'the size of an object with n elements of %s bytes is %s' % (sz, show(s)))


@E('fits')
def env_fits(I, st, a, fn):
    n, sz = a
    I.checks['size'] = I.checks.get('size', 0) + 1
    ls = I.live(st)
    if not ls:
        raise Unmodelled('nothing is allocated when the elements are built')
    al = st.heap[max(ls)]
    d = lin_add(al.size, lin_mul(n, sz), -1)
    if not I.decide_in(st, d, ((0, INF),)):
        raise MemFault('size', 'a block of %s bytes is allocated for n elements of %s bytes' % (show(al.size), sz))
    return UNIT


@E('stop')
def env_stop(I, st, a, fn):
    raise PathEnd()


@nat('std::alloc::handle_alloc_error')
def oom(I, st, a, fn):
    raise PathEnd()
