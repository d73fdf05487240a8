"""Abstract interpreter over rustc's monomorphic MIR.

A state is a stack of frames plus an abstract heap.  Scalars are integers or affine forms
over opaque terms whose possible values are tracked as interval sets; a branch on an
undetermined predicate splits the state (both successors are explored).  Environment
inputs (next character, next token, ...) are never concrete: the interpreter stops at the
query and the client decides which input *classes* to continue with.
"""
import json
import pickle
import os
from .val import *


class Split(Exception):
    """alternatives: list of callables refining a cloned state"""

    def __init__(self, alts):
        self.alts = alts


class Sync(Exception):
    def __init__(self, kind, data=None):
        self.kind = kind
        self.data = data


class Unmodelled(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg, where):
        self.msg = msg
        self.where = where


class Infeasible(Exception):
    pass


class PushFrame(Exception):
    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'loc', 'uid', 'ret', 'tgt', 'unw')

    def __init__(self, fn, uid, nloc):
        self.fn = fn
        self.bb = 0
        self.ip = 0
        self.loc = [None] * nloc
        self.uid = uid

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.bb = self.bb
        f.ip = self.ip
        f.loc = self.loc[:]
        f.uid = self.uid
        f.ret = self.ret
        f.tgt = self.tgt
        return f


class State:
    def __init__(self):
        self.frames = []
        self.byuid = {}
        self.heap = {}
        self.dom = {}       # normalised linear form (terms tuple) -> interval set
        self.facts = {}     # misc facts: key -> value (opaque booleans, string equalities)
        self.nuid = 0
        self.nheap = 0
        self.natom = 0
        self.script = ()    # pending nondeterministic choices for the current instruction
        self.spos = 0
        self.answer = None  # injected answer to an environment query
        self.out = ()       # emitted outputs since last sync
        self.env = {}       # client data (values must be immutable)
        self.trace = ()     # human-readable description of decisions

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.byuid = {f.uid: f for f in s.frames}
        s.heap = dict(self.heap)
        s.dom = dict(self.dom)
        s.facts = dict(self.facts)
        s.nuid = self.nuid
        s.nheap = self.nheap
        s.natom = self.natom
        s.script = self.script
        s.spos = 0
        s.answer = self.answer
        s.out = self.out
        s.env = dict(self.env)
        s.trace = self.trace
        return s

    def fresh(self, tag, dom=None):
        self.natom += 1
        t = ('~' + tag, self.natom)
        if dom is not None:
            self.dom[((t, 1),)] = dom
        return atom(t)

    def alloc(self, v):
        self.nheap += 1
        self.heap[self.nheap] = v
        return ('h', self.nheap)


class Facts:
    def __init__(self, path):
        pk = path + '.pkl'
        if os.path.exists(pk) and os.path.getmtime(pk) >= os.path.getmtime(path):
            d = pickle.load(open(pk, 'rb'))
        else:
            d = json.load(open(path))
            with open(pk, 'wb') as f:
                pickle.dump(d, f)
        self.roots = d['roots']
        self.types = d['types']
        self.fns = d['fns']
        self.statics = d['statics']
        self.bydef = {}
        for i, f in enumerate(self.fns):
            f['idx'] = i
            f['nd'] = norm_name(f['def'])
            self.bydef.setdefault(f['nd'], []).append(i)
        self._tyinfo = {}
        self._live = {}

    def find(self, suffix):
        r = []
        for i, f in enumerate(self.fns):
            if f['nd'].endswith(suffix):
                r.append(i)
        return r

    def ty(self, i):
        return self.types[i]

    def int_info(self, t):
        """(bits, signed) of integer-like type or None"""
        r = self._tyinfo.get(t, 0)
        if r != 0:
            return r
        d = self.types[t]
        k = d['k']
        if k == 'uint':
            r = (d['bits'], False)
        elif k == 'int':
            r = (d['bits'], True)
        elif k == 'char':
            r = (32, False)
        elif k == 'bool':
            r = (8, False)
        else:
            r = None
        self._tyinfo[t] = r
        return r

    def variant_index(self, t, name):
        for i, v in enumerate(self.types[t]['v']):
            if v['n'] == name:
                return i
        raise Unmodelled('no variant %s in %s' % (name, self.types[t]['s']))

    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if pred(t):
                return i
        return None


def norm_name(n):
    return (n.replace('alloc::', 'std::').replace('core::', 'std::'))


_CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}


def block_of(l, ivs):
    """`x >> k in S`, `x / d in S`, `x & high mask in S` as a condition on x, for x >= 0"""
    if type(l) is not Lin or len(l.t) != 1 or l.t[0][1] != 1 or type(l.t[0][0]) is not tuple:
        return None
    key = l.t[0][0]
    if len(key) != 3 or key[0] not in ('shr', 'div', 'and') or not isinstance(key[1], Lin) or not isinstance(key[2], int):
        return None
    o = []
    if key[0] == 'and':
        m = key[2]
        d = m & -m
        if m <= 0 or ((m // d) & (m // d + 1)):
            return None
        top = 1 << m.bit_length()
    else:
        d = 1 << key[2] if key[0] == 'shr' else key[2]
        top = None
    for lo, hi in ivs:
        lo = 0 if lo == -INF else max(lo - l.c, 0)
        if hi != INF:
            hi -= l.c
            if hi < lo:
                continue
        if key[0] == 'and':
            lo = -(-lo // d) * d
            hi = top - 1 if hi == INF else hi // d * d + d - 1
            if hi >= top or hi < lo:
                if hi < lo:
                    continue
                hi = top - 1
        else:
            lo, hi = lo * d, INF if hi == INF else hi * d + d - 1
        o.append((lo, hi))
    return key[1], tuple(o), top - 1 if top else INF


# steps between two ends of paths; the unchanged code needs at most 300,000
MAXPATH = 3_000_000


class Interp:
    def __init__(self, facts, natives, opts=None):
        self.F = facts
        self.nat_by_def = natives
        self.visited = set()
        self.opts = opts or {}
        self.kcache = {}
        self.fcache = {}
        self.steps = 0
        self.used_fns = set()
        self.used_natives = set()
        self.obligations = 0
        self.assert_sites = set()
        self.maxsteps = self.opts.get('maxsteps', 200_000_000)
        self.maxpath = self.opts.get('maxpath', MAXPATH)
        self.statics = {}

    # ---------------------------------------------------------------- numeric domain
    def dom_of(self, st, l):
        if not isinstance(l, Lin):
            return ((l, l),)
        d = st.dom.get(l.t)
        if d is None:
            neg = tuple((t, -k) for t, k in l.t)
            d2 = st.dom.get(neg)
            if d2 is not None:
                d = iv_scale(d2, -1, 0)
        if len(l.t) == 1:
            (t, k), = l.t
            if k != 1:
                base = st.dom.get(((t, 1),), ((-INF, INF),))
                d = iv_scale(base, k, 0)
            elif d is None:
                d = ((-INF, INF),)
        else:
            lo = hi = 0
            for t, k in l.t:
                b = st.dom.get(((t, 1),), ((-INF, INF),))
                x, y = b[0][0] * k, b[-1][1] * k
                if x > y:
                    x, y = y, x
                lo += x
                hi += y
            h = ((lo, hi),)
            d = h if d is None else iv_and(d, h)
        if not d:
            raise Infeasible()
        if l.c:
            d = tuple((a + l.c, b + l.c) for a, b in d)
        return d

    def refine(self, st, l, ivs):
        if not isinstance(l, Lin):
            if not any(a <= l <= b for a, b in ivs):
                raise Infeasible()
            return
        if l.c:
            ivs = tuple((a - l.c, b - l.c) for a, b in ivs)
        if len(l.t) == 1:
            (t, k), = l.t
            key = ((t, 1),)
            if k != 1:
                n = []
                for a, b in ivs:
                    if k < 0:
                        a, b = -b, -a
                    kk = abs(k)
                    lo = a if a in (INF, -INF) else -((-a) // kk)
                    hi = b if b in (INF, -INF) else b // kk
                    if lo <= hi:
                        n.append((lo, hi))
                ivs = tuple(sorted(n))
            cur = st.dom.get(key, ((-INF, INF),))
            n = iv_norm(iv_and(cur, ivs))
            if not n:
                raise Infeasible()
            st.dom[key] = n
            if n != cur and type(t) is tuple and t[0] in ('div', 'shr') and isinstance(t[1], Lin) and isinstance(t[2], int) and n[-1][1] != INF:
                k = t[2] if t[0] == 'div' else 1 << t[2]
                self.refine(st, t[1], tuple((a * k, b * k + k - 1) for a, b in n))
        else:
            cur = self.dom_of(st, Lin(0, l.t))
            n = iv_norm(iv_and(cur, ivs))
            if not n:
                raise Infeasible()
            neg = tuple((t, -k) for t, k in l.t)
            if neg in st.dom:
                del st.dom[neg]
            st.dom[l.t] = n
            # bound propagation to the individual terms
            lo, hi = n[0][0], n[-1][1]
            mins, maxs = [], []
            for t, k in l.t:
                b = st.dom.get(((t, 1),), ((-INF, INF),))
                x, y = b[0][0] * k, b[-1][1] * k
                if x > y:
                    x, y = y, x
                mins.append(x)
                maxs.append(y)
            for i, (t, k) in enumerate(l.t):
                omin = sum(mins[:i] + mins[i + 1:])
                omax = sum(maxs[:i] + maxs[i + 1:])
                a = lo - omax if lo != -INF and omax != INF else -INF
                b = hi - omin if hi != INF and omin != -INF else INF
                if a > mins[i] or b < maxs[i]:
                    self.refine(st, Lin(0, ((t, k),)), ((a, b),))

    def decide_in(self, st, l, ivs):
        """is l in the interval set?  True/False, or Split"""
        w = block_of(l, ivs)
        if w is not None:
            x = self.dom_of(st, w[0])
            if x and x[0][0] >= 0 and x[-1][1] <= w[2]:
                return bool(w[1]) and self.decide_in(st, w[0], w[1])
        d = self.dom_of(st, l)
        x = iv_and(d, ivs)
        if not x:
            return False
        no = iv_and(d, iv_not(ivs))
        if not no:
            return True
        # a consistent earlier answer within this instruction is reflected in the domain
        raise Split([lambda s: self.refine(s, l, ivs), lambda s: self.refine(s, l, iv_not(ivs))])

    def cmp(self, st, op, a, b):
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            if isinstance(a, int) and isinstance(b, int):
                if op == 'Eq':
                    return int(a == b)
                if op == 'Ne':
                    return int(a != b)
                if op == 'Lt':
                    return int(a < b)
                if op == 'Le':
                    return int(a <= b)
                if op == 'Gt':
                    return int(a > b)
                if op == 'Ge':
                    return int(a >= b)
        if type(a) is FloatV and type(b) is FloatV:
            x, y = a.f(), b.f()
            return int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            if op in ('Eq', 'Ne'):
                return self.generic_eq(st, op, a, b)
            raise Unmodelled('compare %s %r %r' % (op, a, b))
        d = lin_add(a, b, -1)
        if not isinstance(d, Lin):
            return self.cmp(st, op, d, 0)
        if op == 'Eq':
            return int(self.decide_in(st, d, ((0, 0),)))
        if op == 'Ne':
            return int(not self.decide_in(st, d, ((0, 0),)))
        if op == 'Lt':
            return int(self.decide_in(st, d, ((-INF, -1),)))
        if op == 'Le':
            return int(self.decide_in(st, d, ((-INF, 0),)))
        if op == 'Gt':
            return int(self.decide_in(st, d, ((1, INF),)))
        if op == 'Ge':
            return int(self.decide_in(st, d, ((0, INF),)))
        raise Unmodelled(op)

    def generic_eq(self, st, op, a, b):
        if isinstance(a, FloatV) and isinstance(b, FloatV):
            import struct
            x = struct.unpack('<d', struct.pack('<Q', a.b))[0]
            y = struct.unpack('<d', struct.pack('<Q', b.b))[0]
            r = x == y
        elif isinstance(a, (Ptr, SliceP, FnV)) or isinstance(b, (Ptr, SliceP, FnV)):
            r = a == b
        elif isinstance(a, Opq) or isinstance(b, Opq):
            r = self.opaque_bool(st, ('eq', a, b))
        else:
            raise Unmodelled('eq %r %r' % (a, b))
        return int(r) if op == 'Eq' else int(not r)

    def opaque_bool(self, st, key):
        v = st.facts.get(key)
        if v is not None:
            return v

        def alt(b):
            def f(s):
                s.facts[key] = b
            return f
        raise Split([alt(True), alt(False)])

    def choose(self, st, n, what=''):
        if n == 1:
            return 0
        if st.spos < len(st.script):
            r = st.script[st.spos]
            st.spos += 1
            return r
        pre = st.script

        def alt(i):
            def f(s):
                s.script = pre + (i,)
            return f
        raise Split([alt(i) for i in range(n)])

    def wrap(self, st, v, t):
        ii = self.F.int_info(t)
        if ii is None:
            return v
        bits, sg = ii
        lo, hi = rng(bits, sg)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            v &= (1 << bits) - 1
            if sg and v >> (bits - 1):
                v -= 1 << bits
            return v
        if self.decide_in(st, v, ((lo, hi),)):
            return v
        d = self.dom_of(st, v)
        # shift by a multiple of 2^bits when the whole domain lies in one window
        m = 1 << bits
        if d[0][0] != -INF and d[-1][1] != INF:
            k = (d[0][0] - lo) // m
            if (d[-1][1] - lo) // m == k:
                return lin_add(v, -k * m)
        return self.term(st, ('wrap', bits, sg, v), ((lo, hi),))

    def term(self, st, key, dom):
        t = atom(key)
        if t.t not in st.dom:
            st.dom[t.t] = dom
        return t

    def binop(self, st, op, a, b, t, checked=False):
        if op in _CMP:
            return self.cmp(st, op, a, b)
        if op == 'Cmp':
            if isinstance(a, int) and isinstance(b, int):
                return Agg((a > b) - (a < b) + 1, ())
            d = lin_add(a, b, -1)
            if self.decide_in(st, d, ((-INF, -1),)):
                return Agg(0, ())
            if self.decide_in(st, d, ((0, 0),)):
                return Agg(1, ())
            return Agg(2, ())
        if op == 'Offset':
            return self.ptr_offset(st, a, b)
        if isinstance(a, (FloatV, Opq)) or isinstance(b, (FloatV, Opq)):
            return self.float_bin(st, op, a, b)
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            raise Unmodelled('binop %s %r %r' % (op, a, b))
        ii = self.F.int_info(t)
        bits, sg = ii if ii else (64, False)
        base = op.replace('Unchecked', '')
        r = None
        if base == 'Add':
            r = lin_add(a, b)
        elif base == 'Sub':
            r = lin_add(a, b, -1)
        elif base == 'Mul':
            if isinstance(b, int):
                r = lin_mul(a, b)
            elif isinstance(a, int):
                r = lin_mul(b, a)
            else:
                r = self.op_term(st, 'mul', a, b)
        elif isinstance(a, int) and isinstance(b, int):
            if base == 'Div':
                if b == 0:
                    raise Panic('division by zero', '')
                q = abs(a) // abs(b)
                r = q if (a < 0) == (b < 0) else -q
            elif base == 'Rem':
                if b == 0:
                    raise Panic('division by zero', '')
                r = abs(a) % abs(b)
                r = -r if a < 0 else r
            elif base == 'BitAnd':
                r = a & b
            elif base == 'BitOr':
                r = a | b
            elif base == 'BitXor':
                r = a ^ b
            elif base == 'Shl':
                if checked:
                    return r_shift(self, a << (b & (bits - 1)), bits, sg), int(not 0 <= b < bits)
                r = a << (b & (bits - 1))
            elif base == 'Shr':
                if checked:
                    return a >> (b & (bits - 1)), int(not 0 <= b < bits)
                r = a >> (b & (bits - 1))
            else:
                raise Unmodelled(op)
        else:
            r = self.sym_op(st, base, a, b, bits, sg)
            if checked and base in ('Shl', 'Shr'):
                return r, (int(not 0 <= b < bits) if isinstance(b, int) else self.cmp(st, 'Ge', b, bits))
        if checked:
            lo, hi = rng(bits, sg)
            if isinstance(r, int):
                return self.wrap(st, r, t), int(not lo <= r <= hi)
            if self.decide_in(st, r, ((lo, hi),)):
                return r, 0
            return self.term(st, ('ovf', r), ((lo, hi),)), 1
        return self.wrap(st, r, t)

    def op_term(self, st, op, a, b):
        da, db = self.dom_of(st, a), self.dom_of(st, b)
        lo = hi = None
        if op == 'mul':
            c = []
            for x in (da[0][0], da[-1][1]):
                for y in (db[0][0], db[-1][1]):
                    c.append(0 if x == 0 or y == 0 else x * y)
            lo, hi = min(c), max(c)
        return self.term(st, (op, a, b), ((lo if lo is not None else -INF, hi if hi is not None else INF),))

    def sym_op(self, st, op, a, b, bits, sg):
        d = self.dom_of(st, a)
        lo, hi = d[0][0], d[-1][1]
        full = rng(bits, sg)
        if bits == 8 and op in ('BitAnd', 'BitOr', 'BitXor') and (lo >= 0 and hi <= 1):
            # booleans: enumerate
            x = 1 if self.decide_in(st, a, ((1, 1),)) else 0
            y = b if isinstance(b, int) else (1 if self.decide_in(st, b, ((1, 1),)) else 0)
            return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
        if isinstance(b, int):
            if op == 'BitAnd':
                if b >= 0 and (b & (b + 1)) == 0 and lo >= 0 and hi <= b:
                    return a
                if b == 0:
                    return 0
                if lo == hi:
                    return int(lo) & b
                if b >= 0 and lo >= 0 and hi != INF:
                    k = (int(lo) ^ int(hi)).bit_length()
                    p = int(lo) >> k << k
                    if b & ((1 << k) - 1) == 0:
                        return p & b
                    if b & ((1 << k) - 1) == (1 << k) - 1:
                        return lin_add(a, (p & b) - p)
                if b >= 0:
                    return self.term(st, ('and', a, b), ((0, min(b, hi) if lo >= 0 else b),))
                return self.term(st, ('and', a, b), ((full[0], full[1]),))
            if op == 'Shr' and lo >= 0:
                if hi != INF and (int(lo) >> b) == (int(hi) >> b):
                    return int(lo) >> b
                return self.term(st, ('shr', a, b), ((int(lo) >> b, (int(hi) >> b) if hi != INF else INF),))
            if op == 'Shl':
                return self.wrapl(st, lin_mul(a, 1 << b), bits, sg)
            if op == 'BitOr' and b == 0:
                return a
            if op in ('Div', 'Rem') and b > 0 and lo >= 0 and hi != INF:
                if op == 'Div':
                    if int(lo) // b == int(hi) // b:
                        return int(lo) // b
                    return self.term(st, ('div', a, b), ((int(lo) // b, int(hi) // b),))
                if int(lo) // b == int(hi) // b:
                    return lin_add(a, -(int(lo) // b) * b)
                return self.term(st, ('rem', a, b), ((0, b - 1),))
        if isinstance(b, Lin) and isinstance(a, int) and op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.sym_op(st, op, b, a, bits, sg)
        if op in ('BitOr', 'BitXor') and isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            # disjoint bit ranges: a | b == a + b
            for x, y in ((a, b), (b, a)):
                dy = self.dom_of(st, y)
                if dy[0][0] >= 0 and dy[-1][1] != INF and self.dom_of(st, x)[0][0] >= 0:
                    m = 1 << int(dy[-1][1]).bit_length()
                    lx = lin_of(x)
                    if lx.c % m == 0 and all(k % m == 0 for _, k in lx.t):
                        return lin_add(x, y)
        if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(b, Lin) and repr(b) < repr(a):
            a, b = b, a
        return self.term(st, (op, a, b), (full,))

    def wrapl(self, st, v, bits, sg):
        lo, hi = rng(bits, sg)
        if self.decide_in(st, v, ((lo, hi),)):
            return v
        return self.term(st, ('wrap', bits, sg, v), ((lo, hi),))

    def float_bin(self, st, op, a, b):
        if isinstance(a, FloatV) and isinstance(b, FloatV):
            import struct
            x = struct.unpack('<d', struct.pack('<Q', a.b))[0]
            y = struct.unpack('<d', struct.pack('<Q', b.b))[0]
            try:
                r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'Div': x / y if y else None}[op]
                if r is not None:
                    return FloatV(struct.unpack('<Q', struct.pack('<d', r))[0])
            except KeyError:
                pass
        return Opq((op, a, b))

    def ptr_offset(self, st, p, n):
        if type(p) is StrV:
            from .natives2 import substr_from
            return substr_from(self, st, p, n)
        raise Unmodelled('ptr offset')

    # ---------------------------------------------------------------- constants
    def const(self, k):
        key = id(k)
        v = self.kcache.get(key)
        if v is None:
            v = self._const(k)
            self.kcache[key] = v
        return v

    def _const(self, k):
        if 'i' in k:
            return int(k['i'])
        if 'f' in k:
            return FloatV(int(k['f']))
        if 'str' in k:
            return StrV(tuple(ord(c) for c in k['str']))
        if 'fn' in k:
            return FnV(k['fn'])
        if 'v' in k:
            return self.mk_const_adt(k)
        if 'a' in k:
            es = tuple(self._const(x) for x in k['a'])
            t = k['t']
            if t is None or self.F.types[t]['k'] in ('array', 'slice'):
                return VecV(es, kind='a')
            return Agg(0, es)
        if 'z' in k:
            return self.zst(k['z'])
        if 'ref' in k:
            inner = self._const(k['ref'])
            p = Ptr(('c', ConstBox(inner)), ())
            if k['ref'].get('t', 0) is None:
                return SliceP(p, 0, len(inner.e))
            return p
        if 'static' in k:
            return Ptr(('s', k['static']), ())
        if 'addr' in k:
            return Opq(('addr', int(k['addr']), k['meta']))
        if 'x' in k:
            return Opq(('const', k['x'], k.get('t')))
        raise Unmodelled('const %s' % k)

    def mk_const_adt(self, k):
        fs = tuple(self._const(x) for x in k['a'])
        t = self.F.types[k['t']]
        nm = norm_name(t['name'])
        if nm in ('std::string::String',):
            return StrV(())
        if nm in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::vec_deque::VecDeque'):
            return VecV(())
        if nm.startswith('std::collections::') and nm.endswith(('BTreeMap', 'BTreeSet')):
            return MapV(())
        return Agg(k['v'], fs)

    def zst(self, t):
        d = self.F.types[t]
        if d['k'] == 'fndef':
            return FnV(d['fn']) if d.get('fn') is not None else Opq(('fndef', t))
        if d['k'] == 'array':
            return VecV((self.zst(d['e']),) * d['n'] if d['n'] else (), kind='a')
        if d['k'] == 'tuple':
            return Agg(0, tuple(self.zst(x) for x in d['e']))
        if d['k'] == 'adt' and d['v']:
            return Agg(0, tuple(self.zst(x[1]) for x in d['v'][0]['f']))
        if d['k'] == 'closure':
            return Agg(0, tuple(self.zst(x) for x in d['up']))
        return UNIT

    # ---------------------------------------------------------------- places
    def base_val(self, st, b):
        k = b[0]
        if k == 'l':
            f = st.byuid.get(b[1])
            if f is None:
                raise Unmodelled('dangling frame pointer')
            return f.loc[b[2]]
        if k == 'h':
            return st.heap[b[1]]
        if k == 'c':
            return b[1].v
        if k == 's':
            i = b[1]
            if i not in self.statics:
                self.statics[i] = self._const(self.F.statics[i]['v'])
            return st.heap.get(b, self.statics[i])
        raise Unmodelled('base %s' % (b,))

    def read_at(self, st, b, p):
        v = self.base_val(st, b)
        for i in p:
            v = self.proj(st, v, i)
        return v

    def proj(self, st, v, i):
        try:
            if type(v) is Agg:
                return v.f[i]
            if type(v) is VecV:
                if v.drained:
                    raise Unmodelled('read of an output buffer')
                return v.e[i]
            if type(v) is MapV:
                return v.e[i[0]][1] if isinstance(i, tuple) else v.e[i][0]
        except (IndexError, TypeError):
            raise Unmodelled('projection %r of %r' % (i, v))
        if type(v) is Opq:
            return Opq(('proj', v, i))
        if type(v) is ItV and v.k in ('chars', 'charidx'):
            # fields of the real iterator: CharIndices { front_offset, iter: Chars { iter: slice::Iter<u8> } }
            if v.k == 'charidx':
                return v.a[0] if i == 0 else ItV('chars', v.a[1])
            return ItV('ubytes', v.a)
        if v is MOVED:
            raise Unmodelled('use of moved value')
        raise Unmodelled('projection %r of %r' % (i, v))

    def write_at(self, st, b, p, val):
        k = b[0]
        if not p:
            if k == 'l':
                f = st.byuid.get(b[1])
                if f is None:
                    raise Unmodelled('dangling frame pointer (write)')
                f.loc[b[2]] = val
            elif k == 'h':
                st.heap[b[1]] = val
            elif k == 's':
                st.heap[b] = val
            else:
                raise Unmodelled('write to const')
            return
        self.write_at(st, b, (), self.upd(st, self.base_val(st, b), p, 0, val))

    def upd(self, st, v, p, n, val):
        i = p[n]
        last = n + 1 == len(p)
        if v is None or v is MOVED:
            v = Agg(0, ())
        if type(v) is Agg:
            fs = v.f
            if i >= len(fs):
                fs = fs + (None,) * (i + 1 - len(fs))
            nv = val if last else self.upd(st, fs[i], p, n + 1, val)
            return Agg(v.v, fs[:i] + (nv,) + fs[i + 1:])
        if type(v) is VecV:
            if v.drained:
                raise Unmodelled('write into an output buffer')
            nv = val if last else self.upd(st, v.e[i], p, n + 1, val)
            return VecV(v.e[:i] + (nv,) + v.e[i + 1:], 0, v.kind)
        if type(v) is MapV:
            j = i[0]
            k_, o = v.e[j]
            nv = val if last else self.upd(st, o, p, n + 1, val)
            return MapV(v.e[:j] + ((k_, nv),) + v.e[j + 1:], v.k)
        raise Unmodelled('update of %r' % (v,))

    def place(self, st, fr, pl):
        """resolve to (base, path, window)"""
        b = ('l', fr.uid, pl[0])
        p = ()
        w = None
        for e in pl[1]:
            if e == '*':
                v = self.read_at(st, b, p)
                t = type(v)
                if t is Ptr:
                    b, p, w = v.b, v.p, None
                elif t is SliceP:
                    b, p, w = v.ptr.b, v.ptr.p, (v.s, v.n)
                elif t is StrV:
                    # &str by value: `*s` is the str itself
                    w = None
                elif t is Opq:
                    b, p, w = ('c', ConstBox(Opq(('deref', v)))), (), None
                elif t is Agg and len(v.f) >= 1:
                    # Box<T>: dig for the pointer
                    q = self.dig_ptr(v)
                    b, p, w = q.b, q.p, None
                else:
                    raise Unmodelled('deref of %r' % (v,))
            else:
                k = e[0]
                if k == 'f':
                    p = p + (e[1],)
                elif k == 'd' or k == 'oc':
                    pass
                elif k == 'i':
                    i = fr.loc[e[1]]
                    if not isinstance(i, int):
                        i = self.concretize(st, i)
                    if w is not None:
                        i += w[0]
                        w = None
                    p = p + (i,)
                elif k == 'ci':
                    if w is not None:
                        i = w[0] + (w[1] - e[1] if e[3] else e[1])
                        w = None
                    else:
                        n = len(self.read_at(st, b, p).e)
                        i = n - e[1] if e[3] else e[1]
                    p = p + (i,)
                elif k == 's':
                    if w is None:
                        w = (0, len(self.read_at(st, b, p).e))
                    s, n = w
                    w = (s + e[1], (n - e[1] - e[2]) if e[3] else (e[2] - e[1]))
                else:
                    raise Unmodelled('proj %s' % (e,))
        return b, p, w

    def dig_ptr(self, v):
        while type(v) is Agg:
            if not v.f:
                raise Unmodelled('box')
            v = v.f[0]
        if type(v) in (Ptr, SliceP):
            return v
        raise Unmodelled('box deref %r' % (v,))

    def concretize(self, st, v):
        """split a small-domain value into its concrete cases"""
        if isinstance(v, int):
            return v
        if isinstance(v, Lin):
            d = self.dom_of(st, v)
            if d[0][0] == d[-1][1]:
                return int(d[0][0])
            n = sum(h - l + 1 for l, h in d)
            if n <= 64:
                alts = []
                for l, h in d:
                    for x in range(int(l), int(h) + 1):
                        alts.append((lambda x: lambda s: self.refine(s, v, ((x, x),)))(x))
                raise Split(alts)
        raise Unmodelled('symbolic index %r' % (v,))

    def rd_place(self, st, fr, pl):
        if not pl[1]:
            return fr.loc[pl[0]]
        e = pl[1][-1]
        if e != '*' and e[0] == 'i' and isinstance(fr.loc[e[1]], Lin):
            v = self.table(st, fr, pl, fr.loc[e[1]])
            if v is not None:
                return v
        b, p, w = self.place(st, fr, pl)
        return self.read_at(st, b, p)

    def table(self, st, fr, pl, i):
        """element of a table of numbers at a symbolic index: the index is split by the runs
        in which the elements grow with the index"""
        b, p, w = self.place(st, fr, (pl[0], pl[1][:-1]))
        v = self.read_at(st, b, p)
        if type(v) is VecV:
            if v.drained:
                return None
            e = v.e
        elif type(v) is StrV:
            e = v.s
            if not all(isinstance(x, int) and x < 128 for x in e):
                return None
        else:
            return None
        if w is not None:
            e = e[w[0]:w[0] + w[1]]
        d = self.dom_of(st, i)
        if not all(isinstance(x, int) for x in e) or d[0][0] < 0 or d[-1][1] >= len(e):
            return None
        k = int(d[0][0])
        if k == d[-1][1]:
            return e[k]
        while True:
            n = k + 1
            s = e[n] - e[k] if n < len(e) else 0
            while n < len(e) and e[n] - e[n - 1] == s:
                n += 1
            if self.decide_in(st, i, ((k, n - 1),)):
                return lin_add(lin_mul(i, s), e[k] - s * k)
            k = n

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'cp' or k == 'mv':
            return self.rd_place(st, fr, o[1])
        if k == 'k':
            return self.const(o[1])
        if k == 'rc':
            return 0
        raise Unmodelled('operand %s' % k)

    def move_out(self, st, fr, o):
        if o[0] == 'mv':
            pl = o[1]
            if not pl[1]:
                fr.loc[pl[0]] = MOVED
            else:
                b, p, w = self.place(st, fr, pl)
                if b[0] in ('l', 'h') and w is None:
                    v = self.base_val(st, b)
                    if v is not None and v is not MOVED:
                        try:
                            self.write_at(st, b, p, MOVED)
                        except Unmodelled:
                            pass

    def ref_to(self, st, b, p, w, ty_hint=None):
        if w is not None:
            return SliceP(Ptr(b, p), w[0], w[1])
        return Ptr(b, p)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'addr':
            pl = r[1]
            b, p, w = self.place(st, fr, pl)
            if w is None:
                v = None
                try:
                    v = self.read_at(st, b, p)
                except Unmodelled:
                    pass
                if type(v) is StrV and pl[1] and pl[1][-1] == '*':
                    # reborrow of a &str (str is passed by value)
                    tv = self.place_is_str(fr, pl)
                    if tv:
                        return v
                if type(v) is Opq and b[0] == 'c' and not p and v.t[0] == 'deref':
                    return v.t[1]
            return self.ref_to(st, b, p, w)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == 'cbin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            v, o = self.binop(st, r[1], a, b, r[4], True)
            return Agg(0, (v, o))
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[5])
            if r[1] == 'array':
                return VecV(ops, kind='a')
            if r[1] == 'adt':
                if r[3] is not None:   # union: active field
                    fs = [None] * (r[3] + 1)
                    fs[r[3]] = ops[0]
                    return Agg(r[2], tuple(fs))
                return self.mk_adt(st, r[4], r[2], ops)
            if r[1] == 'rawptr':
                if isinstance(ops[0], Ptr) and isinstance(ops[1], int):
                    return SliceP(ops[0], 0, ops[1])
                if isinstance(ops[0], Ptr):
                    return ops[0]
                if isinstance(ops[0], StrV):
                    from .natives2 import substr_to
                    return substr_to(self, st, ops[0], ops[1])
                raise Unmodelled('rawptr aggregate')
            return Agg(0, ops)
        if k == 'discr':
            v = self.rd_place(st, fr, r[1])
            return self.discr(st, v, r[2])
        if k == 'cast':
            return self.cast(st, r, self.operand(st, fr, r[2]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                t = self.F.types[r[3]]
                if t['k'] == 'bool':
                    if isinstance(v, int):
                        return 1 - v
                    if isinstance(v, Lin):
                        return lin_add(1, v, -1)
                    raise Unmodelled('not %r' % (v,))
                bits, sg = self.F.int_info(r[3])
                if isinstance(v, int):
                    return ~v if sg else (~v) & ((1 << bits) - 1)
                return lin_add(-1 if sg else (1 << bits) - 1, v, -1)
            if r[1] == 'Neg':
                if isinstance(v, FloatV):
                    return FloatV(v.b ^ (1 << 63))
                if isinstance(v, Opq):
                    return self.neg_opq(v)
                return self.wrap(st, lin_mul(v, -1), r[3])
            if r[1] == 'PtrMetadata':
                if isinstance(v, SliceP):
                    return v.n
                if isinstance(v, StrV):
                    return self.str_len(st, v)
                return UNIT
        if k == 'len':
            b, p, w = self.place(st, fr, r[1])
            if w is not None:
                return w[1]
            return len(self.read_at(st, b, p).e)
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            return VecV((v,) * r[2], kind='a')
        raise Unmodelled('rvalue %s' % k)

    def neg_opq(self, v):
        if v.t[0] == 'fneg':
            return v.t[1]
        return Opq(('fneg', v))

    def str_len(self, st, v):
        """UTF-8 length"""
        n = 0
        for x in v.s:
            if isinstance(x, int):
                n = lin_add(n, 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4)
            elif isinstance(x, Lin):
                d = self.dom_of(st, x)
                if d[-1][1] < 0x80:
                    n = lin_add(n, 1)
                elif self.opts.get('u8split'):
                    k = 1
                    while k < 4 and not self.decide_in(st, x, ((0, (0x7F, 0x7FF, 0xFFFF)[k - 1]),)):
                        k += 1
                    n = lin_add(n, k)
                else:
                    n = lin_add(n, self.term(st, ('u8len', x), ((1, 4),)))
            else:
                n = lin_add(n, self.term(st, ('slen', x), ((st.facts.get(('minlen', x), 0), 1 << 40),)))
        return n

    def place_is_str(self, fr, pl):
        """type of the dereferenced pointer is &str/&mut str/Box<str>"""
        t = self.place_ty(fr.fn, pl[0], pl[1][:-1])
        if t is None:
            return False
        d = self.F.types[t]
        if d['k'] in ('ref', 'ptr'):
            return self.F.types[d['e']]['k'] == 'str'
        return False

    def place_ty(self, fn, local, projs):
        t = fn['locals'][local]
        var = None
        for e in projs:
            d = self.F.types[t]
            if e == '*':
                if 'e' not in d:
                    return None
                t = d['e']
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = d['e']
            elif e[0] == 'oc':
                t = e[1]
        return t

    def mk_adt(self, st, t, var, ops):
        return Agg(var, ops)

    def discr(self, st, v, t):
        if type(v) is Agg:
            d = self.F.types[t]
            if d['k'] == 'adt' and d['ak'] == 'enum':
                x = int(d['v'][v.v]['d'])
                return x
            return 0
        if type(v) is ItV or type(v) is MapV:
            raise Unmodelled('discriminant of native value')
        d = self.F.types[t]
        if (v is None or v is MOVED or (type(v) is Agg)) and d['k'] == 'adt' and d['ak'] == 'enum' \
                and d.get('l') and d['l']['size'] == 0:
            for x in d['v']:
                if not any(self.uninhabited(f[1]) for f in x['f']):
                    return int(x['d'])
        raise Unmodelled('discriminant of %r' % (v,))

    def uninhabited(self, t):
        d = self.F.types[t]
        if d['k'] == 'never':
            return True
        if d['k'] == 'adt':
            if d['ak'] == 'enum':
                return all(any(self.uninhabited(f[1]) for f in v['f']) for v in d['v'])
            if d['ak'] == 'struct':
                return any(self.uninhabited(f[1]) for f in d['v'][0]['f'])
        if d['k'] == 'tuple':
            return any(self.uninhabited(x) for x in d['e'])
        return False

    def cast(self, st, r, v):
        k = r[1]
        if k == 'IntToInt':
            if isinstance(v, Agg):  # fieldless enum as integer
                d = self.F.types[r[3]]
                v = int(d['v'][v.v]['d'])
            return self.wrap(st, v, r[4])
        if k.startswith('PCReify') or k.startswith('PCClosureFn'):
            return FnV(r[5])
        if k.startswith('PCUnsize'):
            if isinstance(v, Ptr):
                td = self.F.types[r[4]]
                if td['k'] in ('ref', 'ptr') and self.F.types[td['e']]['k'] == 'slice':
                    x = self.read_at(st, v.b, v.p)
                    return SliceP(v, 0, len(x.e))
                return v
            if isinstance(v, Agg):
                # Box<[T;N]> -> Box<[T]>
                def conv(x):
                    if isinstance(x, Ptr):
                        y = self.read_at(st, x.b, x.p)
                        if isinstance(y, VecV):
                            return SliceP(x, 0, len(y.e))
                        return x
                    if isinstance(x, Agg) and x.f:
                        return Agg(x.v, (conv(x.f[0]),) + x.f[1:])
                    return x
                return conv(v)
            return v
        if k.startswith('PC'):
            return v
        if k in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'):
            return self.ptr_cast(st, r, v)
        if k == 'Transmute' or k == 'BoxDerefTransmute':
            return self.transmute(st, r, v)
        if k == 'IntToFloat':
            if isinstance(v, int):
                import struct
                return FloatV(struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            return Opq(('i2f', v))
        if k == 'FloatToFloat':
            return v
        if k == 'FloatToInt' and type(v) is FloatV and v.w == 64:
            f = v.f()
            lo, hi = rng(*self.F.int_info(r[4]))
            return 0 if f != f else lo if f <= lo else hi if f >= hi else int(f)
        if k == 'FloatToInt':
            return self.term(st, ('f2i', v), (rng(*self.F.int_info(r[4])),))
        raise Unmodelled('cast %s' % k)

    def ptr_cast(self, st, r, v):
        return v

    def transmute(self, st, r, v):
        a, b = self.F.types[r[3]], self.F.types[r[4]]
        if r[3] == r[4]:
            return v
        if isinstance(v, int) and b['k'] in ('char', 'uint', 'int', 'bool'):
            return self.wrap(st, v, r[4])
        if isinstance(v, Lin) and b['k'] in ('char', 'uint'):
            return v
        if a['k'] in ('ref', 'ptr') and b['k'] in ('ref', 'ptr'):
            return v
        if a['k'] in ('ref', 'ptr') and b['k'] == 'adt':
            # NonNull / Unique wrappers
            return self.wrap_ptr(r[4], v)
        if a['k'] == 'adt' and b['k'] in ('ref', 'ptr'):
            return self.dig_ptr(v) if type(v) is Agg else v
        if isinstance(v, FloatV) and b['k'] in ('uint', 'int'):
            return self.wrap(st, v.b, r[4])
        if isinstance(v, int) and b['k'] == 'float':
            return FloatV(v)
        if isinstance(v, Lin) and b['k'] == 'float':
            return Opq(('bits2f', v))
        if isinstance(v, Opq) and b['k'] in ('uint',):
            if v.t[0] == 'bits2f':
                return v.t[1]
            return self.term(st, ('f2bits', v), (rng(64, False),))
        if isinstance(v, (int, Lin)) and a['k'] in ('uint', 'int') and b['k'] == 'adt':
            if b['ak'] == 'enum' and all(not x['f'] for x in b['v']):
                v = self.concretize(st, v)
                for i, x in enumerate(b['v']):
                    if int(x['d']) == v:
                        return Agg(i, ())
            elif 'NonZero' in b['s']:
                w = Agg(0, (v,))
                if b['ak'] == 'struct':
                    return w
                if b['s'].startswith('std::option::Option'):
                    return Agg(0, ()) if self.cmp(st, 'Eq', v, 0) else Agg(1, (w,))
        if type(v) is Agg and a['k'] == 'adt' and b['k'] in ('uint', 'int') and 'NonZero' in a['s']:
            if a['s'].startswith('std::option::Option'):
                if v.v == 0:
                    return 0
                v = v.f[0]
            while type(v) is Agg:
                v = v.f[0]
            return v
        if isinstance(v, int) and a['k'] in ('uint', 'int') and b['k'] == 'array':
            bits = self.F.int_info(r[3])[0]
            es = (v & ((1 << bits) - 1)).to_bytes(bits // 8, 'little')
            if self.F.types[b['e']]['s'] == 'u8':
                return VecV(tuple(es), kind='a')
        if isinstance(v, VecV) and b['k'] in ('uint', 'int') and all(type(x) is int for x in v.e):
            return self.wrap(st, int.from_bytes(bytes(v.e), 'little'), r[4])
        if isinstance(v, (Agg, VecV)) and b['k'] in ('adt', 'array'):
            n = self.reshape(r[4], v)
            if n is not None:
                return n
        raise Unmodelled('transmute %s -> %s' % (a['s'], b['s']))

    def reshape(self, t, v):
        """transparent wrapper <-> inner (MaybeUninit, ManuallyDrop, ...)"""
        return None

    def wrap_ptr(self, t, v):
        d = self.F.types[t]
        if d['k'] in ('ptr', 'ref'):
            return v
        if d['k'] == 'pat':
            return v
        fs = d['v'][0]['f']
        return Agg(0, (self.wrap_ptr(fs[0][1], v),) + tuple(self.zst(x[1]) for x in fs[1:]))

    # ---------------------------------------------------------------- execution
    def site(self, st):
        c = st.env.get('calls') or ()
        on = set(f.fn['idx'] for f in st.frames)
        pick = None
        for i in c:
            if i in on:
                continue
            if 'closure' in self.F.fns[i]['nd']:
                pick = i
                break
        if pick is None:
            for i in reversed(c):
                if i not in on:
                    pick = i
                    break
        if pick is None:
            return self.where(st)
        f = self.F.fns[pick]
        return '%s (%s:%s)' % (short(f['name']), relf(f['file']), f['line'])

    def calls_of(self, st):
        r = []
        for i in st.env.get('calls') or ():
            f = self.F.fns[i]
            r.append('%s (%s:%s)' % (short(f['name']), relf(f['file']), f['line']))
        return r

    def push(self, st, fi, args, ret=None, tgt=None):
        fn = self.F.fns[fi]
        self.visited.add(fi)
        if fn['crate'] in ('nanvm_lib', 'nanvm'):
            c = st.env.get('calls', ())
            if len(c) < 200 and (not c or c[-1] != fi):
                st.env['calls'] = c + (fi,)
        if not fn.get('blocks'):
            raise Unmodelled('no body: %s' % fn['name'])
        if len(st.frames) > 300:
            raise Unmodelled('call depth')
        self.used_fns.add(fi)
        st.nuid += 1
        fr = Frame(fn, st.nuid, len(fn['locals']))
        fr.ret = ret
        fr.tgt = tgt
        n = fn['argc']
        if fn.get('spread') is not None and False:
            pass
        for i in range(n):
            fr.loc[i + 1] = args[i] if i < len(args) else None
        st.frames.append(fr)
        st.byuid[fr.uid] = fr
        return fr

    def where(self, st):
        """innermost frame inside the analysed crate"""
        for fr in reversed(st.frames):
            if fr.fn['crate'] in ('nanvm_lib', 'nanvm'):
                blk = fr.fn['blocks'][fr.bb]
                line = blk[2]
                return '%s (%s:%s)' % (short(fr.fn['name']), fr.fn['file'].split('/repo/')[-1], line)
        return short(st.frames[-1].fn['name']) if st.frames else '?'

    def step_block(self, st):
        """run the current frame's instructions until a terminator has been executed"""
        fr = st.frames[-1]
        fn = fr.fn
        blk = fn['blocks'][fr.bb]
        stmts = blk[0]
        n = len(stmts)
        while fr.ip < n:
            s = stmts[fr.ip]
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fr, s[2])
                pl = s[1]
                if pl[1]:
                    b, p, w = self.place(st, fr, pl)
                rv = s[2]
                if rv[0] == 'use':
                    if rv[1][0] == 'mv':
                        self.move_out(st, fr, rv[1])
                elif rv[0] == 'agg':
                    for o in rv[5]:
                        if o[0] == 'mv':
                            self.move_out(st, fr, o)
                if not pl[1]:
                    fr.loc[pl[0]] = v
                else:
                    self.write_at(st, b, p, v)
            elif k == 'dead':
                fr.loc[s[1]] = None
            elif k == 'sd':
                b, p, w = self.place(st, fr, s[1])
                v = self.read_at(st, b, p)
                self.write_at(st, b, p, Agg(s[2], v.f if type(v) is Agg else ()))
            elif k == 'sl':
                pass
            elif k == 'cno':
                self.copy_nonoverlapping(st, *[self.operand(st, fr, o) for o in s[1:4]])
            else:
                raise Unmodelled('stmt %s' % k)
            fr.ip += 1
            st.script = ()
            st.spos = 0
        self.steps += n + 1
        if self.steps > self.maxsteps:
            raise Unmodelled('step budget exhausted')
        t = blk[1]
        k = t[0]
        if k == 'goto':
            fr.bb = t[1]
            fr.ip = 0
        elif k == 'sw':
            v = self.operand(st, fr, t[1])
            if isinstance(v, int):
                tgt = t[3]
                if v < 0:
                    ii = self.F.int_info(t[4])
                    v &= (1 << ii[0]) - 1
                for val, b in t[2]:
                    if int(val) == v:
                        tgt = b
                        break
                fr.bb = tgt
                fr.ip = 0
            elif isinstance(v, Lin):
                tgt = t[3]
                for val, b in t[2]:
                    x = int(val)
                    ii = self.F.int_info(t[4])
                    if ii and ii[1] and x >> (ii[0] - 1):
                        x -= 1 << ii[0]
                    if self.decide_in(st, v, ((x, x),)):
                        tgt = b
                        break
                fr.bb = tgt
                fr.ip = 0
            else:
                raise Unmodelled('switch on %r' % (v,))
        elif k == 'ret':
            v = fr.loc[0]
            st.frames.pop()
            st.byuid.pop(fr.uid, None)
            if not st.frames:
                st.env = dict(st.env)
                st.env['result'] = v
                return 'done'
            c = st.frames[-1]
            if fr.ret is not None:
                if v is None:
                    v = UNIT
                pl = fr.ret
                if not pl[1]:
                    c.loc[pl[0]] = v
                else:
                    b, p, w = self.place(st, c, pl)
                    self.write_at(st, b, p, v)
            c.bb = fr.tgt
            c.ip = 0
        elif k == 'call':
            self.call(st, fr, t)
        elif k == 'drop':
            self.drop(st, fr, t)
        elif k == 'assert':
            self.assert_sites.add((fn['idx'], fr.bb))
            v = self.operand(st, fr, t[1])
            if not isinstance(v, int):
                v = int(self.decide_in(st, v, ((1, 1),)))
            if bool(v) != t[2]:
                raise Panic(t[3], self.where(st))
            fr.bb = t[4]
            fr.ip = 0
        elif k == 'unreachable':
            raise Unmodelled('reached `unreachable` in %s' % fn['name'])
        else:
            raise Unmodelled('terminator %s' % k)
        st.script = ()
        st.spos = 0
        return None

    def copy_nonoverlapping(self, st, src, dst, cnt):
        raise Unmodelled('copy_nonoverlapping')

    def drop(self, st, fr, t):
        pl = t[1]
        hook = self.opts.get('drop')
        if hook:
            if hook(self, st, fr, t):
                return
        if not pl[1]:
            fr.loc[pl[0]] = MOVED
        fr.bb = t[2]
        fr.ip = 0

    def call(self, st, fr, t):
        callee = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        if isinstance(callee, dict):
            if 'err' in callee:
                raise Unmodelled('unresolved call ' + callee['err'])
            f = self.operand(st, fr, callee['op'])
            if isinstance(f, FnV):
                callee = f.i
                fn = self.F.fns[callee]
                if fn.get('spread') == 2 and fn['argc'] == 2 and fn['nd'].endswith('::call_once'):
                    # closure coerced to a fn pointer: zero-sized self, spread arguments
                    args = [UNIT, Agg(0, tuple(args))]
            else:
                h = self.opts.get('call_opaque')
                if h:
                    v = h(self, st, f, args)
                    self.finish_call(st, fr, t, v)
                    return
                raise Unmodelled('call through %r' % (f,))
        self.do_call(st, fr, t, callee, args)

    def do_call(self, st, fr, t, callee, args):
        fn = self.F.fns[callee]
        nat = fn.get('_nat', 0)
        if nat == 0 or fn.get('_natI') is not self:
            nat = self.lookup_native(fn)
            fn['_nat'] = nat
            fn['_natI'] = self
        if nat is not None:
            self.used_natives.add(fn['nd'])
            try:
                v = nat(self, st, args, fn)
            except PushFrame as pf:
                for o in t[2]:
                    if o[0] == 'mv':
                        self.move_out(st, fr, o)
                self.do_push(st, fr, t, pf.fn, pf.args)
                return
            if v is FALL:
                for o in t[2]:
                    if o[0] == 'mv':
                        self.move_out(st, fr, o)
                self.do_push(st, fr, t, callee, args)
                return
            # apply the moves of the arguments (after a successful native)
            for o in t[2]:
                if o[0] == 'mv' and not o[1][1]:
                    fr.loc[o[1][0]] = MOVED
            self.finish_call(st, fr, t, v)
            return
        if fn['dbg'] == 'Shim' and fn.get('blocks') is None:
            raise Unmodelled('shim %s' % fn['name'])
        for o in t[2]:
            if o[0] == 'mv':
                self.move_out(st, fr, o)
        self.do_push(st, fr, t, callee, args)

    def do_push(self, st, fr, t, callee, args):
        fn = self.F.fns[callee]
        if fn.get('blocks') is None:
            c = self.ctor(st, fn, args)
            if c is not None:
                self.finish_call(st, fr, t, c)
                return
            raise Unmodelled('no model for %s' % fn['name'])
        if fn['argc'] != len(args) and len(args) == 2 and isinstance(args[1], Agg):
            # rust-call ABI: closure bodies take the tuple spread
            args = [args[0]] + list(args[1].f)
        elif fn['argc'] == 2 and len(args) == 2 and fn.get('spread') is None and isinstance(args[1], Agg) and len(args[1].f) == 1 \
                and '{closure#' in fn['nd'].rsplit('::', 1)[-1] and len(t[2]) == 2 and t[2][1][0] in ('mv', 'cp') and not t[2][1][1][1]:
            ot = fr.fn['locals'][t[2][1][1][0]]
            if ot != fn['locals'][2] and self.F.types[ot]['k'] == 'tuple':
                args = [args[0], args[1].f[0]]
        if fn.get('spread') is not None and len(args) != fn['argc']:
            sp = fn['spread']
            args = args[:sp - 1] + [Agg(0, tuple(args[sp - 1:]))]
        self.push(st, callee, args, t[3], t[4])

    def ctor(self, st, fn, args):
        """a tuple struct or tuple variant constructor used as a function"""
        r = fn.get('ret')
        d = self.F.types[r] if r is not None else None
        if not d or d['k'] != 'adt' or d['ak'] == 'union':
            return None
        last = fn['nd'].rsplit('::', 1)[-1]
        for i, v in enumerate(d['v']):
            if v['n'] == last and len(v['f']) == len(args) and fn['nd'].startswith(norm_name(d['name'])):
                return self.mk_adt(st, r, i, tuple(args))
        return None

    def finish_call(self, st, fr, t, v):
        if t[4] is None:
            raise Unmodelled('diverging call returned')
        pl = t[3]
        if not pl[1]:
            fr.loc[pl[0]] = v
        else:
            b, p, w = self.place(st, fr, pl)
            self.write_at(st, b, p, v)
        fr.bb = t[4]
        fr.ip = 0

    def lookup_native(self, fn):
        nd = fn['nd']
        f = self.nat_by_def.get(nd)
        if f is not None:
            return f
        if fn['intr']:
            f = self.nat_by_def.get('intrinsic:' + fn['intr'])
            if f is not None:
                return f
            return None if fn['blocks'] else no_intrinsic
        if 'PartialEq' in nd and 'str' in nd:
            from .natives2 import str_eq_native
            f = str_eq_native(nd)
            if f is not None:
                return f
        if 'precondition_check' in nd:
            return lambda I, st, a, fn: UNIT
        if fn['nd'].startswith('std::ptr::drop_glue') or fn['nd'] == 'std::ptr::drop_in_place':
            return lambda I, st, a, fn: UNIT
        if nd.startswith('std::') and ('panic' in nd or nd.rsplit('::', 1)[-1] in FAILS):
            return nat_panic
        return None

    def run(self, st, stop_sync=True):
        """explore all paths from st until each ends: yields (status, state, info)"""
        work = [st]
        base = self.steps
        while work:
            s = work.pop()
            try:
                while True:
                    if self.steps - base > self.maxpath:
                        raise Unmodelled('step budget exhausted: a path does not end within %d steps' % self.maxpath)
                    try:
                        r = self.step_block(s)
                    except Split as sp:
                        for alt in sp.alts:
                            n = s.clone()
                            try:
                                alt(n)
                            except Infeasible:
                                continue
                            work.append(n)
                        break
                    if r == 'done':
                        yield 'done', s, s.env.get('result')
                        base = self.steps
                        break
            except Sync as sy:
                yield 'sync', s, sy
                base = self.steps
            except Panic as p:
                yield 'panic', s, (p.msg, p.where or self.where(s))
                base = self.steps
            except Infeasible:
                continue
            except Unmodelled as u:
                if not hasattr(u, 'stack'):
                    u.stack = stack_of(s)
                raise
            except (TypeError, AttributeError, IndexError, KeyError, ValueError) as e:
                import traceback
                u = Unmodelled('internal %r %s' % (e, traceback.format_exc(limit=-4)))
                u.stack = stack_of(s)
                raise u


def stack_of(st):
    return ['%s bb%d:%d' % (f.fn['name'][:160], f.bb, f.ip) for f in st.frames]


def r_shift(I, v, bits, sg):
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


def no_intrinsic(I, st, a, fn):
    raise Unmodelled('intrinsic %s' % fn['intr'])


FAILS = {'unwrap_failed', 'expect_failed', 'slice_index_fail', 'slice_start_index_len_fail', 'slice_end_index_len_fail',
         'slice_index_order_fail', 'slice_error_fail', 'len_mismatch_fail', 'capacity_overflow', 'handle_error', 'handle_alloc_error',
         'assert_failed', 'assert_failed_inner', 'swap_remove_assert_failed', 'remove_assert_failed', 'insert_assert_failed', 'assert_failed_matches'}


def nat_panic(I, st, a, fn):
    msg = ''
    for x in a:
        if isinstance(x, StrV):
            msg = ''.join(chr(c) for c in x.s if isinstance(c, int))
        if isinstance(x, Agg):
            msg = repr(x)[:120]
    raise Panic(msg or fn['name'], I.where(st))


def relf(p):
    i = p.find('nanvm')
    return p[i:] if i >= 0 else p


def short(n):
    import re
    n = n.replace('nanvm_lib::', '')
    n = re.sub(r'<[^<>]*>', '', n)
    return n[:120]
