"""Product exploration: abstract implementation state x reference automaton state.

The implementation (monomorphic MIR) is run from one environment query ("sync point") to
the next for every input class; the reference automaton is stepped on the same class; the
outputs are compared; the resulting pair is canonicalised (dead locals dropped, frames,
heap cells and atoms renamed, registers shared by both sides abstracted) and memoised
until no new pair appears.
"""
import time
from .val import *
from .interp import Split, Sync, Panic, Infeasible, Unmodelled, State, Frame, short


# ------------------------------------------------------------------ MIR liveness
def _uses(o, acc):
    if isinstance(o, list) and o and o[0] in ('cp', 'mv'):
        place_use(o[1], acc)


def place_use(pl, acc):
    acc.add(pl[0])
    for e in pl[1]:
        if isinstance(e, list) and e[0] == 'i':
            acc.add(e[1])


def rv_uses(r, acc):
    k = r[0]
    if k in ('ref', 'addr', 'discr', 'len'):
        place_use(r[1], acc)
    elif k == 'use' or k == 'rep':
        _uses(r[1], acc)
    elif k in ('bin', 'cbin'):
        _uses(r[2], acc)
        _uses(r[3], acc)
    elif k == 'un' or k == 'cast':
        _uses(r[2], acc)
    elif k == 'agg':
        for o in r[5]:
            _uses(o, acc)


def stmt_flow(s, live):
    k = s[0]
    if k == '=':
        if not s[1][1]:
            live.discard(s[1][0])
        else:
            place_use(s[1], live)
        rv_uses(s[2], live)
    elif k in ('sl', 'dead'):
        live.discard(s[1])
    elif k == 'sd':
        place_use(s[1], live)
    elif k == 'cno':
        for o in s[1:4]:
            _uses(o, live)


def term_succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


def term_flow(t, live):
    k = t[0]
    if k == 'sw':
        _uses(t[1], live)
    elif k == 'drop':
        place_use(t[1], live)
    elif k == 'call':
        if not t[3][1]:
            live.discard(t[3][0])
        else:
            place_use(t[3], live)
        for o in t[2]:
            _uses(o, live)
        if isinstance(t[1], dict) and 'op' in t[1]:
            _uses(t[1]['op'], live)
    elif k == 'assert':
        _uses(t[1], live)
    elif k == 'ret':
        live.add(0)


def live_in(fn):
    """per block: set of locals live at entry (drops are not uses when drop is a no-op)"""
    r = fn.get('_live')
    if r is not None:
        return r
    n = len(fn['blocks'])
    r = [frozenset() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            st, t, _ = fn['blocks'][b]
            live = set()
            for s in term_succ(t):
                if s is not None and s >= 0:
                    live |= r[s]
            if t[0] == 'drop':
                pass
            else:
                term_flow(t, live)
            for s in reversed(st):
                stmt_flow(s, live)
            f = frozenset(live)
            if f != r[b]:
                r[b] = f
                ch = True
    fn['_live'] = r
    return r


def frame_live(fr, top):
    fn = fr.fn
    li = live_in(fn)
    st, t, _ = fn['blocks'][fr.bb]
    live = set()
    if top:
        for s in term_succ(t):
            if s is not None and s >= 0:
                live |= li[s]
        if t[0] != 'drop':
            term_flow(t, live)
        for s in reversed(st[fr.ip:]):
            stmt_flow(s, live)
    else:
        if t[0] == 'call':
            if t[4] is not None:
                live |= li[t[4]]
            if not t[3][1]:
                live.discard(t[3][0])
            else:
                place_use(t[3], live)
        else:
            for s in term_succ(t):
                if s is not None and s >= 0:
                    live |= li[s]
    return live


# ------------------------------------------------------------------ canonicalisation
class Canon:
    def __init__(self, I, st, regs):
        """regs: list of (kind, name, value, dom) with kind 'str' | 'num'"""
        self.I = I
        self.st = st
        self.amap = {}
        self.hmap = {}
        self.locs = {}
        self.queue = []
        self.strs = []
        self.nums = []
        self.new = State()
        self.fidx = {f.uid: i for i, f in enumerate(st.frames)}
        for kind, name, val, dom in regs:
            if isinstance(val, Lin):
                val = self.norm(val)
            if kind == 'str':
                if val:
                    self.strs.append((tuple(self.norm(c) for c in val), (('S', name),)))
            elif isinstance(val, Lin) or dom == 'force' or (isinstance(dom, tuple) and dom and dom[0] == 'force'):
                self.nums.append((val, name))
        self.strs.sort(key=lambda x: -len(x[0]))
        for val, name in self.nums:
            self.new.dom[((('reg', name), 1),)] = None
        self.segs = set(s[1][0] for s in self.strs)
        self.numnames = set(n for _, n in self.nums)
        self.nonums = not any(isinstance(v, int) for v, _ in self.nums)
        self.raw = set()

    # --- terms
    def term(self, t):
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[1], int) and isinstance(t[0], str) and t[0][:1] == '~':
                n = self.amap.get(t)
                if n is None:
                    n = (t[0], len(self.amap) + 1)
                    self.amap[t] = n
                return n
            if len(t) == 2 and t[0] == 'reg':
                if t[1] in self.numnames:   # a stale copy of a register
                    n = self.amap.get(t)
                    if n is None:
                        n = ('~old' + t[1], len(self.amap) + 1)
                        self.amap[t] = n
                    return n
                return t
            return tuple(self.term(x) for x in t)
        if isinstance(t, (str, int, bool)) or t is None:
            return t
        return self.val(t)

    def norm(self, l):
        if isinstance(l, Lin):
            d = self.I.dom_of(self.st, l)
            if len(d) == 1 and d[0][0] == d[0][1]:
                return int(d[0][0])
        return l

    def lin(self, l):
        l = self.norm(l)
        if isinstance(l, int):
            return l
        for val, name in self.nums:
            if isinstance(val, Lin) and len(val.t) == len(l.t):
                k = None
                ok_ = True
                for (t1, c1), (t2, c2) in zip(l.t, val.t):
                    if t1 != t2 or c1 % c2:
                        ok_ = False
                        break
                    q = c1 // c2
                    if k is None:
                        k = q
                    elif k != q:
                        ok_ = False
                        break
                if ok_:
                    return lin_add(l.c - k * val.c, lin_mul(atom(('reg', name)), k))
        r = l.c
        for t, k in l.t:
            self.raw.add(t)
            r = lin_add(r, lin_mul(atom(self.term(t)), k))
        return r

    def chars(self, s):
        """string contents"""
        s = tuple(self.norm(c) for c in s)
        for val, seg in self.strs:
            if len(s) >= len(val) and s[:len(val)] == val:
                return seg + self.chars_plain(s[len(val):])
        return self.chars_plain(s)

    def chars_plain(self, s):
        o = []
        for c in s:
            if isinstance(c, Lin):
                o.append(self.lin(c))
            elif isinstance(c, tuple):
                o.append(self.seg(c))
            else:
                o.append(c)
        return tuple(o)

    def seg(self, c):
        if c[0] != 'S':
            return self.term(c)
        if c in self.segs:   # a stale copy of a register
            return ('S', ('old', c[1]))
        if isinstance(c[1], tuple) and c[1][0] == 'old' and ('S', c[1][1]) in self.segs:
            raise Unmodelled('two stale generations of string register %s' % (c[1][1],))
        return c

    def val(self, v):
        t = type(v)
        if (t is Agg or t is VecV) and self.nonums and ground(v):
            return INTERN.setdefault(v, v)
        if t is int or v is None or v is MOVED or t is bool or t is str:
            if t is int:
                for val, name in self.nums:
                    if isinstance(val, int) and abs(v) == abs(val):
                        k = 1 if v == val else -1
                        return lin_mul(atom(('reg', name)), k)
            return None if v is MOVED else v
        if t is Lin:
            return self.lin(v)
        if t is Agg:
            return Agg(v.v, tuple(self.val(x) for x in v.f))
        if t is VecV:
            return VecV(tuple(self.val(x) for x in v.e), min(v.drained, 1), v.kind)
        if t is StrV:
            return StrV(self.chars(v.s), min(v.drained, 1))
        if t is FloatV or t is FnV:
            return v
        if t is Opq:
            return Opq(self.term(v.t))
        if t is Ptr:
            return Ptr(self.base(v.b), v.p)
        if t is SliceP:
            return SliceP(self.val(v.ptr), v.s, v.n)
        if t is ItV:
            if v.k == 'chars':
                return ItV(v.k, self.chars_plain(v.a))
            return ItV(v.k, self.tup(v.a))
        if t is MapV:
            return MapV(self.tup(v.e), v.k)
        if t is tuple:
            return self.tup(v)
        raise Unmodelled('canon %r' % (v,))

    def tup(self, a):
        if isinstance(a, tuple):
            if len(a) == 2 and a[0] == 'S':
                return a
            return tuple(self.tup(x) for x in a)
        if isinstance(a, (int, str)) or a is None:
            return a
        return self.val(a)

    def base(self, b):
        if b[0] == 'l':
            i = self.fidx.get(b[1])
            if i is None:
                return ('dangling',)
            if (i, b[2]) not in self.locs:
                self.locs[(i, b[2])] = None
                self.queue.append(('l', i, b[2]))
            return ('l', i, b[2])
        if b[0] == 'h':
            n = self.hmap.get(b[1])
            if n is None:
                n = len(self.hmap) + 1
                self.hmap[b[1]] = n
                self.queue.append(('h', b[1], n))
            return ('h', n)
        if b[0] == 'c':
            return ('c', ConstBox(self.val(b[1].v)))
        return b

    def run(self):
        st, new = self.st, self.new
        top = len(st.frames) - 1
        for i, fr in enumerate(st.frames):
            for l in sorted(frame_live(fr, i == top)):
                if (i, l) not in self.locs:
                    self.locs[(i, l)] = None
                    self.queue.append(('l', i, l))
        vals = {}
        qi = 0
        while qi < len(self.queue):
            q = self.queue[qi]
            qi += 1
            if q[0] == 'l':
                vals[('l', q[1], q[2])] = self.val(st.frames[q[1]].loc[q[2]])
            else:
                vals[('h', q[2])] = self.val(st.heap[q[1]])
        for k, v in st.heap.items():
            if isinstance(k, tuple):
                new.heap[k] = self.val(v)
        for i, fr in enumerate(st.frames):
            f = Frame(fr.fn, i, len(fr.loc))
            f.bb, f.ip, f.ret, f.tgt = fr.bb, fr.ip, fr.ret, fr.tgt
            new.frames.append(f)
            new.byuid[i] = f
        for k, v in vals.items():
            if k[0] == 'l':
                new.frames[k[1]].loc[k[2]] = v
            else:
                new.heap[k[1]] = v
        new.nuid = len(st.frames)
        new.nheap = len(self.hmap)
        new.env = {k: self.val(v) if isinstance(v, (Agg, VecV, StrV, Lin, tuple)) else v for k, v in st.env.items()}
        return vals

    def finish(self, vals, extra):
        """domains and facts restricted to surviving atoms; returns (key, state)"""
        st, new = self.st, self.new
        dom = {}
        raw = set(self.raw)
        for k, d in st.dom.items():
            if all(t in raw for t, _ in k):
                l = self.lin(Lin(0, k))
                if isinstance(l, Lin):
                    c = l.c
                    dom[l.t] = tuple((a - c, b - c) for a, b in d) if c else d
        new.dom = {k: v for k, v in new.dom.items() if v is not None}
        for k, v in dom.items():
            if not any(t[0] == 'reg' for t, _ in k):
                new.dom[k] = v
        fs = {}
        for k, v in st.facts.items():
            if self.fact_alive(k):
                fs[self.term(k)] = v
        new.facts = fs
        new.natom = len(self.amap) + 1
        # top-level key
        fk = tuple((f.fn['idx'], f.bb, f.ip) for f in new.frames)
        vk = tuple(sorted(((k, v) for k, v in vals.items()), key=lambda x: x[0]))
        dk = frozenset(new.dom.items())
        ffk = frozenset(fs.items())
        ek = tuple(sorted(((k, v) for k, v in new.env.items()), key=lambda x: x[0]))
        return (fk, vk, dk, ffk, ek, extra), new

    def alive(self, t):
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[1], int) and isinstance(t[0], str) and t[0][:1] == '~':
                return t in self.amap
            if len(t) == 2 and t[0] == 'reg':
                return t in self.amap or t in self.raw
            if len(t) == 2 and t[0] == 'S':
                return True
            return all(self.alive(x) for x in t)
        if isinstance(t, Lin):
            return all(self.alive(x) for x, _ in t.t)
        if isinstance(t, Opq):
            return self.alive(t.t)
        if isinstance(t, Agg):
            return all(self.alive(x) for x in t.f)
        return True

    def fact_alive(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'minlen':
            return False
        return self.alive(k) and not self.mentions_seg(k)

    def mentions_seg(self, k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'S':
                return True
            return any(self.mentions_seg(x) for x in k)
        return False


class Node:
    __slots__ = ('st', 'rs', 'pend', 'parent', 'label', 'kinds', 'hist', 'suspect')

    def __init__(self, st, rs, pend, parent, label, kinds):
        self.st = st
        self.rs = rs
        self.pend = pend
        self.parent = parent
        self.label = label
        self.kinds = kinds
        self.hist = frozenset()
        self.suspect = None


class Mismatch:
    def __init__(self, what, node, label, kinds, site, calls):
        self.what = what
        self.node = node
        self.label = label
        self.kinds = kinds
        self.site = site
        self.calls = calls

    def path(self):
        p = [self.label]
        n = self.node
        while n is not None and n.label is not None:
            p.append(n.label)
            n = n.parent
        return list(reversed(p))


class Product:
    """client interface (ref):
         ref.inputs(st, rs)        -> list of (label, prepare(st)->None, input)
         ref.step(ctx, st, rs, inp)-> (rs', outputs, kinds)     may raise Split
         ref.regs(rs)              -> [(kind,name,value,dom)]
         ref.rename(rs, canon)     -> rs'
         ref.collect(I, st)        -> list of outputs produced since the last sync (drains)
         ref.finish(I, st, result) -> remaining outputs at completion
         ref.equal(I, st, exp, act)-> True / False (may raise Split)
         ref.final(rs)             -> True if completion is allowed now
         ref.boundary(rs)          -> True when attribution kinds restart
    """

    def __init__(self, I, ref, limit=200000):
        self.I = I
        self.ref = ref
        self.seen = {}
        self.mism = []
        self.panics = []
        self.transitions = 0
        self.limit = limit
        self.done = 0
        self.samples = []
        self.unmod = []
        self.normal = set()     # implementation states seen at a boundary through base constructs only

    def covered(self):
        F = self.I.F
        return set('%s (%s:%s)' % (short(F.fns[i]['name']), F.fns[i]['file'].split('/repo/')[-1], F.fns[i]['line']) for i in self.I.visited
                   if F.fns[i]['crate'] in ('nanvm_lib', 'nanvm'))

    def explore(self, st0, rs0):
        return self.start(st0, rs0, [])

    def start(self, st0, rs0, outs):
        work = Work()
        root = Node(None, rs0, ((), ()), None, None, frozenset())
        self.advance(root, st0, rs0, outs, ((), ()), None, frozenset(), work)
        prune = getattr(self.ref, 'prune', None)
        first = None
        while work:
            n = work.pop()
            for label, prep, inp in self.ref.inputs(n.st, n.rs):
                s = n.st.clone()
                x = prep(s)
                if x is not None:
                    inp = x
                todo = [s]
                while todo:
                    s = todo.pop()
                    base = s.clone()
                    try:
                        rs, outs, kinds = self.ref.step(self.I, s, n.rs, inp)
                    except Split as sp:
                        for alt in sp.alts:
                            b = base.clone()
                            try:
                                alt(b)
                            except Infeasible:
                                continue
                            todo.append(b)
                        continue
                    except Infeasible:
                        continue
                    if prune is not None and prune(rs):
                        continue
                    lab = self.ref.label(self.I, s, inp, label)
                    ks = (frozenset() if self.ref.boundary(n.rs) else n.kinds) | frozenset(kinds)
                    s.env.pop('calls', None)
                    self.advance(n, s, rs, outs, n.pend, lab, ks, work)
            if len(self.mism) > 3000:
                break
            if self.mism or self.panics:
                # something is wrong already: some time for further findings is enough
                first = first or time.time()
                if time.time() - first > 150:
                    break
            if len(self.seen) > self.limit:
                raise Unmodelled('state space limit')
        return self

    def advance(self, parent, st, rs, outs, pend, label, kinds, work):
        try:
            self.advance1(parent, st, rs, outs, pend, label, kinds, work)
        except Unmodelled as u:
            if self.ref.fatal(u):
                raise
            self.unmod.append(Mismatch('not analysable: %s' % u, parent, label, self.ref.state_kind(parent.rs, rs), getattr(u, 'site', ''), getattr(u, 'stack', [])))
            if len(self.unmod) > 50:
                raise

    def advance1(self, parent, st, rs, outs, pend, label, kinds, work):
        I, ref = self.I, self.ref
        for status, s, info in I.run(st):
            self.transitions += 1
            if status == 'panic':
                if not ref.panic_ok(I, s, info):
                    self.panics.append(Mismatch('panic: %s' % info[0], parent, label, ref.state_kind(parent.rs, rs), info[1], I.calls_of(s)))
                continue
            try:
                if status == 'sync':
                    act = ref.collect(I, s)
                else:
                    self.done += 1
                    act = ref.collect(I, s) + ref.finish(I, s, info)
            except Mis as m:
                self.mism.append(Mismatch(m.args[0], parent, label, kinds, I.site(s), I.calls_of(s)))
                continue
            exp = list(pend[0]) + list(outs)
            act = list(pend[1]) + act
            # compare; equalities may split the state
            todo = [(s, exp, act)]
            while todo:
                s, e, a = todo.pop()
                bad = None
                snap = s.clone()
                try:
                    while e and a:
                        if not ref.equal(I, s, e[0], a[0]):
                            bad = 'expected %s, got %s' % (ref.show(e[0]), ref.show(a[0]))
                            break
                        e, a = e[1:], a[1:]
                except Split as sp:
                    for alt in sp.alts:
                        b = snap.clone()
                        try:
                            alt(b)
                        except Infeasible:
                            continue
                        todo.append((b, e, a))
                    continue
                except Infeasible:
                    continue
                if bad is None and status == 'done':
                    if not ref.final(rs):
                        bad = 'finished before the end of its input'
                    elif e:
                        bad = 'missing output %s' % ref.show(e[0])
                    elif a:
                        bad = 'unexpected output %s' % ref.show(a[0])
                if bad is None and status == 'sync':
                    if len(e) > ref.maxlag:
                        bad = 'missing output %s' % ref.show(e[0])
                    elif len(a) > ref.maxlead:
                        bad = 'unexpected output %s' % ref.show(a[0])
                    elif not (ref.sync_ok(rs, info.kind) if hasattr(ref, 'sync_ok') else info.kind == ref.sync_kind):
                        bad = 'unexpected query %s' % info.kind
                if bad is not None:
                    self.mism.append(Mismatch(bad, parent, label, parent.suspect or ref.blame(parent.rs, rs, e, a), I.site(s), I.calls_of(s)))
                    continue
                if status == 'sync':
                    s.env.pop('calls', None)
                    c = getattr(ref, 'canon', Canon)(I, s, ref.regs(rs))
                    vals = c.run()
                    rs2 = ref.rename(rs, c)
                    p2 = (tuple(ref.rename_out(x, c) for x in e), tuple(ref.rename_out(x, c) for x in a))
                    for kind, name, val, d in ref.regs(rs):
                        if kind == 'num' and any(nm == name for _, nm in c.nums):
                            dd = d[1] if isinstance(d, tuple) and d and d[0] == 'force' else d
                            if dd is None:
                                dd = I.dom_of(s, val)
                            c.new.dom[((('reg', name), 1),)] = dd
                    for sv, sg in c.strs:
                        c.new.facts[('minlen', sg[0])] = 1
                    key, ns = c.finish(vals, (rs2, p2))
                    for sv, sg in c.strs:
                        ns.facts[('minlen', sg[0])] = 1
                    if key in self.seen:
                        continue
                    self.seen[key] = True
                    n = Node(ns, rs2, p2, parent if label is not None else None, label, kinds)
                    n.parent = parent
                    n.hist = parent.hist | kinds
                    if ref.boundary(rs2):
                        base = n.hist <= ref.base_kinds
                        ik = (key[0], key[1], key[4])
                        if base:
                            self.normal.add(ik)
                        elif ik not in self.normal:
                            n.suspect = parent.suspect or kinds
                    else:
                        n.suspect = parent.suspect
                    if len(self.samples) < 12 and len(self.seen) % 17 == 1:
                        m = Mismatch('', parent, label, kinds, '', ())
                        self.samples.append({'path': ''.join(str(x) for x in m.path() if x), 'reference_state': str(rs2)[:80]})
                    (work.a if n.hist <= ref.base_kinds else work.b).append(n)


class Work:
    """two stacks: paths through the base constructs only are explored first"""

    def __init__(self):
        self.a = []
        self.b = []

    def __bool__(self):
        return bool(self.a or self.b)

    def pop(self):
        return self.a.pop() if self.a else self.b.pop()


class Mis(Exception):
    pass
