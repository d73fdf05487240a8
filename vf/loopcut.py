"""Inductive treatment of the main loop of a long division.

At the head of an outermost loop the local vectors (x, y) with  A = x * b + y  are looked
for, A and b being the values of dividend and divisor.  Once the loop has come back to its
head with only such a pair changed, the pair is replaced by arbitrary canonical limbs (the
invariant) and the loop is left to run once more: every path that comes back has to keep the
invariant and to decrease y, every path that leaves has to satisfy the post-condition with
A = x * b + y.  All dividends, and all numbers of iterations, are covered by one iteration."""
from .val import *
from .interp import Infeasible, Split
from .instance import Instances
from .product import frame_live, term_succ

CRATE = 'nanvm_lib'


def headers(fn):
    """heads of the loops that are not nested in another loop"""
    r = fn.get('_heads')
    if r is not None:
        return r
    B = fn['blocks']
    heads, state = set(), {}
    stack = [(0, iter(term_succ(B[0][1])))]
    state[0] = 1
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            if s is None or s < 0:
                continue
            if state.get(s) == 1:
                back.append((b, s))
            elif s not in state:
                state[s] = 1
                stack.append((s, iter(term_succ(B[s][1]))))
                break
        else:
            state[b] = 2
            stack.pop()
    pred = {}
    for b in state:
        for s in term_succ(B[b][1]):
            if s is not None and s >= 0:
                pred.setdefault(s, []).append(b)
    bodies = {}
    for t, h in back:
        body = bodies.setdefault(h, {h})
        w = [t]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w += pred.get(x, [])
    heads = frozenset(h for h in bodies if not any(h in o and g != h for g, o in bodies.items()))
    fn['_heads'] = heads
    return heads


def vectors(v, p=()):
    """places of the word vectors inside a value"""
    if type(v) is VecV:
        yield p, v
    elif type(v) is Agg:
        for i, x in enumerate(v.f):
            yield from vectors(x, p + (i,))


def put(v, p, new):
    if not p:
        return VecV(new)
    f = list(v.f)
    f[p[0]] = put(f[p[0]], p[1:], new)
    return Agg(v.v, tuple(f))


def limbv(e):
    return all(isinstance(x, (int, Lin)) for x in e)


class Snap:
    __slots__ = ('st', 'live', 'done', 'pair', 'ge')


class Cut:
    """attached to the interpreter as I.cut"""

    def __init__(self, b, na, check, only=None):
        self.only = only        # the numbers of limbs to start from; all if None
        self.b = b              # limbs of the divisor
        self.bv = sum_limbs(b)
        self.na = na
        self.snaps = []
        self.used = 0           # loops treated inductively
        self.kept = 0           # paths that keep the invariant
        self.lost = []          # reasons why a path did not
        self.check = check
        self.valid = True
        self.open = 0           # paths that neither keep it nor break it for certain
        self.later = []         # paths that come back without an invariant

    def rest(self):
        for s, n in self.later:
            if not s.done:
                yield n

    def vecs(self, st):
        for fi, fr in enumerate(st.frames):
            for li, v in enumerate(fr.loc):
                for p, x in vectors(v):
                    if limbv(x.e):
                        yield (fi, li, p), tuple(x.e)

    def holds(self, I, st, x, y):
        A = st.env.get('A')
        d = lin_add(A, lin_add(I.mul(sum_limbs(x), self.bv), sum_limbs(y)), -1)
        return I.is_zero(st, d)

    def below(self, I, st, lo, hi, gap=1):
        """hi - lo >= gap is shown"""
        d = lin_add(hi, lo, -1)
        if not isinstance(d, Lin):
            return d >= gap
        r = I.reduce(st, d)
        for x in (d, I.subst(st, d)):
            for deep in (0, 1, 2):
                if I.bounds(st, x, deep)[0] >= gap:
                    return True
        return False

    def at_header(self, I, st, fr):
        key = (fr.uid, fr.bb)
        if st.env.get('skip') and key in st.env['skip']:
            return
        cur = st.env.get('snap')
        if cur is not None:
            s = self.snaps[cur]
            if s.st.frames[-1].uid != fr.uid or s.st.frames[-1].bb != fr.bb:
                return          # another loop inside
            self.again(I, st, fr, cur, s)
            return
        if len(st.env.get('loops', ())) > 3:
            return
        s = Snap()
        vs = list(self.vecs(st))
        if not any(self.holds(I, st, x, y) for _, x in vs for _, y in vs if len(x) <= self.na):
            st.env['skip'] = st.env.get('skip', frozenset()) | {key}
            return
        s.st = st.clone()
        s.done = False
        s.pair = None
        self.snaps.append(s)
        st.env['snap'] = len(self.snaps) - 1

    def again(self, I, st, fr, cur, s):
        old = s.st
        if len(st.frames) != len(old.frames):
            self.forget(st, fr)
            return
        place = st.env.get('pair')
        changed = []
        for fi, (f, g) in enumerate(zip(st.frames, old.frames)):
            live = set(range(len(f.loc))) if fi < len(st.frames) - 1 else reach(st, f, True)
            for li in live:
                if f.loc[li] != g.loc[li]:
                    vs = list(vectors(f.loc[li]))
                    ok = False
                    if vs:
                        v = f.loc[li]
                        for p, x in vs:
                            o = at(g.loc[li], p)
                            if type(o) is VecV and o.e != x.e:
                                changed.append((fi, li, p))
                                v = put(v, p, o.e)
                        ok = same_value(v, g.loc[li])
                    if not ok:
                        if place is not None:
                            self.lost.append('something else changes in the loop')
                            raise Infeasible()
                        self.forget(st, fr)
                        return
        if place is None:
            vs = dict(self.vecs(st))
            ov = dict(self.vecs(old))
            pair = None
            for x in vs:
                for y in vs:
                    if x != y and set(changed) <= {x, y} and x in ov and y in ov and y in changed and \
                            self.holds(I, st, vs[x], vs[y]) and self.holds(I, old.clone(), ov[x], ov[y]):
                        pair = (x, y)
            if s.done or pair is None or not self.canonical(I, st, vs[pair[0]]) or not self.canonical(I, st, vs[pair[1]]):
                if not s.done:
                    n = st.clone()
                    self.forget(n, n.frames[-1])
                    self.later.append((s, n))
                raise Infeasible()      # covered by the general iteration, if there is one
            s.done = True
            s.pair = pair
            self.used += 1
            alts = []
            for nx in range(0, self.na + 1):
                for ny in range(0, self.na + 1):
                    if nx and nx - 1 + len(self.b) - 1 >= self.na:
                        continue
                    if self.only is not None and (nx, ny) != self.only:
                        continue
                    alts.append(self.general(s, cur, nx, ny))
            raise Split(alts)
        # the general iteration is over
        x = at(st.frames[place[0][0]].loc[place[0][1]], place[0][2])
        y = at(st.frames[place[1][0]].loc[place[1][1]], place[1][2])
        oy = at(old.frames[place[1][0]].loc[place[1][1]], place[1][2])
        if type(x) is not VecV or type(y) is not VecV:
            self.lost.append('a vector is lost')
            raise Infeasible()
        x, y = tuple(x.e), tuple(y.e)
        why = None
        if not self.holds(I, st, x, y):
            why = 'an iteration does not keep dividend = quotient * divisor + remainder'
        elif not self.below(I, st, sum_limbs(y), st.env['y']):
            why = 'an iteration is not shown to decrease the remainder'
        elif not self.canonical(I, st, x) or not self.canonical(I, st, y):
            self.valid = False      # another invariant: nothing is claimed about this loop
            raise Infeasible()
        elif any(c not in place for c in changed):
            self.valid = False      # likewise
            raise Infeasible()
        if why:
            if not getattr(st, 'tight', False):
                I.tighten(st)       # Infeasible if the path is contradictory
                st.tight = True
                return self.again(I, st, fr, cur, s)
            if not self.confirmed(I, st, x, y):
                self.open += 1
            else:
                self.check(why)
        else:
            self.kept += 1
        raise Infeasible()

    def confirmed(self, I, st, x, y):
        """the invariant is broken, or the remainder not decreased, for an instance of the path"""
        A, v0 = st.env['A'], st.env['y']
        xv, yv = sum_limbs(x), sum_limbs(y)
        J = Instances(I, st, [A, v0, xv, yv, self.bv])
        for e in J.find():
            v = dict(zip(J.free, e))
            if J.lin(v, A) != J.lin(v, xv) * J.lin(v, self.bv) + J.lin(v, yv) or J.lin(v, yv) >= J.lin(v, v0):
                return True
        return False

    def canonical(self, I, st, e):
        if not e:
            return True
        x = I.subst(st, e[-1])
        if not isinstance(x, Lin):
            return x != 0
        return any(not iv_and(I.dom_of(st, x, deep), ((0, 0),)) for deep in (0, 1, 2))

    def forget(self, st, fr):
        """unroll this loop"""
        st.env['skip'] = st.env.get('skip', frozenset()) | {(fr.uid, fr.bb)}
        st.env.pop('snap', None)

    def general(self, s, cur, nx, ny):
        def alt(n):
            o = s.st
            n.frames = [f.clone() for f in o.frames]
            n.byuid = {f.uid: f for f in n.frames}
            n.heap, n.dom, n.facts, n.env = dict(o.heap), dict(o.dom), dict(o.facts), dict(o.env)
            n.nuid, n.nheap, n.script, n.spos, n.out = o.nuid, o.nheap, (), 0, o.out
            r = []
            for name, k, place in (('x', nx, s.pair[0]), ('y', ny, s.pair[1])):
                e = []
                for i in range(k):
                    t = ('limb', name, i)
                    n.dom[((t, 1),)] = ((1 if i == k - 1 else 0, (1 << 64) - 1),)
                    e.append(atom(t))
                f = n.frames[place[0]]
                f.loc[place[1]] = put(f.loc[place[1]], place[2], tuple(e))
                r.append(sum_limbs(e))
            n.env['A'] = lin_add(self.I.mul(r[0], self.bv), r[1])
            n.env['y'] = r[1]
            n.env['pair'] = s.pair
            n.env['snap'] = cur
            n.env['athead'] = (n.frames[-1].uid, n.frames[-1].bb)
        return alt


def sum_limbs(e):
    r = 0
    for i, x in enumerate(e):
        r = lin_add(r, lin_mul(x, 1 << (64 * i)))
    return r


def at(v, p):
    for i in p:
        if type(v) is not Agg or i >= len(v.f):
            return None
        v = v.f[i]
    return v


def same_value(a, b):
    return a == b


def reach(st, fr, top):
    """live locals of the frame, and those that live values of any frame point to"""
    live = set(frame_live(fr, top))
    todo = [fr.loc[i] for i in live]
    for f in st.frames:
        if f is not fr:
            todo += f.loc
    seen = set()
    while todo:
        v = todo.pop()
        if type(v) is Ptr:
            b = v.b
            if b[0] == 'l' and b[1] == fr.uid and b[2] not in live:
                live.add(b[2])
                todo.append(fr.loc[b[2]])
        elif type(v) is SliceP:
            todo.append(v.ptr)
        elif type(v) is Agg:
            todo += list(v.f)
        elif type(v) is VecV:
            todo += [x for x in v.e if not isinstance(x, (int, Lin))]
        elif type(v) is Opq:
            todo += [x for x in v.t if isinstance(x, (Agg, Ptr, SliceP, VecV))]
    return live
