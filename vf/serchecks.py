"""S01..S05: the serializers on uninterpreted values of every bounded shape."""
import itertools
import multiprocessing
import sys
from . import ser
from .val import *
from .interp import State, Unmodelled, Panic
from .ser import Reader, Bad, any_of, UNITDOM, WORD
from .report import Result
from .tokchecks import TRUST

LETTER = ((65, 90), (97, 122))


# ------------------------------------------------------------------ shapes
def build(st, shape):
    """shape: (root, nodes) with nodes = ((kind, children), ...); a child is a node number or
    a leaf letter"""
    root, nodes = shape
    st.env['n'] = 1000
    memo = {}

    def fresh():
        st.env['n'] += 1
        return st.env['n']

    def word(n, dom=LETTER):
        return ('str', fresh(), tuple(st.fresh('~u', dom) for _ in range(n)))

    def leaf(c):
        if c == 'n':
            return ('null',)
        if c in 'tf':
            return ('bool', int(c == 't'))
        if c == 'i':
            return ('num', 'fin', fresh())
        if c in 'xy':
            return ('num', 'inf' if c == 'x' else 'nan', fresh())
        if c in '012':
            return word(int(c))
        if c in '789':
            return word(int(c) - 6, UNITDOM)
        if c == 'b':
            return ('big', fresh(), 'Positive', (st.fresh('~l', ((1, 9),)),))
        raise AssertionError(c)

    def node(i):
        if isinstance(i, str):
            return leaf(i)
        if i not in memo:
            k, ch = nodes[i]
            if k == 'a':
                memo[i] = ('arr', i, tuple(node(c) for c in ch))
            else:
                kn = 1 if len(k) == 1 else int(k[1])
                # the names of a 'p' have 0, 1, 2.. characters
                memo[i] = ('obj', i, tuple((word(j if k == 'p' else kn % 6, LETTER if kn < 6 else UNITDOM), node(c)) for j, c in enumerate(ch)))
        return memo[i]
    return node(root)


LEAVES = 'ntfixy01b'


def trees(n, leaves=LEAVES, kinds='ao'):
    """every tree with exactly n nodes, as nested tuples"""
    if n == 1:
        yield from leaves
    for k in kinds:
        for ch in forests(n - 1, leaves, kinds):
            yield (k, ch)


def forests(n, leaves, kinds):
    if n == 0:
        yield ()
        return
    for m in range(1, n + 1):
        for t in trees(m, leaves, kinds):
            for r in forests(n - m, leaves, kinds):
                yield (t,) + r


def flat(t):
    nodes = []

    def f(t):
        if isinstance(t, str):
            return t
        i = len(nodes)
        nodes.append(None)
        nodes[i] = (t[0], tuple(f(c) for c in t[1]))
        return i
    r = f(t)
    return (r, tuple(nodes))


def dags(m, width, kinds, leaves='i'):
    """compounds 0..m-1, all reachable from 0, children point forward"""
    def children(i):
        opts = list(leaves) + list(range(i + 1, m))
        for w in range(width + 1):
            yield from itertools.product(opts, repeat=w)
    for ks in kinds(m):
        for ch in itertools.product(*[children(i) for i in range(m)]):
            seen = {0}
            for i in range(m):
                if i in seen:
                    seen |= {c for c in ch[i] if isinstance(c, int)}
            if len(seen) < m:
                continue
            # number the compounds in the order in which they are first met
            first = []
            st = [0]
            while st:
                i = st.pop()
                if i in first:
                    continue
                first.append(i)
                st += [c for c in reversed(ch[i]) if isinstance(c, int)]
            yield (0, tuple(zip(ks, ch)))


def large(w):
    """long lists, deep nesting, many constants; one iteration order of hash maps"""
    for n in range(4, w + 1):
        for k in 'ap':
            yield (0, ((k, tuple('ntfi01'[j % 6] for j in range(n))),))
            yield (0, ((k, ('i',) * n),))
            # a chain: every level holds the next one and a leaf
            yield (0, tuple((k, (i + 1, '1') if i + 1 < n else ()) for i in range(n)))
            yield (0, ((k, tuple(range(1, n + 1))),) + tuple(('ap'[j % 2], ('i',) * (j % 3)) for j in range(n)))


def shared(w):
    for n in range(4, w + 1):
        for k in 'ao':
            # every level holds the next one twice; many children held twice
            yield (0, tuple((k, (i + 1, i + 1) if i + 1 < n else ()) for i in range(n)))
            yield (0, ((k, tuple(range(1, n + 1)) * 2),) + (('a', ()),) * n)


def allk(m):
    return itertools.product('ao', repeat=m)


def somek(m):
    return [('a', 'o') * (m // 2) + ('a',) * (m % 2), ('o', 'a') * (m // 2) + ('o',) * (m % 2)]


def show_shape(shape):
    root, nodes = shape
    cnt = {}
    for k, ch in nodes:
        for c in ch:
            cnt[c] = cnt.get(c, 0) + 1
    N = {'n': 'null', 't': 'true', 'f': 'false', 'i': '1', 'x': 'Infinity', 'y': 'NaN', 'b': '1n'}
    done = set()

    def f(i):
        if isinstance(i, str):
            return N.get(i) or '"%s"' % ('c' * (int(i) if i in '012' else int(i) - 6))
        k, ch = nodes[i]
        p = '#%d=' % i if cnt.get(i, 0) > 1 else ''
        if i in done:
            return '#%d' % i
        done.add(i)
        if k == 'a':
            return p + '[' + ','.join(f(c) for c in ch) + ']'
        return p + '{' + ','.join('k:%s' % f(c) for c in ch) + '}'
    return f(root)


# ------------------------------------------------------------------ oracles
def has_big(t):
    return t[0] == 'big' or t[0] == 'arr' and any(has_big(x) for x in t[2]) or t[0] == 'obj' and any(has_big(v) for _, v in t[2])


def compounds(t, o=None):
    o = {} if o is None else o
    if t[0] in ('arr', 'obj') and t[1] not in o:
        o[t[1]] = t
        for c in t[2]:
            compounds(c if t[0] == 'arr' else c[1], o)
    return o


def check_json(I, st, t, s):
    r = Reader(I, st, s)
    r.value(t)
    r.end()


def check_djs(I, st, t, s, cjs):
    comp = compounds(t)

    def rest(pos, refs, ids):
        r = Reader(I, st, s, refs)
        r.i, r.ids = pos, dict(ids)
        if r.at('const '):
            r.lit('const _')
            n = r.number()
            if n in refs:
                raise Bad('_%d is defined twice' % n)
            r.lit('=')
            why = Bad('a constant that is no part of the value')
            for i, c in comp.items():
                if i in refs.values():
                    continue
                q = Reader(I, st, s, refs)
                q.i, q.ids = r.i, dict(ids)
                try:
                    if q.at('_'):
                        raise Bad('a constant that only names another')
                    q.value(c, True)
                    q.lit(';')
                    return rest(q.i, dict(refs, **{n: i}) if False else {**refs, n: i}, q.ids)
                except Bad as b:
                    why = b
            raise why
        r.lit('module.exports=' if cjs else 'export default ')
        r.value(t, True)
        r.end()
    rest(0, {}, {})


# steps of one path; the longest paths of the unchanged code have 33,000
MAXSTEPS = 600_000


# ------------------------------------------------------------------ one shape
def run_one(I, F, root, mk, extra, oracle, errs, writer=False, fix=False):
    """returns (paths, problem or None)"""
    st = State()
    st.env['fixed'] = fix
    t = mk(st)
    I.push(st, F.roots[root], [any_of(t)] + list(extra))
    n = 0
    I.steps, I.maxsteps = 0, MAXSTEPS
    for status, s, info in I.run(st):
        n += 1
        I.steps = 0
        if status != 'done':
            return n, '%s: %s' % (status, info[0] if status == 'panic' and type(info) is tuple else info), where(info)
        try:
            if info.v == 1:
                if writer and s.env.get('failed'):
                    continue
                if not errs(t):
                    raise Bad('the value is refused')
                continue
            if writer and s.env.get('failed'):
                raise Bad('the failure of the writer is not reported')
            if errs(t):
                raise Bad('a bigint is accepted in JSON')
            oracle(I, s, t, s.out if writer else info.f[0].s)
        except Bad as b:
            return n, str(b), root
    return n, None, ''


def where(info):
    return str(info)[-160:]


FACTS = None
INST = {}


def install_writer(I):
    N = I.nat_by_def

    def put(I, st, a, fn):
        from .natives import strv
        s = strv(I, st, a[0]).s if not isinstance(a[0], (int, Lin)) else (a[0],)
        if st.env.get('failed'):
            raise Panic('written after the writer failed', I.where(st))
        if not I.choose(st, 2, 'writer'):
            st.out = st.out + tuple(s)
            return Agg(0, (UNIT,))
        st.env['failed'] = True
        return Agg(1, (UNIT,))
    N['vroots::ser::env_put'] = put
    N['vroots::ser::env_putc'] = put


def job(x):
    """a batch of shapes for one root"""
    sys.setrecursionlimit(20000)
    root, extra, kind, shapes = x
    F = FACTS
    I = ser.make(F)
    install_writer(I)
    n = 0
    bad = []
    for sh in shapes:
        if kind == 'json':
            oracle, errs = check_json, has_big
        else:
            oracle, errs = (lambda I, s, t, o: check_djs(I, s, t, o, bool(extra[0]))), lambda t: False
        fix = sh and sh[0] == 'FIX'
        sh = sh[1] if fix else sh
        mk = lambda st: build(st, sh)
        if sh and sh[0] == 'BIG':
            mk = (lambda st: big(st, sh))
        try:
            k, why, site = run_one(I, F, root, mk, extra, oracle, errs, root.endswith('_to'), fix)
        except Unmodelled as u:
            k, why, site = 0, 'not analysable: %s' % str(u)[:300], '; '.join(list(getattr(u, 'stack', []))[-2:])
            if 'step budget' in str(u):
                bad.append((root, 'writing does not end within %d steps' % MAXSTEPS, site, show_shape(sh) if sh[0] != 'BIG' else 'a bigint'))
                break
        n += k
        if why is not None:
            bad.append((root, why, site, show_shape(sh) if sh[0] != 'BIG' else 'a bigint'))
            if len(bad) > 20:
                break
    fns = sorted(F.fns[j]['name'] for j in I.visited if F.fns[j]['crate'] == 'nanvm_lib')
    return len(shapes), n, bad, fns


def big(st, sh):
    """('BIG', sign, limb specs, wrap): a limb spec is a number or an interval"""
    _, sign, limbs, wrap = sh
    b = ('big', 1, sign, tuple(l if isinstance(l, int) else st.fresh('~l', (l,)) for l in limbs))
    if wrap == 'a':
        return ('arr', 2, (b, b))
    if wrap == 'o':
        return ('obj', 2, ((('str', 3, (107,)), b),))
    return b


M64 = (1 << 64) - 1


def bigs(tier):
    o = []
    for s in ('Positive', 'Negative'):
        o.append(('BIG', s, ((1, M64),), ''))
        o.append(('BIG', s, ((1, 99),), 'a'))
        o.append(('BIG', s, ((1, 99),), 'o'))
        for h in (1, 2, 9, 10, 0xFFFF, 1 << 63, M64):
            o.append(('BIG', s, ((0, M64), h), ''))
        o.append(('BIG', s, ((0, M64), (1, 99 if tier == 'quick' else 9999)), ''))
        o.append(('BIG', s, ((0, M64), 0, 1), ''))
        o.append(('BIG', s, (0, (0, M64), 3), '') if tier == 'thorough' else ('BIG', s, (0, 0, 1), ''))
        o.append(('BIG', s, (M64, M64, M64, M64), ''))
    o.append(('BIG', 'Positive', (), ''))
    return o


def plan(prop, tier):
    """list of (root, extra args, kind, shapes)"""
    T = tier == 'thorough'
    A = [('root_json', (), 'json'), ('root_djs', (0,), 'djs'), ('root_djs', (1,), 'djs')]
    if prop == 'S01':
        sh = [('7', ()), ('8', ()), (0, (('a', ('7', '7')),)), (0, (('o7', ('i',)),)), (0, (('o7', ('7',)),)), (0, (('o8', ('i',)),)), (0, (('o6', ('0',)),))]
        if T:
            sh += [('9', ()), (0, (('o7', ('8',)),)), (0, (('a', (1,)), ('o7', ('7', '7'))))]
        return [a + ([s],) for a in A for s in sh]
    if prop == 'S02':
        sh = [flat(t) for n in range(1, 5) for t in trees(n)]
        if T:
            sh += [flat(t) for t in trees(5)]
        sh += [flat(t) for n in (2, 3) for t in trees(n, LEAVES, 'ap')] + [flat(t) for t in trees(4, 'i01', 'ap')]
        sh += large(9 if not T else 20)
        return [A[0] + (c,) for c in chunks(sh, 48)]
    if prop == 'S03':
        sh = [d for m in (1, 2, 3) for d in dags(m, 3 if m < 3 else 2, allk)] + list(dags(3, 3, somek)) + list(dags(4, 2, somek))
        sh += [(c, ()) for c in LEAVES] + [flat(t) for n in (2, 3) for t in trees(n)]
        sh += [('FIX', d) for f in (large, shared) for d in f(12 if not T else 24)]
        if T:
            sh += list(dags(4, 2, allk)) + list(dags(5, 2, lambda m: [tuple('aoaoa')]))
        return [A[1] + (c,) for c in chunks(sh, 64)] + [A[2] + (c,) for c in chunks(sh[::7], 16)]
    if prop == 'S04':
        return [a + ([s],) for a in A[1:] for s in bigs(tier)] + [A[0] + ([('BIG', s, ((1, M64),), w)],) for s in ('Positive', 'Negative') for w in ('', 'a', 'o')]
    if prop == 'S05':
        sh = [flat(t) for n in range(1, 4 if not T else 5) for t in trees(n, 'ni1b')] + list(dags(2, 2, allk)) + list(dags(3, 2, somek))
        B = [('root_json_to', (), 'json'), ('root_djs_to', (0,), 'djs'), ('root_djs_to', (1,), 'djs')]
        return [b + (c,) for b in B for c in chunks(sh, 16)]


def chunks(l, n):
    n = min(n, len(l))
    return [l[i::n] for i in range(n)]


RULES = {
    'S01': 'Both serializers are interpreted on strings and keys of up to 2 (thorough: 3) arbitrary UTF-16 units; on every path the text between the quotes has to decode, for every value of the unit that reaches that path, to exactly that unit, and no control character, quote or backslash is left bare.',
    'S02': 'to_json is interpreted on every tree of up to 4 (thorough: 5) nodes over all kinds of values with uninterpreted payloads; the text has to be the compact JSON text of the tree, character by character, and a bigint anywhere has to be an error.',
    'S03': 'to_djs is interpreted on every tree and on every acyclic graph of up to 3 compounds with 3 children and 4 with 2, for every iteration order of its hash maps; the text is read back by a reference: constants are defined before use and once, every compound is written once, and the exported value has the same structure and sharing.',
    'S04': 'to_djs is interpreted on bigints of symbolic limbs; along every path the digits written (affine forms over quotients and remainders by ten) have to add up to the value identically, without leading zeros, with the sign and the suffix; to_json has to refuse them.',
    'S05': 'write_json and write_djs are interpreted with a writer that may fail at every single write; the failure has to be returned, nothing may be written after it, and without one the text is the complete one.',
}


def s_check(W, prop, tier):
    global FACTS
    res = Result('other')
    FACTS = W.facts('ser')
    jobs = plan(prop, tier)
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as p:
        out = p.map(job, jobs, 1)
    ns = sum(o[0] for o in out)
    n = sum(o[1] for o in out)
    fns = set()
    for _, _, bad, f in out:
        fns |= set(f)
        for root, why, site, sh in bad:
            import re
            res.add('%s %s' % (root, re.sub(r'\d+', '', why)), site or root, '%s: %s, for the value %s' % (root[5:], why, sh))
    res.coverage.update({'obligations': max(n, 1), 'discharged': max(0, n - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST,
                         'shapes': ns, 'paths': n, 'functions_executed_abstractly': sorted(fns), 'rule': RULES[prop], 'explanation': RULES[prop]})
    res.assumptions = ['the Display of a finite double is a JSON number denoting that double']
    return res


CHECKS = {p: s_check for p in RULES}
