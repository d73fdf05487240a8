"""R01: maps from ranges of keys to values."""
import itertools
import multiprocessing
import re
import sys
import time
from .big import make, OutOfTime
from .bigchecks import Bad
from .instance import Instances
from .interp import State, Unmodelled, Split, Infeasible
from .report import Result
from .tokchecks import TRUST
from .val import *

FACTS = None
LIMIT = 100
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
U32 = ((0, 0xFFFFFFFF),)


def option(v):
    return Agg(0, ()) if v is None else Agg(1, (v,))


def rmap(keys, vals):
    return Agg(0, (VecV(tuple(Agg(0, (k, Agg(0, (option(v),)))) for k, v in zip(keys, vals))),))


def less(I, st, a, b):
    """a < b (splits when it is open)"""
    d = lin_add(b, a, -1)
    if not isinstance(d, Lin):
        return d > 0
    return I.decide_in(st, d, ((1, INF),))


def look(I, st, m, x):
    """the value of the first entry whose key is not below x"""
    for k, v in zip(*m):
        if not less(I, st, k, x):
            return v
    return None


def spec(I, st, maps, x, ret):
    """the union of the maps at x; a panic (ret None) exactly if two maps disagree somewhere"""
    keys = [k for m in maps for k in m[0]]
    clash = False
    for k in keys:
        s = {v for v in (look(I, st, m, k) for m in maps) if v is not None}
        if len(s) > 1:
            clash = True
    if ret is None:
        if not clash:
            raise Bad('a panic although no two maps disagree')
        return
    if clash:
        raise Bad('maps that disagree are merged silently')
    want = [v for v in (look(I, st, m, x) for m in maps) if v is not None]
    got = ret.f[0] if ret.v == 1 else None
    if got != (want[0] if want else None):
        raise Bad('the wrong value is found' if got is not None and want else
                  'a value is found where there is none' if got is not None else 'a value is not found')


def spec_range(I, st, lo, hi, x, ret):
    if ret is None:
        raise Bad('a panic')
    inside = not less(I, st, x, lo) and not less(I, st, hi, x)
    got = ret.v == 1
    if got != inside:
        raise Bad('a key %s the range is %s' % ('inside' if inside else 'outside', 'found' if got else 'not found'))


def job(spec_):
    sys.setrecursionlimit(20000)
    root, shape = spec_
    F = FACTS
    I = make(F)
    st0 = State()
    n, bad, opn = 0, [], 0
    x = atom(('limb', 'key', 0))
    try:
        if root in ('root_r_range', 'root_r_one'):
            st0.dom[x.t] = CHAR
            lo = atom(('limb', 'low', 0))
            st0.dom[lo.t] = CHAR
            hi = lo
            if root == 'root_r_range':
                hi = atom(('limb', 'high', 0))
                st0.dom[hi.t] = CHAR
                I.refine(st0, lin_add(hi, lo, -1), ((0, INF),))
                args = [lo, hi, x]
            else:
                args = [lo, x]
            spec_of = lambda st, ret: spec_range(I, st, lo, hi, x, ret)
            unknown = [x, lo, hi]
            what = root[7:]
        else:
            st0.dom[x.t] = U32
            maps = []
            for i, vals in enumerate(shape):
                if len(vals) > 20:
                    # a long map has fixed keys
                    ks = [7 + i + 3 * j for j in range(len(vals))]
                else:
                    ks = [atom(('limb', 'abc'[i] + str(j), 0)) for j in range(len(vals))]
                    for j, k in enumerate(ks):
                        st0.dom[k.t] = U32
                    for j in range(1, len(ks)):
                        I.refine(st0, lin_add(ks[j], ks[j - 1], -1), ((1, INF),))
                maps.append((ks, vals))
            args = [rmap(*m) for m in maps] + [x]
            spec_of = lambda st, ret: spec(I, st, maps, x, ret)
            unknown = [x] + [k for m in maps for k in m[0]]
            what = '%s of maps with the values %s' % (root[7:], ' and '.join('[%s]' % ', '.join('none' if v is None else str(v) for v in m[:9]) for m in shape))
        I.deadline = time.time() + LIMIT
        I.maxpath = 150_000
        I.push(st0, F.roots[root], args)
        for status, s, info in I.run(st0):
            ret = info if status == 'done' else None
            todo = [s]
            while todo:
                a = todo.pop()
                b = a.clone()
                try:
                    spec_of(b, ret)
                except Split as sp:
                    for alt in sp.alts:
                        z = a.clone()
                        try:
                            alt(z)
                            todo.append(z)
                        except Infeasible:
                            pass
                    continue
                except Infeasible:
                    continue
                except Bad:
                    J = Instances(I, a, [u for u in unknown if isinstance(u, Lin)])
                    for v in J.find():
                        try:
                            spec_of(J.pin(v), ret)
                        except (Split, Infeasible):
                            continue
                        except Bad as w:
                            site = info[1] if ret is None and type(info) is tuple and len(info) > 1 else ''
                            why = str(w) + (': ' + str(info[0]) if ret is None and type(info) is tuple else '')
                            bad.append((root, why, site, '%s for %s' % (what, ', '.join('%s = %d' % (t[1], k) for t, k in zip(J.free, v)))))
                            break
                    else:
                        opn += 1
                n += 1
            if len(bad) > 5:
                break
    except OutOfTime:
        opn += 1
    except Unmodelled as u:
        bad.append((root, 'not analysable: %s' % str(u)[:300], '; '.join(list(getattr(u, 'stack', []))[-4:]), root))
    fns = sorted(F.fns[j]['name'] for j in I.visited if F.fns[j]['crate'] in ('nanvm_lib', 'vroots'))
    return n, bad, fns, opn


def plan(tier):
    T = tier == 'thorough'
    o = [('root_r_range', ()), ('root_r_one', ())]
    V = (None, 1, 2)
    for n in range(0, 9 if T else 6):
        o.append(('root_r_get', (tuple(None if i % 3 == 2 else i + 1 for i in range(n)),)))
    for n in (33, 300):
        o.append(('root_r_get', (tuple(None if i % 3 == 2 else i % 250 for i in range(n)),)))
    o.append(('root_r_merge', (tuple(1 if i % 4 else None for i in range(40)), tuple(1 if i % 5 else None for i in range(30)))))
    for n in range(0, 4):
        for m in range(0, 4):
            if n + m > (5 if T else 4):
                continue
            for v in itertools.product(V, repeat=n + m):
                # the two values can be swapped
                f = [y for y in v if y is not None]
                if not f or f[0] == 1:
                    o.append(('root_r_merge', (v[:n], v[n:])))
    for v in itertools.product(V, repeat=3):
        o.append(('root_r_list', ((v[0],), (v[1],), (v[2],))))
    for v in itertools.product((None, 1), repeat=3):
        o.append(('root_r_list', (v[:2], (v[2],), ())))
        o.append(('root_r_list', ((), v[:1], v[1:])))
    return o


def r01(W, prop, tier):
    global FACTS
    res = Result('other')
    FACTS = W.facts('rm')
    jobs = plan(tier)
    with multiprocessing.get_context('fork').Pool(8) as p:
        out = list(p.imap_unordered(job, jobs, 1))
    n = sum(o[0] for o in out)
    fns = set()
    for o in out:
        fns |= set(o[2])
        for root, why, site, sh in o[1]:
            res.add('%s %s' % (root[7:], re.sub(r'-?\d+', '', why)), site or root, '%s: %s' % (sh, why))
    rule = ('maps with symbolic ascending keys are merged and queried with a symbolic key over the extracted MIR; on every path (an order of the keys) the result has to be the union of the '
            'values of the first entries whose keys are not below the key, a panic exactly if two maps disagree somewhere')
    res.coverage.update({'obligations': max(n, 1), 'discharged': max(0, n - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py R01', 'trusted_base': TRUST,
                         'shapes': len(jobs), 'paths': n, 'paths_left_open': sum(o[3] for o in out), 'functions_executed_abstractly': sorted(fns), 'rule': rule, 'explanation': rule})
    res.assumptions = ['the keys of a map ascend', 'the bounds of a range are in order']
    return res


CHECKS = {'R01': r01}
