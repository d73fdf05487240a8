"""Parser properties: product exploration of the extracted MIR of the parser (module reading and
caching included) against the reference grammar, and import paths over bounded shapes."""
import multiprocessing
import sys
from . import parse, paths
from .interp import Unmodelled
from .report import Result

TRUST = ['rustc MIR construction and monomorphisation (nightly)', 'vf/interp.py: MIR transfer functions', 'vf/natives*.py: summaries of std containers, strings and iterators',
         'vf/parse.py: reference grammar and the summaries of value construction (decided by the M and V properties) and of tokenizing (decided by the T properties)']

# nesting depth, items per container, constants and modules alive at once, total weight of all of them
CFG = {
    'flat': dict(consts=0, items=4, depth=1, modules=0, weight=5),
    'wide': dict(consts=0, items=3, depth=2, modules=0, weight=5),
    'deep': dict(consts=0, items=2, depth=3, modules=0, weight=5),
    'consts': dict(consts=2, items=2, depth=1, modules=0, weight=4),
    'consts3': dict(consts=3, items=1, depth=1, modules=0, weight=4),
    'mod1': dict(consts=1, items=1, depth=1, modules=1, weight=4, specs=('m',)),
    'mod2': dict(consts=0, items=1, depth=1, modules=2, weight=4, specs=('m', './m', 'n')),
    'push': dict(consts=2, items=2, depth=2, modules=0, weight=4, specs=('m',), push=1),
    'modpath': dict(consts=1, items=1, depth=0, modules=2, weight=2, specs=('m', 'x/m', 'r', '../r', '../d/./m', './x/../r'), path='./d/r'),
}
DEEP = {
    'flat': dict(consts=0, items=6, depth=1, modules=0, weight=7),
    'wide': dict(consts=0, items=3, depth=3, modules=0, weight=6),
    'deep': dict(consts=0, items=2, depth=4, modules=0, weight=6),
    'consts': dict(consts=2, items=2, depth=2, modules=0, weight=5),
    'mod2': dict(consts=1, items=1, depth=1, modules=2, weight=3, specs=('m', 'x/m', 'r', '../r', '../d/./m')),
    'modpath': dict(consts=1, items=1, depth=0, modules=3, weight=3, specs=('m', './m', 'n', 'x/n')),
}
USES = {
    'P01': ('flat', 'wide', 'deep', 'consts'),
    'P02': ('flat', 'wide', 'deep', 'consts', 'mod1'),
    'P03': ('consts', 'consts3', 'mod1'),
    'P04': ('flat', 'wide', 'deep', 'consts', 'consts3', 'mod1', 'mod2', 'modpath', 'push'),
    'P05': ('mod1', 'mod2', 'modpath'),
    'P07': ('push',),
}
RULE = ('Every pair of parser state and reference state reachable with the stated nesting, items, constants and modules is explored; from each, every token kind with uninterpreted payload '
        '(names equal to or different from every keyword, constant and key seen before), the end of the file and every outcome of reading a file is an obligation: '
        'same files read in the same order, same result, same dialect, an error where the grammar has none of these continuations, no panic. Token sequences of every length that stay within the bounds are covered.')
FACTS = None


def one(job):
    name, cfg = job
    sys.setrecursionlimit(20000)
    r = {'name': name, 'cfg': cfg, 'mism': [], 'panics': [], 'unmod': [], 'states': 0, 'trans': 0, 'done': 0, 'fns': [], 'samples': []}

    def conv(m):
        return {'what': m.what, 'site': m.site, 'doc': ''.join(str(x) for x in m.path() if x), 'calls': list(m.calls or ())[-8:], 'tags': list(m.kinds or ())}
    try:
        P = parse.run(FACTS, cfg)
    except Unmodelled as u:
        r['unmod'].append({'what': 'not analysable: %s' % str(u)[:400], 'site': '; '.join(list(getattr(u, 'stack', []))[-2:]), 'doc': '', 'calls': [], 'tags': []})
        return r
    r['mism'] = [conv(m) for m in P.mism]
    r['panics'] = [conv(m) for m in P.panics]
    r['unmod'] = [conv(m) for m in P.unmod]
    r.update(states=len(P.seen), trans=P.transitions, done=P.done, fns=sorted(P.covered()), samples=P.samples[:4])
    return r


def runall(F, jobs):
    global FACTS
    FACTS = F
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as p:
        return p.map(one, jobs, 1)


def add(res, m):
    import re
    res.add('%s @ %s' % (re.sub(r'\d+', '', m['what']), m['site']), m['site'], '%s, for the document(s) %r' % (m['what'][:300], m['doc'][-160:]),
            ['call chain: %s' % ' > '.join(m['calls'])] if m['calls'] else [])


def p_check(W, prop, tier):
    res = Result('other')
    F = W.facts('parse')
    names = USES[prop]
    jobs = [(n, (DEEP.get(n, CFG[n]) if tier == 'thorough' else CFG[n])) for n in names]
    jobs.sort(key=lambda j: -j[1]['weight'] - 3 * j[1]['modules'] - j[1]['consts'])
    tot = dict(states=0, trans=0, done=0)
    fns, cov, samples = set(), {}, []
    for r in runall(F, jobs):
        ms = [m for m in r['mism'] if want(prop, m)]
        if prop == 'P04':
            ms = r['panics']
        elif prop == 'P07':
            ms = r['mism'] + r['panics']
        for m in ms + r['unmod']:
            add(res, m)
        for k in tot:
            tot[k] += r[k]
        fns |= set(r['fns'])
        samples += r['samples']
        cov[r['name']] = dict(r['cfg'], states=r['states'], transitions=r['trans'])
    res.coverage.update({'obligations': max(1, tot['trans']), 'discharged': max(0, tot['trans'] - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py %s' % prop,
                         'trusted_base': TRUST, 'abstract_states': tot['states'], 'transitions': tot['trans'], 'completed_paths': tot['done'],
                         'bounds': cov, 'functions_executed_abstractly': sorted(fns), 'samples': samples, 'rule': RULE, 'explanation': RULE})
    res.assumptions = ['reading a file returns its contents or an error and has no other effect on the parser']
    return res


def want(prop, m):
    t = m['tags']
    if prop == 'P01':
        return 'accept' not in t
    if prop == 'P02':
        return 'accept' in t
    if prop == 'P03':
        return 'const' in t
    if prop == 'P05':
        return 'module' in t
    return False


def path_jobs(tier):
    k = 1 if tier == 'thorough' else 0
    S, C = paths.strings, paths.pieces
    return [('root_normalize', [(s,) for s in S(8 + k)], paths.norm), ('root_normalize', [(s,) for s in list(C(5)) + list(S(4, '/.u'))], paths.norm),
            ('root_split', [(s,) for s in list(S(7)) + list(S(4, '/.u'))], paths.split),
            ('root_concat', [(a, b) for a in S(4) for b in S(4)], paths.cat),
            ('root_relative', [(a, b) for a in S(4) for b in S(4)], paths.relative),
            ('root_relative', [(a, b) for a in C(2) for b in C(3)], paths.relative)]


def onep(i):
    sys.setrecursionlimit(20000)
    root, args, ref = PJ[i]
    try:
        n, bad, I = paths.check(FACTS, root, args, ref, None)
    except Unmodelled as u:
        return root, 0, {'not analysable: %s' % str(u)[:400]: []}, [], '; '.join(list(getattr(u, 'stack', []))[-2:])
    return root, n, {k: [repr(x)[:300] for x in v[:3]] for k, v in bad.items()}, sorted(I.F.fns[j]['name'] for j in I.visited if I.F.fns[j]['crate'] == 'nanvm_lib'), ''


def p_paths(W, prop, tier):
    global FACTS, PJ
    res = Result('other')
    FACTS = W.facts('path')
    PJ = path_jobs(tier)
    with multiprocessing.get_context('fork').Pool(min(8, len(PJ))) as p:
        out = p.map(onep, range(len(PJ)), 1)
    n, fns, per = 0, set(), []
    for (root, k, bad, fn, site), (_, args, _) in zip(out, PJ):
        n += k
        fns |= set(fn)
        per.append({'function': root, 'shapes': len(args), 'paths': k})
        for what, ex in bad.items():
            res.add('%s %s' % (root, what), site or root, '%s for paths of the shape %s' % (what, ' '.join(ex)))
    rule = ('The path functions are interpreted on every string over {"/", ".", any other character} up to the stated length and every sequence of components from {"", ".", "..", "x", "xx", ".x"} '
            '(x uninterpreted); the result has to be the canonical path computed by the reference, character by character.')
    res.coverage.update({'obligations': max(n, 1), 'discharged': max(0, n - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST, 'per_function': per,
                         'functions_executed_abstractly': sorted(fns), 'rule': rule, 'explanation': rule})
    return res


CHECKS = {p: p_check for p in USES}
CHECKS['P06'] = p_paths
