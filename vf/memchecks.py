"""Memory-manager and value-representation properties: abstract interpretation of the extracted
MIR over a symbolic memory (vf/mem.py), on every path of a set of generic histories."""
from . import witness
from .interp import Unmodelled
from .mem import MemInterp, site_of
from .report import Result

TRUST = ['rustc MIR construction and monomorphisation (nightly)', 'vf/interp.py, vf/mem.py: MIR transfer functions and the memory model',
         'std allocator contract', 'histories in roots/src/mem.rs and roots/src/any.rs']

KIND = {
    'M01': ('uaf', 'double-free', 'leak', 'count', 'early-free', 'null', 'wild'),
    'M02': ('unique', 'early-free', 'count'),
    'M03': ('layout', 'oob', 'misaligned', 'uninit', 'wild', 'type', 'length', 'size', 'null', 'use-after-drop'),
    'M04': ('double-drop', 'not-dropped', 'use-after-drop', 'element', 'early-free', 'uninit'),
    'M05': ('size', 'oob', 'layout', 'null', 'misaligned'),
    'M08': ('bytes',),
    'V01': ('check11',),
    'V02': ('check11', 'check12', 'check14'),
    'V03': ('check11', 'check12', 'check14', 'length', 'type'),
    'V04': ('check13', 'check12', 'element'),
    'V06': ('check14', 'check15'),
    'V05': ('uaf', 'double-free', 'leak', 'count', 'early-free', 'null', 'wild', 'unique', 'layout', 'oob', 'misaligned', 'uninit', 'double-drop', 'not-dropped',
            'use-after-drop', 'type'),
}


def pick(F, pre, no=()):
    return [r for r in F.roots if r.startswith(tuple(pre)) and not r.startswith(tuple(no) or ('\0',))]


def short_kind(m):
    return m.kind


def explore(res, F, roots, kinds, prop, allow_panic=(), opts=None, overflow=False, all_faults=False):
    cov = res.coverage
    I = None
    fns = set()
    for r in roots:
        I = MemInterp(F, None, dict(opts or {}))
        n = {}
        try:
            for s, st, info in I.explore(r):
                n[s] = n.get(s, 0) + 1
                if s == 'fault':
                    if info.kind in kinds or all_faults:
                        site = site_of(I, st)
                        res.add('%s @ %s' % (info.msg, site), site, '%s, in the history %s' % (info.msg, r),
                                ['choices: %s' % (list(st.trace),)])
                elif s == 'panic':
                    msg, where = info if isinstance(info, tuple) else (str(info), '?')
                    ov = 'overflow' in msg
                    if ov and overflow:
                        res.add('%s @ %s' % (msg, where), where, 'arithmetic that overflows (and wraps around in a release build): %s, in the history %s' % (msg, r))
                    elif not r.startswith(tuple(allow_panic) or ('\0',)):
                        res.add('panic %s @ %s' % (msg, where), where, 'panic in the history %s: %s' % (r, msg), ['choices: %s' % (list(st.trace),)])
        except Unmodelled as u:
            site = '; '.join(list(getattr(u, 'stack', []))[-2:])
            res.add('unmodelled %s' % r, site, 'history %s uses a construct the analysis does not model: %s' % (r, str(u)[:300]))
        cov['paths'] = cov.get('paths', 0) + sum(n.values())
        cov.setdefault('per_history', {})[r] = n
        for k, v in I.checks.items():
            cov.setdefault('obligations_by_kind', {})[k] = cov.get('obligations_by_kind', {}).get(k, 0) + v
        cov['steps'] = cov.get('steps', 0) + I.steps
        fns |= set(F.fns[i]['name'] if isinstance(i, int) else i for i in I.used_fns)
    cov['functions_executed_abstractly'] = sorted(x for x in (set(cov.get('functions_executed_abstractly', [])) | fns) if 'nanvm_lib' in x)[:400]


def finishcov(res, prop, expl):
    c = res.coverage
    ob = sum(c.get('obligations_by_kind', {}).values())
    c.update({'obligations': max(1, ob), 'discharged': max(0, ob - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py %s' % prop,
              'trusted_base': TRUST, 'explanation': expl, 'rule': expl})
    res.assumptions = ['the allocator hands out disjoint blocks below 2^47 that are aligned as requested',
                       'element types and headers in the histories stand for all others of the same size, alignment and drop behaviour']


EXPL = ('Every path of each history (all choices of the caller, both managers, element types of several sizes and alignments) is interpreted over the extracted MIR '
        'with typed, bounds-, alignment- and initialisation-checked memory; owner counts are symbolic (k >= 1), array lengths 0 to 3. ')
MEMR = ('array_', 'fixed_', 'owners3_', 'header_', 'head_', 'spare_', 'counted_', 'nested_')


def m_check(W, prop, tier):
    res = Result('other')
    F = W.facts('mem')
    k = KIND[prop]
    if prop == 'M01':
        explore(res, F, pick(F, MEMR), k, prop)
    elif prop == 'M02':
        explore(res, F, pick(F, ('counted_', 'owners3_')), k, prop)
    elif prop == 'M03':
        explore(res, F, pick(F, MEMR + ('huge_',)), k, prop, allow_panic=('huge_',))
    elif prop == 'M04':
        explore(res, F, pick(F, MEMR + ('liar_', 'root_modify')), k, prop, allow_panic=('liar_', 'root_modify'))
    elif prop == 'M05':
        explore(res, F, pick(F, ('huge_', 'root_size_')), k, prop, allow_panic=('huge_', 'root_size_'), overflow=True)
        explore(res, F, pick(F, ('array_el', 'fixed_big', 'header_el', 'nested_')), ('null', 'oob', 'wild', 'uaf'), prop, opts={'alloc_fails': True})
    elif prop == 'M08':
        explore(res, F, pick(F, ('root_bytes',)), k, prop)
    finishcov(res, prop, EXPL)
    return res


def v_check(W, prop, tier):
    res = Result('other')
    F = W.facts('any')
    k = KIND[prop]
    r = {'V01': ('r::',), 'V02': ('r::number',), 'V03': ('r::',), 'V04': ('r::arrays', 'r::long', 'r::objects', 'r::number', 'r::null', 'r::boolean', 'r::strings', 'r::bigints'),
         'V05': ('r::',), 'V06': ('r::same', 'r::distinct')}[prop]
    explore(res, F, pick(F, r), k, prop)
    finishcov(res, prop, EXPL + 'Numbers are arbitrary 64-bit patterns, addresses arbitrary below 2^47.')
    return res


def wit(ws):
    def f(W, prop, tier):
        res = Result('proof')
        n = witness.check(W, prop, ws(), res)
        res.coverage.update({'obligations': n, 'discharged': n - len(res.findings), 'checker_cmd': 'python3 /verif/check.py %s' % prop,
                        'trusted_base': ['the stable Rust compiler\'s type, borrow and privacy checks'],
                        'witnesses': [w.name for w in ws()],
                        'rule': 'each witness program is compiled against the library as it is now and has to be rejected with the expected error, '
                                'while its twin, which differs only in the offending expression, has to compile'})
        return res
    return f


CHECKS = {p: m_check for p in ('M01', 'M02', 'M03', 'M04', 'M05', 'M08')}
CHECKS.update({p: v_check for p in ('V01', 'V02', 'V03', 'V04', 'V05', 'V06')})
CHECKS['M06'] = wit(witness.thread_witnesses)
CHECKS['M07'] = wit(witness.borrow_witnesses)
CHECKS['M09'] = wit(witness.access_witnesses)
