"""A01..A03: the application on an arbitrary command line, parser outcome and file system."""
import itertools
import multiprocessing
import sys
from . import ser, serchecks
from .val import *
from .interp import State, Unmodelled, Panic, Split
from .natives import rd, wr, some, NONE, strv
from .ser import Bad, any_of
from .serchecks import build, check_json, check_djs, has_big, show_shape
from .report import Result
from .tokchecks import TRUST

ANYCH = ((0, 0xD7FF), (0xE000, 0x10FFFF))
EXTS = ('.json', '.d.cjs', '.d.mjs')
INPUT = (('F', 'input'),)
VALUES = ('n', 't', 'i', 'x', '1', 'b', (0, (('a', ()),)), (0, (('a', (1, 1)), ('a', ('i',)))), (0, (('o', ('1', 1)), ('o', (2, 2)), ('a', ()))), (0, (('a', (1,)), ('o', ('b',)))))


def bytes_of(I, st, v):
    if type(v) is SliceP:
        e = rd(I, st, v.ptr).e[v.s:v.s + v.n]
        # of one byte each
        if all(type(c) is tuple or cdom(st, c)[-1][1] < 128 for c in e):
            return tuple(e)
        raise Unmodelled('bytes %r' % (e,))
    return strv(I, st, v).s


def field(F, v, ty, name):
    t = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith(ty))]
    names = [x[0] for x in t['v'][0]['f']]
    return v.f[names.index(name)]


def install(I, F):
    N = I.nat_by_def
    pr = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('shared::ParseResult'))]
    names = [x[0] for x in pr['v'][0]['f']]
    dt = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('shared::DataType'))]
    pe = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('shared::ParseError'))]

    def env_arg(I, st, a, fn):
        l = st.env['args']
        if not l:
            return NONE
        st.env['args'] = l[1:]
        return some(StrV(l[0]))

    def env_write(I, st, a, fn):
        p, d = strv(I, st, a[0]).s, bytes_of(I, st, a[1])
        if I.choose(st, 2, 'write'):
            st.out = st.out + (('failed', p),)
            return Agg(1, (Opq(('ioerror', 'write')),))
        st.out = st.out + (('written', p, d),)
        return Agg(0, (UNIT,))

    def parse(I, st, a, fn):
        c = rd(I, st, a[0])
        p = strv(I, st, field(F, c, 'parser::Context', 'path')).s
        if p != INPUT:
            raise Panic('another path than the input is parsed: %s' % show_str(p), I.where(st))
        k = I.choose(st, len(pe['v']) + 1, 'parse')
        t = 0 if k else I.choose(st, len(dt['v']), 'type')
        st.out = st.out + (('parse', k < 1),)
        if k:
            return Agg(1, (Agg(k - 1, ()),))
        f = {'any': any_of(st.env['value']), 'data_type': Agg(t, ())}
        return Agg(0, (Agg(0, tuple(f[n] for n in names)),))

    def ioerr(I, st, a, fn):
        return Opq(('ioerror', repr(a)[:60]))

    def run(I, st, a, fn):
        k = I.choose(st, 2, 'run')
        st.out = st.out + (('run',),)
        if k:
            st.env['failed'] = True
            return Agg(1, (Opq(('ioerror', 'run')),))
        return Agg(0, (UNIT,))

    def exit_(I, st, a, fn):
        raise Panic(('exit', a[0]), I.where(st))

    def opq(I, st, a, fn):
        return Opq(('realio',))
    N['vroots::io::env_arg'] = env_arg
    N['vroots::io::env_write'] = env_write
    N['nanvm_lib::parser::parser::parse'] = parse
    N['<io_impl::RealIo as std::default::Default>::default'] = opq
    for f in F.fns:
        if f['nd'].endswith('io::Error>::other') or f['nd'].endswith('io::Error>::new') or f['nd'] in ('std::io::Error::other', 'std::io::Error::new'):
            N[f['nd']] = ioerr
    N['std::process::exit'] = exit_
    # messages are no part of the properties
    I.opts['display'] = lambda I, st, v, d, kind: (('text', repr(v)[:40]),)
    for n in ('std::io::_eprint', 'std::io::_print', 'std::io::stdio::_eprint', 'std::io::stdio::_print'):
        N[n] = lambda I, st, a, fn: UNIT
    I.run_model = run


# ------------------------------------------------------------------ extension of a symbolic path
def cdom(st, c):
    return ((c, c),) if isinstance(c, int) else st.dom.get(c.t, ANYCH)


def can(st, cs, ext):
    """may the path end so"""
    return len(cs) >= len(ext) and all(iv_and(cdom(st, c), ((ord(x), ord(x)),)) for c, x in zip(cs[len(cs) - len(ext):], ext))


def can_other(st, cs):
    opts = []
    for e in EXTS:
        if len(cs) >= len(e):
            opts.append([(len(cs) - len(e) + i, ord(x)) for i, x in enumerate(e)])
    for pick in itertools.product(*opts):
        d = {}
        for i, x in pick:
            d[i] = iv_and(d.get(i, cdom(st, cs[i])), iv_not(((x, x),)))
        if all(d.values()):
            return True
    return False


def text(st, cs):
    return ''.join(chr(c) if isinstance(c, int) else chr(cdom(st, c)[0][0]) if cdom(st, c)[0][0] > 31 else '?' for c in cs)


# ------------------------------------------------------------------ one run
def judge(I, s, info, args, value, want):
    """raises Bad with the property in front"""
    err = info.v == 1
    out = s.out
    wrote = [o for o in out if o[0] == 'written']
    tried = [o for o in out if o[0] in ('written', 'failed')]
    path = args[2] if len(args) > 2 else None
    for o in tried:
        if o[1] != path:
            raise Bad('A01', 'a file that is not the output file is written')
    if len(tried) > 1:
        raise Bad('A01', 'the output file is written more than once')
    if err and wrote:
        raise Bad('A01', 'the output file is replaced although an error is reported')
    if not err and not wrote:
        if tried:
            raise Bad('A03', 'the failure of writing the output is not reported')
        raise Bad('A03', 'success is reported without writing the output')
    if path is None:
        if not err:
            raise Bad('A03', 'success without an output file')
        return
    pr = [o[1] for o in out if o[0] == 'parse']
    kinds = [e for e in EXTS if can(s, path, e)]
    other = can_other(s, path)
    if wrote:
        if not pr or not all(pr):
            raise Bad('A01', 'an output is written without a value')
        if other:
            raise Bad('A02', 'the output %r has no known extension but is written' % text(s, path))
        t = wrote[0][2]
        for e in kinds:
            try:
                if e == '.json':
                    if has_big(value):
                        raise Bad('a bigint in JSON')
                    check_json(I, s, value, t)
                else:
                    check_djs(I, s, value, t, e == '.d.cjs')
            except Bad as b:
                form(b, t, value, e, I, s)
    else:
        # there has to be a reason
        if pr and not all(pr) or tried:
            return
        if pr and pr.count(True) == 0:
            return
        for e in kinds:
            if not (e == '.json' and has_big(value)):
                raise Bad('A02', 'an output %s is refused' % e)
            if not pr:
                return


def form(b, t, value, e, I, s):
    """the text is that of another format, or of no format"""
    for x in EXTS:
        if x == e:
            continue
        try:
            if x == '.json':
                check_json(I, s, value, t)
            else:
                check_djs(I, s, value, t, x == '.d.cjs')
        except Bad:
            continue
        raise Bad('A02', 'an output %s is written as %s' % (e, x))
    raise Bad('A01', 'the output is not the text of the value: %s' % b)


def job(x):
    sys.setrecursionlimit(20000)
    nargs, plen, vs = x
    F = FACTS
    I = ser.make(F)
    install(I, F)
    n = 0
    bad = []
    for v in vs:
        st = State()
        st.env['value'] = value = build(st, (v, ()) if isinstance(v, str) else v)
        out = tuple(st.fresh('~p', ANYCH) for _ in range(plen))
        args = [(('F', 'program'),), INPUT, out, (('F', 'extra'),)][:nargs]
        st.env['args'] = tuple(args)
        I.push(st, F.roots['root_app'], [])
        try:
            for status, s, info in I.run(st):
                n += 1
                if status != 'done':
                    p = 'A01' if 'another path' in str(info) else 'A03'
                    w = info[0] if status == 'panic' and type(info) is tuple else info
                    bad.append((p, '%s: %s' % (status, w), '%d arguments, output %r, value %s' % (max(0, nargs - 1), text(s, out), show_shape((v, ()) if isinstance(v, str) else v))))
                    continue
                try:
                    judge(I, s, info, args, value, None)
                except Bad as b:
                    p, w = (b.args if len(b.args) == 2 else ('A01', str(b)))
                    bad.append((p, w, '%d arguments, output %r, value %s' % (max(0, nargs - 1), text(s, out), show_shape((v, ()) if isinstance(v, str) else v))))
        except Unmodelled as u:
            bad.append(('*', 'not analysable: %s' % str(u)[:300], '; '.join(list(getattr(u, 'stack', []))[-5:])))
        if len(bad) > 20:
            break
    fns = sorted(F.fns[j]['name'] for j in I.visited if F.fns[j]['crate'] in ('nanvm_lib', 'vroots', 'nanvm'))
    return n, bad, fns


def code_of(v):
    """success or failure of a process"""
    n = 0
    while type(v) is Agg and v.f and n < 8:
        if len(v.f) != 1:
            return None
        v = v.f[0]
        n += 1
    return v


def main_job():
    """the program: its exit status tells whether the application failed"""
    sys.setrecursionlimit(20000)
    F = FACTS
    I = ser.make(F)
    install(I, F)
    I.nat_by_def['nanvm_lib::app::run'] = I.run_model
    n, bad = 0, []
    r = F.roots['program::main']
    ret = F.types[F.fns[r]['locals'][0]]
    st = State()
    st.env['args'] = ()
    I.push(st, r, [])
    try:
        for status, s, info in I.run(st):
            n += 1
            failed = bool(s.env.get('failed'))
            runs = sum(o[0] == 'run' for o in s.out)
            code = None
            if status == 'panic' and type(info[0]) is tuple and info[0][0] == 'exit':
                code = info[0][1]
            elif status != 'done':
                bad.append(('A03', '%s: %s' % (status, info[0] if type(info) is tuple else info), 'main'))
                continue
            elif ret['s'].startswith('std::result::Result') or ret['s'].startswith('core::result::Result'):
                code = info.v
            elif ret['k'] == 'tuple':
                code = 0
            else:
                code = code_of(info)
            if type(code) is not int:
                bad.append(('*', 'not analysable: exit status %r' % (code,), 'main'))
            elif bool(code) != failed or not runs:
                bad.append(('A03', 'the program exits with %d although the application %s' % (code, 'failed' if failed else 'did not run' if not runs else 'succeeded'), 'main'))
            elif runs > 1:
                bad.append(('A01', 'the application runs twice', 'main'))
    except Unmodelled as u:
        bad.append(('*', 'not analysable: %s' % str(u)[:300], 'main'))
    return n, bad, sorted(F.fns[j]['name'] for j in I.visited)


FACTS = None
RULES = {
    'A01': 'The application is interpreted for every outcome of parsing and of writing; on success exactly one write has happened, to the output path, and its bytes read back (with the references of S02, S03) as the value parsed from the input path; on an error nothing has been replaced.',
    'A02': 'The output path is a string of up to 9 (thorough: 12) arbitrary characters; on every path through the code, the outcome has to be the one of every extension the characters may still form: .json, .d.cjs, .d.mjs, or an error for anything else.',
    'A03': 'Every number of arguments up to 4, every parse error, every value (a bigint for JSON included) and a failing write are interpreted; none may panic, and each failure has to be the result of the application and of the program (main is interpreted separately).',
}


def a_check(W, prop, tier):
    global FACTS
    res = Result('other')
    FACTS = W.facts('app')
    T = tier == 'thorough'
    jobs = []
    for nargs in range(0, 5):
        for plen in (range(0, 13 if T else 10) if nargs >= 3 else (0,)):
            vs = VALUES if nargs == 3 else VALUES[:1]
            jobs += [(nargs, plen, [v]) for v in vs]
    with multiprocessing.get_context('fork').Pool(8) as p:
        m = p.apply_async(main_job)
        out = p.map(job, jobs, 1) + [m.get()]
    n = sum(o[0] for o in out)
    fns = set()
    import re
    for _, bad, f in out:
        fns |= set(f)
        for p, why, site in bad:
            if p in (prop, '*'):
                res.add('run %s' % re.sub(r"\d+|'.*'", '', why), 'nanvm_lib::app::run' if site != 'main' else 'nanvm main', '%s, for %s' % (why, site))
    res.coverage.update({'obligations': max(n, 1), 'discharged': max(0, n - len(res.findings)), 'checker_cmd': 'python3 /verif/check.py %s' % prop, 'trusted_base': TRUST,
                         'paths': n, 'functions_executed_abstractly': sorted(fns), 'rule': RULES[prop], 'explanation': RULES[prop]})
    res.assumptions = ['parse returns a value or an error (decided by P01-P05)', 'Io::write replaces the whole file or fails']
    return res


CHECKS = {p: a_check for p in RULES}
