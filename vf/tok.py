"""Reference transducer for the tokenizer and its product client."""
from .val import *
from .interp import Split, Sync, Panic, Infeasible, Unmodelled, State, Interp, Facts
from .natives import NAT, HOOK_NEXT, nat, rd, wr, some, NONE, _itself
from .product import Product, Mis

WS = ((9, 10), (13, 13), (32, 32))
OPS = {'{': 'ObjectBegin', '}': 'ObjectEnd', '[': 'ArrayBegin', ']': 'ArrayEnd', ':': 'Colon', ',': 'Comma',
       '=': 'Equals', ';': 'Semicolon', '(': 'OpeningParenthesis', ')': 'ClosingParenthesis', '.': 'Dot'}


def cs(s):
    return tuple(sorted((ord(c), ord(c)) for c in s))


OPSET = cs(''.join(OPS))
IDS = ((36, 36), (65, 90), (95, 95), (97, 122))
IDC = ((36, 36), (48, 57), (65, 90), (95, 95), (97, 122))
DIG = ((48, 57),)
TERM = tuple(sorted(WS + cs('{}[]:,=;()') + cs('"/')))
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
I64MAX = (1 << 63) - 1
I64MIN = -(1 << 63)
FE_MAX = 1 << 60
ESC = {'"': '"', '\\': '\\', '/': '/', 'b': '\x08', 'f': '\x0c', 'n': '\n', 'r': '\r', 't': '\t'}

PROPS = {'num': 'T01', 'str': 'T02', 'cmt': 'T03', 'tok': 'T04'}
KIND = {'init': None, 'str': 'str', 'esc': 'str', 'uni': 'str', 'sur': 'str', 'suru': 'str', 'minus': 'num', 'zero': 'num',
        'int': 'num', 'fb': 'num', 'frac': 'num', 'eb': 'num', 'es': 'num', 'exp': 'num', 'big': 'num', 'nl': 'cmt', 'cs': 'cmt',
        'sl': 'cmt', 'ml': 'cmt', 'mla': 'cmt', 'id': 'tok', 'op': 'tok'}


class TokRef:
    """state: (kind, regs-tuple ...)"""
    maxlag = 1
    maxlead = 1
    sync_kind = 'char'
    base_kinds = frozenset(['tok'])

    def __init__(self, F):
        self.F = F
        t = F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('tokenizer::JsonToken'))
        self.tt = t
        self.vn = [v['n'] for v in F.types[t]['v']]
        e = F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('tokenizer::ErrorType'))
        self.en = [v['n'] for v in F.types[e]['v']]
        s = F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('js_bigint::Sign'))
        self.sn = [v['n'] for v in F.types[s]['v']]
        self.drain_skip = set()

    # ---- inputs
    def inputs(self, st, rs):
        def ch(s):
            c = s.fresh('ch', CHAR)
            s.answer = ('char', c)
            return ('c', c)

        def eof(s):
            s.answer = ('char', None)
            return ('eof',)
        return [('c', ch, None), ('<end of input>', eof, None)]

    def label(self, I, st, inp, label):
        if inp[0] == 'eof':
            return label
        d = I.dom_of(st, inp[1])
        return rep_char(d)

    def boundary(self, rs):
        return rs[0] == 'init'

    def fatal(self, u):
        return 'output buffer' in str(u)

    def final(self, rs):
        return rs[0] == 'end'

    def panic_ok(self, I, st, info):
        return False

    def state_kind(self, rs0, rs1):
        k = KIND.get(rs0[0]) or KIND.get(rs1[0]) or 'tok'
        return k

    def blame(self, rs0, rs1, e, a):
        if e:
            return e[0][-1][1:]
        return self.state_kind(rs0, rs1)

    # ---- transducer
    def step(self, I, st, rs, inp):
        if rs[0] == 'end':
            return rs, [], []
        if inp[0] == 'eof':
            outs = [x + ('@' + (KIND[rs[0]] or 'tok'),) for x in self.eof(I, st, rs)]
            return ('end',), outs, [KIND[rs[0]]] if KIND[rs[0]] else []
        c = inp[1]
        ks = set()
        outs = []
        n = 0
        while True:
            if KIND[rs[0]]:
                ks.add(KIND[rs[0]])
            k0 = KIND[rs[0]]
            rs, o, again = self.char(I, st, rs, c)
            outs += [x + ('@' + (k0 or 'tok'),) for x in o]
            if KIND.get(rs[0]):
                ks.add(KIND[rs[0]])
            if not again:
                break
        if not ks:
            ks.add('tok' if outs else 'cmt')
        return rs, outs, ks

    def char(self, I, st, rs, c):
        def isin(ivs):
            return I.decide_in(st, c, ivs)
        k = rs[0]
        INIT = ('init',)
        bad = (INIT, [('Err', 'InvalidNumber')], True)
        if k == 'init':
            if isin(((49, 57),)):
                return ('int', 0, lin_add(c, -48)), [], False
            if isin(cs('0')):
                return ('zero', 0), [], False
            if isin(cs('-')):
                return ('minus',), [], False
            if isin(cs('"')):
                return ('str', ()), [], False
            if isin(IDS):
                return ('id', (c,)), [], False
            if isin(OPSET):
                for o in OPS:
                    if isin(cs(o)):
                        return ('op', o), [], False
            if isin(cs('\n')):
                return ('nl',), [], False
            if isin(cs(' \t\r')):
                return INIT, [], False
            if isin(cs('/')):
                return ('cs',), [], False
            return INIT, [('Err', 'UnexpectedCharacter')], False
        if k == 'id':
            if isin(IDC):
                return ('id', rs[1] + (c,)), [], False
            return INIT, [('Id', rs[1])], True
        if k == 'op':
            return INIT, [(OPS[rs[1]],)], True
        if k == 'str':
            if isin(cs('"')):
                return INIT, [('String', rs[1])], False
            if isin(cs('\\')):
                return ('esc', rs[1]), [], False
            return ('str', rs[1] + (c,)), [], False
        if k == 'esc':
            for e, v in ESC.items():
                if isin(cs(e)):
                    return ('str', rs[1] + (ord(v),)), [], False
            if isin(cs('u')):
                return ('uni', rs[1], 0, 0, None), [], False
            return ('str', rs[1]), [('Err', 'UnexpectedCharacter')], True
        if k == 'uni':
            s, i, u, hi = rs[1:]
            if isin(DIG):
                d = lin_add(c, -48)
            elif isin(((97, 102),)):
                d = lin_add(c, -87)
            elif isin(((65, 70),)):
                d = lin_add(c, -55)
            else:
                return ('str', s), [('Err', 'InvalidHex')], True
            u = lin_add(u, lin_mul(d, 16 ** (3 - i)))
            if i < 3:
                return ('uni', s, i + 1, u, hi), [], False
            if hi is not None:
                if I.decide_in(st, u, ((0xDC00, 0xDFFF),)):
                    v = lin_add(lin_add(lin_mul(lin_add(hi, -0xD800), 0x400), lin_add(u, -0xDC00)), 0x10000)
                    return ('str', s + (v,)), [], False
                return INIT, [('Err', 'InvalidHex')], False
            if I.decide_in(st, u, ((0xD800, 0xDBFF),)):
                if self.surrogates:
                    return ('sur', s, u), [], False
                return INIT, [('Err', 'InvalidHex')], False
            if I.decide_in(st, u, ((0xDC00, 0xDFFF),)):
                return INIT, [('Err', 'InvalidHex')], False
            return ('str', s + (u,)), [], False
        if k == 'sur':
            if isin(cs('\\')):
                return ('suru', rs[1], rs[2]), [], False
            return ('str', rs[1]), [('Err', 'InvalidHex')], True
        if k == 'suru':
            if isin(cs('u')):
                return ('uni', rs[1], 0, 0, rs[2]), [], False
            return ('esc', rs[1]), [('Err', 'InvalidHex')], True
        if k == 'minus':
            if isin(cs('0')):
                return ('zero', 1), [], False
            if isin(((49, 57),)):
                return ('int', 1, lin_add(c, -48)), [], False
            return bad
        if k == 'zero':
            s = rs[1]
            if isin(cs('.')):
                return ('fb', s, 0), [], False
            if isin(cs('eE')):
                return ('eb', s, 0, 0), [], False
            if isin(cs('n')):
                return ('big', s, 0), [], False
            if isin(TERM):
                return INIT, [('Number', 'zero', s)], True
            return bad
        if k == 'int':
            s, S = rs[1:]
            if isin(DIG):
                return ('int', s, lin_add(lin_mul(S, 10), lin_add(c, -48))), [], False
            if isin(cs('.')):
                return ('fb', s, S), [], False
            if isin(cs('eE')):
                return ('eb', s, S, 0), [], False
            if isin(cs('n')):
                return ('big', s, S), [], False
            if isin(TERM):
                return INIT, [('Number', 'dec', S, s, 0)], True
            return bad
        if k == 'fb':
            s, S = rs[1:]
            if isin(DIG):
                return ('frac', s, lin_add(lin_mul(S, 10), lin_add(c, -48)), 1), [], False
            return bad
        if k == 'frac':
            s, S, n = rs[1:]
            if isin(DIG):
                return ('frac', s, lin_add(lin_mul(S, 10), lin_add(c, -48)), lin_add(n, 1)), [], False
            if isin(cs('eE')):
                return ('eb', s, S, n), [], False
            if isin(TERM):
                return INIT, [('Number', 'dec', S, s, lin_mul(n, -1))], True
            return bad
        if k == 'eb':
            s, S, n = rs[1:]
            if isin(cs('+')):
                return ('es', s, S, n, 0), [], False
            if isin(cs('-')):
                return ('es', s, S, n, 1), [], False
            if isin(DIG):
                return ('exp', s, S, n, 0, lin_add(c, -48)), [], False
            return bad
        if k == 'es':
            s, S, n, es = rs[1:]
            if isin(DIG):
                return ('exp', s, S, n, es, lin_add(c, -48)), [], False
            return bad
        if k == 'exp':
            s, S, n, es, e = rs[1:]
            if isin(DIG):
                e2 = lin_add(lin_mul(e, 10), lin_add(c, -48))
                if not I.decide_in(st, e2, ((0, I64MAX),)):
                    e2 = I64MAX
                return ('exp', s, S, n, es, e2), [], False
            if isin(TERM):
                return INIT, [self.expnum(I, st, rs)], True
            return bad
        if k == 'big':
            if isin(TERM):
                return INIT, [('BigInt', rs[1], rs[2])], True
            return bad
        if k == 'nl':
            if isin(WS):
                return rs, [], False
            return INIT, [('NewLine',)], True
        if k == 'cs':
            if isin(cs('/')):
                return ('sl',), [], False
            if isin(cs('*')):
                return ('ml',), [], False
            return INIT, [('Err', 'UnexpectedCharacter')], False
        if k == 'sl':
            if isin(cs('\n\r')):
                return ('nl',), [], False
            return rs, [], False
        if k == 'ml':
            if isin(cs('*')):
                return ('mla',), [], False
            return rs, [], False
        if k == 'mla':
            if isin(cs('/')):
                return INIT, [], False
            if isin(cs('*')):
                return rs, [], False
            return ('ml',), [], False
        raise AssertionError(k)

    surrogates = True

    def expnum(self, I, st, rs):
        s, S, n, es, e = rs[1:]
        x = lin_add(lin_mul(e, -1 if es else 1), n, -1)
        if not I.decide_in(st, x, ((I64MIN, I64MAX),)):
            x = I64MAX if I.decide_in(st, x, ((I64MAX + 1, INF),)) else I64MIN
        return ('Number', 'dec', S, s, x)

    def eof(self, I, st, rs):
        k = rs[0]
        if k in ('init', 'nl', 'sl'):
            return []
        if k == 'id':
            return [('Id', rs[1])]
        if k == 'op':
            return [(OPS[rs[1]],)]
        if k in ('str', 'esc', 'uni', 'sur', 'suru'):
            return [('Err', 'MissingQuotes')]
        if k == 'cs':
            return [('Err', 'UnexpectedCharacter')]
        if k in ('ml', 'mla'):
            return [('Err', 'CommentClosingExpected')]
        if k == 'zero':
            return [('Number', 'zero', rs[1])]
        if k == 'int':
            return [('Number', 'dec', rs[2], rs[1], 0)]
        if k == 'frac':
            return [('Number', 'dec', rs[2], rs[1], lin_mul(rs[3], -1))]
        if k == 'exp':
            return [self.expnum(I, st, rs)]
        if k == 'big':
            return [('BigInt', rs[1], rs[2])]
        return [('Err', 'InvalidNumber')]

    # ---- registers
    def regs(self, rs):
        k = rs[0]
        r = []
        if k in ('id', 'str', 'esc', 'uni', 'sur', 'suru'):
            r.append(('str', 's', rs[1], None))
        if k in ('sur', 'suru'):
            r.append(('num', 'hi', rs[2], ((0xD800, 0xDBFF),)))
        if k == 'uni' and rs[4] is not None:
            r.append(('num', 'hi', rs[4], ((0xD800, 0xDBFF),)))
        if k in ('int', 'fb', 'big', 'frac', 'eb', 'es', 'exp'):
            S = rs[2]
            r.append(('num', 'S', S, ((1, INF),) if k in ('int',) or (k in ('fb', 'big') and isinstance(S, Lin)) else ((0, INF),)))
        if k in ('frac', 'eb', 'es', 'exp'):
            n = rs[3]
            if isinstance(n, int):
                if n >= 3:
                    r.append(('num', 'n', n, ('force', ((3, FE_MAX),))))
            else:
                r.append(('num', 'n', n, ((3, FE_MAX),)))
        if k == 'exp' and isinstance(rs[5], Lin):
            r.append(('num', 'e', rs[5], ((0, I64MAX),)))
        return r

    def rename(self, rs, c):
        k = rs[0]
        o = [k]
        for i, x in enumerate(rs[1:]):
            if isinstance(x, tuple):
                o.append(c.chars(x))
            elif isinstance(x, Lin):
                o.append(c.lin(x))
            elif isinstance(x, int) and k in ('frac', 'eb', 'es', 'exp') and i == 2 and x >= 3:
                o.append(c.val(x))
            else:
                o.append(x)
        return tuple(o)

    def rename_out(self, o, c):
        return tuple(c.chars(x) if isinstance(x, tuple) else c.lin(x) if isinstance(x, Lin) else
                     c.val(x) if isinstance(x, (Opq,)) else x for x in o)

    # ---- outputs
    def decode(self, I, v):
        if type(v) is not Agg:
            raise Mis('token is %r' % (v,))
        n = self.vn[v.v]
        if n in ('String', 'Id'):
            return (n, v.f[0].s)
        if n == 'ErrorToken':
            return ('Err', self.en[v.f[0].v])
        if n == 'Number':
            return ('Number', 'val', v.f[0])
        if n == 'BigInt':
            return ('BigInt', 'val', v.f[0])
        return (n,)

    def collect(self, I, st):
        out = [self.decode(I, x) for x in st.out]
        st.out = ()
        drained = []
        for fr in st.frames:
            for l, t in enumerate(fr.fn['locals']):
                if self.is_out(t) and type(fr.loc[l]) is VecV and (fr.fn['idx'], l) not in self.drain_skip:
                    v = fr.loc[l]
                    if v.e:
                        out += [self.decode(I, x) for x in v.e]
                        fr.loc[l] = VecV((), v.drained + len(v.e), v.kind)
                    self.last_drained = (fr.fn['idx'], l)
                    break
            else:
                continue
            break
        return out

    def is_out(self, t):
        d = self.F.types[t]
        return d['k'] == 'adt' and d['name'].endswith('vec::Vec') and d['s'].startswith('std::vec::Vec<nanvm_lib::tokenizer::JsonToken')

    def finish(self, I, st, result):
        if type(result) is VecV:
            return [self.decode(I, x) for x in result.e]
        return []

    def equal(self, I, st, e, a):
        if e[0] != a[0]:
            return False
        if e[0] in ('String', 'Id'):
            from .natives import str_eq
            return str_eq(I, st, StrV(e[1]), StrV(a[1]))
        if e[0] == 'Err':
            return e[1] == a[1]
        if e[0] == 'Number':
            v = a[2]
            if e[1] == 'zero':
                e = ('Number', 'dec', 0, e[2], 0)
            S, s, x = e[2:5]
            if type(v) is FloatV:
                return S == 0 and v.b == (s << 63)
            if type(v) is Opq and v.t[0] == 'tof64':
                b = v.t[1]
                if type(b) is Opq and b.t[0] == 'tobin':
                    S2, s2, x2, nz, prec = b.t[1:]
                    if not (bool(I.cmp(st, 'Eq', S, S2)) and self.sn[s2] == ('Negative' if s else 'Positive')
                            and nz == 0 and isinstance(prec, int) and prec >= 54):
                        return False
                    if I.cmp(st, 'Eq', x, x2):
                        return True
                    # exponents beyond the range of f64 all denote an infinity (or a zero)
                    if I.cmp(st, 'Ge', x, 400) and I.cmp(st, 'Ge', x2, 400):
                        return True
                    low = lin_add(-400, lin_mul(I.term(st, ('biglen', S), ((0, 1 << 58),)), -20))
                    return bool(I.cmp(st, 'Le', x, low) and I.cmp(st, 'Le', x2, low))
            return False
        if e[0] == 'BigInt':
            v = bigval(I, st, a[2])
            return bool(I.cmp(st, 'Eq', lin_mul(e[2], -1 if e[1] else 1), v))
        return True

    def show(self, o):
        if isinstance(o[-1], str) and o[-1].startswith('@'):
            o = o[:-1]
        if o[0] == 'Number' and o[1] == 'dec':
            return 'Number(%s%s * 10^%s)' % ('-' if o[3] else '', o[2], o[4])
        return '%s%s' % (o[0], tuple(o[1:]) if len(o) > 1 else '')


def rep_char(d):
    """a representative character of a domain"""
    pref = '1' + 'aA_' + ' "' + 'z5'
    for c in pref:
        if any(l <= ord(c) <= h for l, h in d):
            return c
    return chr(int(d[0][0])) if d[0][0] >= 0 else '?'


# ---------------------------------------------------------------- natives
def bigval(I, st, p):
    n = 0
    while not (type(p) is Opq and p.t[0] == 'big'):
        if type(p) is Ptr:
            p = rd(I, st, p)
        elif type(p) is Agg and len(p.f) >= 1:
            p = p.f[0]
        else:
            raise Unmodelled('bigint expected: %r' % (p,))
        n += 1
        if n > 8:
            raise Unmodelled('bigint')
    return p.t[1]


def big(v):
    return Opq(('big', v))


def install(I, F):
    sn = None
    s = F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('js_bigint::Sign'))
    sn = [v['n'] for v in F.types[s]['v']]
    J = 'nanvm_lib::js::js_bigint::'
    N = I.nat_by_def

    def from_u64(I, st, a, fn):
        return big(lin_mul(a[2], -1 if sn[a[1].v] == 'Negative' else 1))

    def add(I, st, a, fn):
        return big(lin_add(bigval(I, st, a[1]), bigval(I, st, a[2])))

    def sub(I, st, a, fn):
        return big(lin_add(bigval(I, st, a[1]), bigval(I, st, a[2]), -1))

    def mul(I, st, a, fn):
        x, y = bigval(I, st, a[1]), bigval(I, st, a[2])
        if isinstance(y, int):
            return big(lin_mul(x, y))
        if isinstance(x, int):
            return big(lin_mul(y, x))
        return big(I.op_term(st, 'mul', x, y))

    def neg(I, st, a, fn):
        return big(lin_mul(bigval(I, st, a[1]), -1))

    def zero(I, st, a, fn):
        return big(0)

    def is_zero(I, st, a, fn):
        return I.cmp(st, 'Eq', bigval(I, st, a[0]), 0)

    def sign(I, st, a, fn):
        v = bigval(I, st, a[0])
        return Agg(sn.index('Negative' if I.cmp(st, 'Lt', v, 0) else 'Positive'), ())
    N[J + 'from_u64'] = from_u64
    N[J + 'add'] = add
    N[J + 'sub'] = sub
    N[J + 'mul'] = mul
    N[J + 'negative'] = neg
    N[J + 'zero'] = zero
    N[J + 'is_zero'] = is_zero

    def deref_big(I, st, a, fn):
        return a[0]
    for f in F.fns:
        nd = f['nd']
        if nd.startswith('<nanvm_lib::mem::') and nd.endswith('::deref') and 'MutRef' in nd or nd == '<nanvm_lib::mem::mut_ref::MutRef<T, D> as std::ops::Deref>::deref':
            N[nd] = deref_if_big(nd)

    def items(I, st, a, fn):
        try:
            return Opq(('limbs', bigval(I, st, a[0])))
        except Unmodelled:
            return FALL
    for f in F.fns:
        if f['nd'].startswith('nanvm_lib::mem::flexible_array::FlexibleArray::') and f['nd'].endswith('::items'):
            N[f['nd']] = items

    bf = F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('big_float::BigFloat'))
    names = [x[0] for x in F.types[bf]['v'][0]['f']] if bf is not None else []

    def to_bin(I, st, a, fn):
        v = a[0]
        g = dict(zip(names, v.f))
        return Opq(('tobin', bigval(I, st, g['significand']), g['sign'].v, g['exp'], g['non_zero_reminder'], a[1]))

    def to_f64(I, st, a, fn):
        return Opq(('tof64', a[0]))
    N['nanvm_lib::big_numbers::big_float::BigFloat::<10, M>::to_bin'] = to_bin
    N['nanvm_lib::big_numbers::big_float::BigFloat::<2, M>::to_f64'] = to_f64


def deref_if_big(nd):
    def f(I, st, a, fn):
        v = rd(I, st, a[0])
        if type(v) is Opq and v.t[0] == 'big':
            return a[0]
        raise Unmodelled('deref of %r' % (v,))
    return f


def next_char(I, st, p, it):
    if st.env.get('eof'):
        return NONE
    if st.answer is None:
        raise Sync('char')
    k, c = st.answer
    st.answer = None
    if c is None:
        st.env['eof'] = True
        return NONE
    return some(c)


class StreamRef(TokRef):
    """tokens observed one pull at a time: no lag, and nothing is asked for after the end"""
    maxlag = 0
    maxlead = 0

    def collect(self, I, st):
        out = [x if type(x) is tuple else self.decode(I, x) for x in st.out]
        st.out = ()
        return out

    def finish(self, I, st, result):
        return []

    def equal(self, I, st, e, a):
        if a[0] in ('Mark', 'Asked'):
            return e[0] == a[0]
        return TokRef.equal(self, I, st, e, a)

    def eof(self, I, st, rs):
        return TokRef.eof(self, I, st, rs) + [('Mark',)]


class PushRef(StreamRef):
    def eof(self, I, st, rs):
        return []


def install_env(I):
    N = I.nat_by_def

    def env_char(I, st, a, fn):
        if st.env.get('eof'):
            st.out = st.out + (('Asked',),)
            return NONE
        return next_char(I, st, None, None)

    def emit(I, st, a, fn):
        st.out = st.out + (a[0],)
        return UNIT

    def mark(I, st, a, fn):
        st.out = st.out + (('Mark',) if a[0] == 0 else ('Extra',),)
        return UNIT
    N['vroots::env::env_char'] = env_char
    N['vroots::env::emit'] = emit
    N['vroots::env::mark'] = mark


def run(F, root):
    nats = dict(NAT)
    I = Interp(F, nats)
    install(I, F)
    install_env(I)
    skip = set()
    HOOK_NEXT['seg'] = next_char
    for attempt in range(8):
        ref = {'root_tokenize': TokRef, 'root_stream': StreamRef, 'root_push': PushRef}[root](F)
        ref.drain_skip = skip
        st = State()
        I.push(st, F.roots[root], [StrV((('S', 'in'),))] if root == 'root_tokenize' else [])
        st.env['eof'] = False
        P = Product(I, ref)
        try:
            return P.explore(st, ('init',))
        except Unmodelled as u:
            if 'output buffer' in str(u) and ref.last_drained not in skip:
                skip.add(ref.last_drained)
                continue
            raise
    raise Unmodelled('no output buffer found')
