"""Reference grammar of the parser and its product client.

The implementation is the whole of `parse` (module reading and caching included).  Its
environment supplies one token at a time (every token kind, payloads uninterpreted) and the
outcome of every file access; the tokens of an imported file are supplied the same way.
"""
from collections import namedtuple
from .val import *
from .interp import Split, Sync, Panic, Infeasible, Unmodelled, State, Interp
from .natives import NAT, HOOK_NEXT, rd, wr, some, NONE
from .product import Product, Canon, Mis, Mismatch

PUNCT = ('ArrayBegin', 'ObjectBegin', 'ObjectEnd', 'Colon', 'ArrayEnd', 'Comma', 'Equals', 'Semicolon',
         'OpeningParenthesis', 'ClosingParenthesis', 'Dot', 'NewLine')
SHOW = {'ArrayBegin': '[', 'ObjectBegin': '{', 'ObjectEnd': '}', 'Colon': ':', 'ArrayEnd': ']', 'Comma': ',', 'Equals': '=',
        'Semicolon': ';', 'OpeningParenthesis': '(', 'ClosingParenthesis': ')', 'Dot': '.', 'NewLine': '\\n', 'Number': ' 1', 'BigInt': ' 1n',
        'ErrorToken': ' <error>'}

# path, phase, data type, constants, open containers, register
M = namedtuple('M', 'path ph dt cs sk reg')
# modules being parsed (innermost last), finished modules, paths in progress
R = namedtuple('R', 'k mods cache prog x')


def S(s):
    return tuple(map(ord, s))


def txt(c):
    return ''.join(chr(x) if isinstance(x, int) else '<%s%s>' % (x[1][0][1:], x[1][1]) if isinstance(x, tuple) else '?' for x in c)


# ------------------------------------------------------------------ uninterpreted names
def alias(st, c):
    """string with every name that is known to be equal to something replaced"""
    if not any(type(x) is tuple for x in c):
        return c
    o = []
    for x in c:
        if type(x) is tuple:
            a = st.facts.get(('al', x))
            if a is not None:
                o += alias(st, a)
                continue
        o.append(x)
    return tuple(o)


def str_eq_hook(I, st, sx, sy):
    a, b = alias(st, sx), alias(st, sy)
    if a == b:
        return True
    sa, sb = any(type(x) is tuple for x in a), any(type(x) is tuple for x in b)
    if not sa and not sb:
        if len(a) != len(b):
            return False
        return all(I.cmp(st, 'Eq', x, y) for x, y in zip(a, b))
    if not (sa and len(a) == 1 and a[0][0] == 'N'):
        a, b = b, a
        sa, sb = sb, sa
    if not (len(a) == 1 and type(a[0]) is tuple and a[0][0] == 'N') or sb and not (len(b) == 1 and b[0][0] == 'N'):
        raise Unmodelled('comparison of composite names')
    if st.facts.get(('ne', a, b)) or st.facts.get(('ne', b, a)):
        return False

    def yes(s):
        s.facts[('al', a[0])] = b
        for k in [k for k in s.facts if k[0] == 'ne']:
            x, y = alias(s, k[1]), alias(s, k[2])
            if x == y:
                raise Infeasible()
            if not any(type(c) is tuple for c in x + y):
                del s.facts[k]
            elif (x, y) != k[1:]:
                del s.facts[k]
                s.facts[('ne', x, y)] = True

    def no(s):
        s.facts[('ne', a, b)] = True
    raise Split([yes, no])


def str_cmp_hook(I, st, x, y):
    """uninterpreted names are ordered in some fixed way"""
    x, y = alias(st, x), alias(st, y)
    if not any(type(c) is tuple for c in x + y):
        return None
    if str_eq_hook(I, st, x, y):
        return 0
    return -1 if repr(x) < repr(y) else 1


def norm_val(st, t):
    k = t[0]
    if k == 'str':
        return (k, alias(st, t[1]))
    if k == 'arr':
        return (k, tuple(norm_val(st, x) for x in t[1]))
    if k == 'obj':
        return (k, tuple(sorted(((alias(st, n), norm_val(st, v)) for n, v in t[1]), key=repr)))
    return t


class PCanon(Canon):
    def chars_plain(self, s):
        o = []
        for c in alias(self.st, s):
            if isinstance(c, Lin):
                o.append(self.lin(c))
            elif isinstance(c, tuple):
                o.append(self.term(c))
            else:
                o.append(c)
        return tuple(o)

    def term(self, t):
        if isinstance(t, tuple) and len(t) == 2:
            if t[0] == 'any':
                return ('any', self.value(t[1]))
            if t[0] == 'ref':
                return ('ref', self.value(t[1]))
            if t[0] == 'N':
                a = self.st.facts.get(('al', t))
                if a is not None:
                    raise Unmodelled('stale name')
        return Canon.term(self, t)

    def value(self, t):
        """every finished value becomes an atom, the same one wherever it occurs"""
        if t[0] == 'v':
            return ('v', Canon.term(self, t[1]))
        t = norm_val(self.st, t)
        n = self.amap.get(('V', t))
        if n is None:
            n = ('~v', len(self.amap) + 1)
            self.amap[('V', t)] = n
        return ('v', n)

    def fact_alive(self, k):
        if k[0] == 'al':
            return False
        return Canon.fact_alive(self, k)


# ------------------------------------------------------------------ reference
KEYV = ('null', 'true', 'false')


class ParseRef:
    maxlag = 1
    maxlead = 1
    sync_kind = 'token'
    base_kinds = frozenset()

    def __init__(self, F, cfg):
        self.F = F
        self.cfg = cfg
        t = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('tokenizer::JsonToken'))]
        self.vn = [v['n'] for v in t['v']]
        self.fl = [len(v['f']) for v in t['v']]
        d = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('shared::DataType'))]
        self.dn = [v['n'] for v in d['v']]
        r = F.types[F.find_type(lambda t: t['k'] == 'adt' and t['name'].endswith('shared::ParseResult'))]
        self.rf = [x[0] for x in r['v'][0]['f']]
        self.specs = cfg.get('specs', ())

    # ---- inputs
    def inputs(self, st, rs):
        o = []
        if rs.k == 'read':
            def rok(s):
                s.natom += 1
                c = (('F', ('~f', s.natom)),)
                s.answer = ('read', c)
                s.env['content'] = c[0]
                return ('readok',)

            def rerr(s):
                s.answer = ('read', None)
                return ('readerr',)
            return [('<file exists> ', rok, None), ('<no file> ', rerr, None)]
        if rs.k == 'end':
            return []

        def eof(s):
            s.answer = ('token', None)
            return ('eof',)

        def punct(n):
            i = self.vn.index(n)

            def f(s):
                s.answer = ('token', Agg(i, tuple(Agg(0, ()) for _ in range(self.fl[i]))))
                return (n, None)
            return f

        def payload(n, wrap, pre):
            i = self.vn.index(n)

            def f(s):
                s.natom += 1
                p = (pre, s.natom)
                s.answer = ('token', Agg(i, (wrap(p),)))
                return (n, (('N', p),) if pre == '~n' else p)
            return f

        def string(sp):
            i = self.vn.index('String')

            def f(s):
                s.answer = ('token', Agg(i, (StrV(S(sp)),)))
                return ('String', S(sp))
            return f
        m = rs.mods[-1] if rs.mods else None
        path = m is not None and (m.ph == 'importfrom' or m.ph == 'val' and m.reg[1] == 'iv')
        for n in self.vn:
            if n == 'Number':
                o.append((n, payload(n, lambda p: Opq(('num', p)), '~x'), None))
            elif n == 'BigInt':
                o.append((n, payload(n, lambda p: Opq(('ref', ('big', p))), '~x'), None))
            elif n == 'Id':
                o.append((n, payload(n, lambda p: StrV((('N', p),)), '~n'), None))
            elif n == 'String':
                if path:
                    for sp in self.specs:
                        o.append(('"%s"' % sp, string(sp), None))
                else:
                    o.append((n, payload(n, lambda p: StrV((('N', p),)), '~n'), None))
            elif n in PUNCT or n == 'ErrorToken':
                o.append((n, punct(n), None))
            else:
                raise Unmodelled('unknown token kind %s' % n)
        o.append(('<end>', eof, None))
        return o

    def label(self, I, st, inp, label):
        if inp[0] == 'Id':
            return ' ' + txt(alias(st, inp[1]))
        if inp[0] == 'String':
            return ' "%s"' % txt(alias(st, inp[1]))
        return SHOW.get(inp[0], label)

    def boundary(self, rs):
        return True

    def fatal(self, u):
        return False

    def final(self, rs):
        return rs.k in ('end', 'err')

    def sync_ok(self, rs, kind):
        return kind == ('read' if rs.k == 'read' else 'token') and rs.k != 'end'

    def panic_ok(self, I, st, info):
        return False

    def state_kind(self, rs0, rs1):
        return self.blame(rs0, rs1, [], [])

    def blame(self, rs0, rs1, e, a):
        t = set()
        for rs in (rs0, rs1):
            for m in rs.mods:
                if m.cs or m.ph in ('const', 'constid') or m.ph == 'val' and m.reg[0][0] == 'const':
                    t.add('const')
                if m.ph in ('import', 'importid', 'importfrom') or m.ph == 'val' and m.reg[1] in ('ib', 'iv', 'ie'):
                    t.add('module')
            if len(rs.mods) > 1 or rs.cache or rs.k == 'read':
                t.add('module')
        if any(x[0] == 'Read' for x in list(e) + list(a)):
            t.add('module')
        if e and a and e[0][:2] == ('Res', 'Err') and a[0][:2] == ('Res', 'Ok'):
            t.add('accept')
        return frozenset(t)

    def prune(self, rs):
        c = self.cfg
        if rs.k in ('err', 'end'):
            return False
        w = 0
        for m in rs.mods:
            if len(m.cs) > c['consts']:
                return True
            w += c.get('wc', 1) * len(m.cs)
            for f in m.sk:
                w += 1 + len(f[1])
                if len(f[1]) > c['items']:
                    return True
            if len(m.sk) > c['depth']:
                return True
            if m.ph == 'val' and m.reg[0][0] == 'const':
                w += 1
        nm = len(rs.mods) + (1 if rs.k == 'read' else 0)
        if nm > c['modules'] + 1 or len(rs.cache) > c['modules']:
            return True
        return w + c.get('wm', 1) * (nm - 1 + len(rs.cache)) > c['weight']

    # ---- semantics
    def step(self, I, st, rs, inp):
        rs2, outs = self.step1(I, st, rs, inp)
        if rs2.k == 'err' and rs.k != 'err':
            outs = outs + [('Res', 'Err')]
        return rs2, outs, ()

    def step1(self, I, st, rs, inp):
        if rs.k in ('err', 'end'):
            return rs, []
        ERR = R('err', (), (), (), None)
        k = inp[0]
        if rs.k == 'read':
            if k == 'readerr':
                return ERR, []
            return R('run', rs.mods + (M(rs.x, 'i1', 'Json', (), (), None),), rs.cache, rs.prog, None), []
        m = rs.mods[-1]
        if k == 'eof':
            if m.ph != 'done':
                return ERR, []
            v = m.reg
            if len(rs.mods) == 1:
                return R('end', (), (), (), None), [('Res', 'Ok', v, m.dt)]
            up = rs.mods[-2]
            prog = tuple(p for p in rs.prog if p != m.path)
            rs = R('run', rs.mods[:-2] + (self.resume(I, st, up, v),), rs.cache + ((m.path, v),), prog, None)
            return rs, []
        m2 = self.token(I, st, m, inp)
        if m2 is None:
            return ERR, []
        if type(m2) is tuple and m2[0] == 'load':
            spec, m = m2[1], m2[2]
            if self.cfg.get('push'):
                if m.ph != 'importfrom':
                    return ERR, []
                m = self.define(I, st, m, m.reg, ('null',))._replace(ph='i0', reg=None)
                return rs._replace(mods=rs.mods[:-1] + (m,)), [('Import', spec)]
            p = resolve(m.path, spec)
            for q, v in rs.cache:
                if q == p:
                    return rs._replace(mods=rs.mods[:-1] + (self.resume(I, st, m, v),)), []
            if p in rs.prog:
                return ERR, []
            return R('read', rs.mods[:-1] + (m,), rs.cache, tuple(sorted(rs.prog + (p,))), p), [('Read', p)]
        return rs._replace(mods=rs.mods[:-1] + (m2,)), []

    def resume(self, I, st, m, v):
        if m.ph == 'importfrom':
            return self.define(I, st, m, m.reg, v)._replace(ph='i0', reg=None)
        return m._replace(reg=(m.reg[0], 'ie', v))

    def define(self, I, st, m, name, v):
        o = []
        for n, x in m.cs:
            if not self.eq(I, st, n, name):
                o.append((n, x))
        return m._replace(cs=tuple(o) + ((name, v),))

    def eq(self, I, st, a, b):
        return str_eq_hook(I, st, a, b)

    def isid(self, I, st, tok, w):
        return tok[0] == 'Id' and self.eq(I, st, tok[1], S(w))

    def token(self, I, st, m, tok):
        """next module state, None for an error, ('load', spec, state)"""
        k = tok[0]
        ph = m.ph
        es, cj = m.dt in ('Json', 'Djs', 'Mjs'), m.dt in ('Json', 'Djs', 'Cjs')
        if ph in ('i1', 'i0'):
            if k == 'NewLine':
                return m._replace(ph='i1')
            if ph == 'i0':
                return m._replace(ph='i1') if k == 'Semicolon' else None
            if self.isid(I, st, tok, 'const'):
                return m._replace(ph='const', dt={'Json': 'Djs'}.get(m.dt, m.dt))
            if es and self.isid(I, st, tok, 'export'):
                return m._replace(ph='export', dt='Mjs')
            if cj and self.isid(I, st, tok, 'module'):
                return m._replace(ph='module', dt='Cjs')
            if es and self.isid(I, st, tok, 'import'):
                return m._replace(ph='import', dt='Mjs')
            return self.value(I, st, m._replace(ph='val', reg=(('final',), 'v', None)), tok)
        if ph == 'done':
            return m if k == 'NewLine' else None
        if ph == 'export':
            return m._replace(ph='val', reg=(('final',), 'v', None)) if self.isid(I, st, tok, 'default') else None
        if ph == 'module':
            return m._replace(ph='moddot') if k == 'Dot' else None
        if ph == 'moddot':
            return m._replace(ph='modexp') if self.isid(I, st, tok, 'exports') else None
        if ph == 'modexp':
            return m._replace(ph='val', reg=(('final',), 'v', None)) if k == 'Equals' else None
        if ph == 'const':
            return m._replace(ph='constid', reg=tok[1]) if k == 'Id' else None
        if ph == 'constid':
            return m._replace(ph='val', reg=(('const', m.reg), 'v', None)) if k == 'Equals' else None
        if ph == 'import':
            return m._replace(ph='importid', reg=tok[1]) if k == 'Id' else None
        if ph == 'importid':
            return m._replace(ph='importfrom') if self.isid(I, st, tok, 'from') else None
        if ph == 'importfrom':
            return ('load', txt(tok[1]), m) if k == 'String' else None
        assert ph == 'val'
        return m if k == 'NewLine' else self.value(I, st, m, tok)

    def value(self, I, st, m, tok):
        k = tok[0]
        tgt, s, x = m.reg

        def to(status, sk=m.sk, x=None):
            return m._replace(sk=sk, reg=(tgt, status, x))
        if s in ('v', 'ab', 'ac'):
            if s != 'v' and k == 'ArrayEnd':
                return self.close(I, st, m)
            if k == 'ArrayBegin':
                return to('ab', m.sk + (('A', (), None),))
            if k == 'ObjectBegin':
                return to('ob', m.sk + (('O', (), None),))
            if k == 'Number':
                return self.push(I, st, m, ('num', tok[1]))
            if k == 'BigInt':
                return self.push(I, st, m, ('big', tok[1]))
            if k == 'String':
                return self.push(I, st, m, ('str', tok[1]))
            if k != 'Id':
                return None
            if m.dt != 'Mjs' and self.isid(I, st, tok, 'require'):
                return m._replace(dt='Cjs', reg=(tgt, 'ib', None))
            for i, w in enumerate(KEYV):
                if self.isid(I, st, tok, w):
                    return self.push(I, st, m, ('null',) if i == 0 else ('bool', int(i == 1)))
            for n, v in m.cs:
                if self.eq(I, st, tok[1], n):
                    return self.push(I, st, m, v)
            return None
        if s == 'av':
            return self.close(I, st, m) if k == 'ArrayEnd' else to('ac') if k == 'Comma' else None
        if s in ('ob', 'ocm'):
            if k == 'ObjectEnd':
                return self.close(I, st, m)
            if k == 'String' or k == 'Id' and m.dt != 'Json':
                return to('ok', m.sk[:-1] + (('O', m.sk[-1][1], tok[1]),))
            return None
        if s == 'ok':
            return to('v') if k == 'Colon' else None
        if s == 'ov':
            return self.close(I, st, m) if k == 'ObjectEnd' else to('ocm') if k == 'Comma' else None
        if s == 'ib':
            return to('iv') if k == 'OpeningParenthesis' else None
        if s == 'iv':
            return ('load', txt(tok[1]), m) if k == 'String' else None
        if s == 'ie':
            return self.push(I, st, m, x) if k == 'ClosingParenthesis' else None
        raise AssertionError(s)

    def close(self, I, st, m):
        f = m.sk[-1]
        v = ('arr', f[1]) if f[0] == 'A' else ('obj', f[1])
        return self.push(I, st, m._replace(sk=m.sk[:-1]), v)

    def push(self, I, st, m, v):
        tgt = m.reg[0]
        if not m.sk:
            if tgt[0] == 'final':
                return m._replace(ph='done', reg=v)
            return self.define(I, st, m, tgt[1], v)._replace(ph='i0', reg=None)
        f = m.sk[-1]
        if f[0] == 'A':
            return m._replace(sk=m.sk[:-1] + (('A', f[1] + (v,), None),), reg=(tgt, 'av', None))
        o = [(n, x) for n, x in f[1] if not self.eq(I, st, n, f[2])]
        return m._replace(sk=m.sk[:-1] + (('O', tuple(o) + ((f[2], v),), None),), reg=(tgt, 'ov', None))

    # ---- product plumbing
    def regs(self, rs):
        return []

    def rename(self, rs, c):
        return R(rs.k, tuple(self.ren_m(m, c) for m in rs.mods), tuple(sorted((p, c.value(v)) for p, v in rs.cache)), rs.prog, rs.x)

    def ren_m(self, m, c):
        def fr(f):
            if f[0] == 'A':
                return ('A', tuple(c.value(v) for v in f[1]), None)
            return ('O', tuple(sorted(((c.chars(n), c.value(v)) for n, v in f[1]), key=repr)), None if f[2] is None else c.chars(f[2]))
        reg = m.reg
        if m.ph == 'done':
            reg = c.value(reg)
        elif m.ph == 'val':
            tgt, s, x = reg
            reg = (tgt if tgt[0] == 'final' else ('const', c.chars(tgt[1])), s, None if x is None else c.value(x))
        elif reg is not None:
            reg = c.chars(reg)
        cs = tuple(sorted(((c.chars(n), c.value(v)) for n, v in m.cs), key=repr))
        return M(m.path, m.ph, m.dt, cs, tuple(fr(f) for f in m.sk), reg)

    def rename_out(self, o, c):
        if o[:2] == ('Res', 'Ok'):
            return ('Res', 'Ok', c.value(o[2]), o[3])
        return o

    def canon(self, I, st, regs):
        return PCanon(I, st, regs)

    def collect(self, I, st):
        o = list(st.out)
        st.out = ()
        return o

    def finish(self, I, st, result):
        if type(result) is not Agg:
            raise Mis('the result is %r' % (result,))
        if result.v == 1:
            return [('Res', 'Err')]
        r = dict(zip(self.rf, result.f[0].f))
        return [('Res', 'Ok', any_term(I, st, r['any']), self.dn[r['data_type'].v])]

    def equal(self, I, st, e, a):
        if e[:2] != a[:2]:
            return False
        if e[:2] == ('Res', 'Ok'):
            return norm_val(st, e[2]) == norm_val(st, a[2]) and e[3] == a[3]
        return e == a

    def show(self, o):
        if o[:2] == ('Res', 'Ok'):
            return 'Ok(%s, %s)' % (show_val(o[2]), o[3])
        if o[0] == 'Res':
            return 'an error'
        return '%s(%s)' % (o[0], o[1])


def show_val(t):
    k = t[0]
    if k == 'arr':
        return '[%s]' % ', '.join(show_val(x) for x in t[1])
    if k == 'obj':
        return '{%s}' % ', '.join('%s: %s' % (txt(n), show_val(v)) for n, v in t[1])
    if k == 'str':
        return '"%s"' % txt(t[1])
    if k == 'v':
        return 'v%s' % t[1][1]
    if k == 'null':
        return 'null'
    if k == 'bool':
        return 'true' if t[1] else 'false'
    return '%s%s' % (k, t[1][1] if len(t) > 1 else '')


def resolve(path, spec):
    """the path that `spec` means inside the file `path` (both concrete)"""
    d = path.rsplit('/', 1)[0] if '/' in path else ''
    full = d + '/' + spec if d else spec
    root = '/' if full.startswith('/') else ''
    o = []
    for c in full.split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if o and o[-1] != '..':
                o.pop()
            elif not root:
                o.append(c)
        else:
            o.append(c)
    return root + '/'.join(o)


# ------------------------------------------------------------------ natives
def any_term(I, st, v):
    n = 0
    while type(v) in (Ptr, Agg) and n < 6:
        if type(v) is Ptr:
            v = rd(I, st, v)
        elif len(v.f) == 1:
            v = v.f[0]
        n += 1
    if type(v) is Opq and v.t[0] == 'any':
        return v.t[1]
    raise Unmodelled('a value is expected: %r' % (v,))


def install(I, F):
    N = I.nat_by_def
    I.opts['str_eq'] = str_eq_hook
    I.opts['str_cmp'] = str_cmp_hook

    def flex(I, st, a, fn):
        t = F.types[fn['args'][0]]
        v = a[0]
        if type(v) is not VecV or v.kind == 'tokens':
            raise Unmodelled('elements of a new array')
        if t['s'] == 'u16':
            return Opq(('ref', ('str', unit_chars(v.e))))
        if t['k'] == 'tuple':
            o = []
            for p in v.e:
                k = p.f[0]
                if not (type(k) is Opq and k.t[0] == 'ref' and k.t[1][0] == 'str'):
                    raise Unmodelled('a property name is expected: %r' % (k,))
                o.append((k.t[1][1], any_term(I, st, p.f[1])))
            return Opq(('ref', ('obj', tuple(o))))
        return Opq(('ref', ('arr', tuple(any_term(I, st, x) for x in v.e))))

    def ident(I, st, a, fn):
        return a[0]

    def to_any(I, st, a, fn):
        v = a[0]
        t = F.types[fn['locals'][1]]
        if type(v) is Opq and v.t[0] == 'ref':
            return Opq(('any', v.t[1]))
        if type(v) is Opq and v.t[0] == 'num':
            return Opq(('any', ('num', v.t[1])))
        if type(v) is FloatV:
            return Opq(('any', ('num', ('lit', v.b))))
        if t['k'] == 'bool':
            return Opq(('any', ('bool', int(bool(I.cmp(st, 'Ne', v, 0))))))
        if t['s'].endswith('Null'):
            return Opq(('any', ('null',)))
        raise Unmodelled('conversion of %r to a value' % (v,))

    def clone(I, st, a, fn):
        v = rd(I, st, a[0])
        if type(v) is Opq and v.t[0] in ('any', 'ref'):
            return v
        raise Unmodelled('clone of %r' % (v,))
    N['vroots::io::env_flex'] = flex
    N['nanvm_lib::mem::mut_ref::MutRef::<T, D>::to_ref'] = ident
    for f in F.fns:
        nd = f['nd']
        if nd.startswith('nanvm_lib::js::any::<impl') and nd.endswith('>::move_from') or nd == 'nanvm_lib::js::any_cast::AnyCast::move_to_any':
            N[nd] = to_any
    N['<nanvm_lib::mem::optional_ref::OptionalRef<T> as std::clone::Clone>::clone'] = clone

    def read(I, st, a, fn):
        from .natives import strv
        s = strv(I, st, a[0]).s
        if st.answer is None or st.answer[0] != 'read':
            if any(type(c) is not int for c in s):
                raise Unmodelled('symbolic path')
            st.out = st.out + (('Read', txt(s)),)
            st.env['asked'] = True
            raise Sync('read')
        c = st.answer[1]
        st.answer = None
        if c is None:
            return Agg(1, (Opq(('ioerror',)),))
        return Agg(0, (StrV(c),))

    def tokenize(I, st, a, fn):
        s = a[1].s if type(a[1]) is StrV else None
        if not (s is not None and len(s) == 1 and type(s[0]) is tuple and s[0][0] == 'F' and s[0] == st.env.get('content')):
            raise Unmodelled('tokens of something that is not the contents of the file just read')
        return VecV((Opq(('tokens',)),), 0, 'tokens')

    def into_iter(I, st, a, fn):
        if type(a[0]) is VecV and a[0].kind == 'tokens':
            return ItV('tokens', ())
        return NAT['<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter'](I, st, a, fn)

    def next_token(I, st, p, it):
        if it.a:
            raise Unmodelled('tokens are asked for after the end')
        if st.answer is None or st.answer[0] != 'token':
            raise Sync('token')
        t = st.answer[1]
        st.answer = None
        if t is None:
            wr(I, st, p, ItV('tokens', (1,)))
            return NONE
        return some(t)
    def env_token(I, st, a, fn):
        if st.env.get('over'):
            raise Unmodelled('tokens are asked for after the end')
        if st.answer is None or st.answer[0] != 'token':
            raise Sync('token')
        t = st.answer[1]
        st.answer = None
        if t is None:
            st.env['over'] = True
            return NONE
        return some(t)

    def env_import(I, st, a, fn):
        s = a[0].s
        st.out = st.out + (('Import', txt(s) if all(type(c) is int for c in s) else repr(s)),)
        return UNIT
    N['vroots::io::env_token'] = env_token
    N['vroots::io::env_import'] = env_import
    N['vroots::io::env_read'] = read
    N['nanvm_lib::tokenizer::tokenize'] = tokenize
    N['<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter'] = into_iter
    HOOK_NEXT['tokens'] = next_token


def unit_chars(e):
    """UTF-16 code units back to characters; names stand for themselves"""
    o = []
    i = 0
    while i < len(e):
        c = e[i]
        if type(c) is int and 0xD800 <= c < 0xDC00 and i + 1 < len(e) and type(e[i + 1]) is int and 0xDC00 <= e[i + 1] < 0xE000:
            c = 0x10000 + ((c - 0xD800) << 10) + (e[i + 1] - 0xDC00)
            i += 1
        o.append(c)
        i += 1
    return tuple(o)


def run(F, cfg):
    I = Interp(F, dict(NAT))
    install(I, F)
    ref = ParseRef(F, cfg)
    st = State()
    path = cfg.get('path', 'd/r')
    P = Product(I, ref)
    if cfg.get('push'):
        I.push(st, F.roots['root_push'], [])
        P.start(st, R('run', (M(path, 'i1', 'Json', (), (), None),), (), (), None), [])
        return P
    I.push(st, F.roots['root_parse'], [StrV(S(path))])
    rs = R('read', (), (), (resolve('', path),), path)
    n = P.start(st, rs, [('Read', path)])
    return P
