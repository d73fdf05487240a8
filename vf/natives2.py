"""More models of standard-library operations: string patterns and slicing, formatting,
maps and sets, cells, numeric intrinsics."""
import re
from .val import *
from .interp import Unmodelled, Panic, PushFrame, Split
from .natives import (NAT, nat, rd, wr, some, NONE, ok, err, strv, S, sclean, _itself, str_eq, deep_eq, seq_of, clean, vec_from_elem,
                      range_bounds, _slice_like, index_common, is_pod, val_cmp, vecp, it_len, charidx)


def tn(I, fn, i=0):
    a = [x for x in fn['args'] if isinstance(x, int)]
    return I.F.types[a[i]]['s'] if i < len(a) else ''


# ------------------------------------------------------------------ boxes and vec![]
@nat('std::boxed::box_new_uninit', 'std::boxed::Box::<T>::new_uninit')
def box_new_uninit(I, st, a, fn):
    p = Ptr(st.alloc(Agg(0, (UNIT, None))), ())
    if fn['nd'].endswith('box_new_uninit'):
        return p
    return Agg(0, (Agg(0, (Agg(0, (p,)), UNIT)), UNIT))


@nat('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(I, st, a, fn):
    v = rd(I, st, I.dig_ptr(a[0]) if type(a[0]) is Agg else a[0])
    while type(v) is Agg:
        v = v.f[-1]
    if type(v) is not VecV:
        raise Unmodelled('vec! of %r' % (v,))
    return v


@nat('<std::boxed::Box<T, A> as std::ops::Drop>::drop', '<std::rc::Rc<T, A> as std::ops::Drop>::drop', '<std::sync::Arc<T, A> as std::ops::Drop>::drop')
def box_drop(I, st, a, fn):
    return UNIT


@nat('std::num::NonZero::<T>::new')
def nonzero_new(I, st, a, fn):
    if I.cmp(st, 'Eq', a[0], 0):
        return NONE
    return some(Agg(0, (a[0],)))


@nat('std::num::NonZero::<T>::get')
def nonzero_get(I, st, a, fn):
    v = a[0]
    while type(v) is Agg:
        v = v.f[0]
    return v


# ------------------------------------------------------------------ cells
@nat('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new', 'std::cell::UnsafeCell::<T>::new')
def cell_new(I, st, a, fn):
    return Agg(0, (a[0],))


@nat('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::get_mut', 'std::cell::Cell::<T>::get_mut')
def cell_borrow(I, st, a, fn):
    p, v = _itself(I, st, a[0])
    return Ptr(p.b, p.p + (0,))


@nat('<std::cell::Ref<\'_, T> as std::ops::Deref>::deref', '<std::cell::RefMut<\'_, T> as std::ops::Deref>::deref',
     '<std::cell::RefMut<\'_, T> as std::ops::DerefMut>::deref_mut')
def ref_deref(I, st, a, fn):
    return rd(I, st, a[0])


@nat('std::cell::Cell::<T>::get')
def cell_get(I, st, a, fn):
    return _itself(I, st, a[0])[1].f[0]


@nat('std::cell::Cell::<T>::set', 'std::cell::Cell::<T>::replace', 'std::cell::RefCell::<T>::replace')
def cell_set(I, st, a, fn):
    p, v = _itself(I, st, a[0])
    wr(I, st, Ptr(p.b, p.p + (0,)), a[1])
    return UNIT if fn['nd'].endswith('set') else v.f[0]


@nat('std::cell::RefCell::<T>::into_inner', 'std::cell::Cell::<T>::into_inner')
def cell_into(I, st, a, fn):
    return a[0].f[0]


@nat('std::rc::Rc::<T, A>::ptr_eq', 'std::sync::Arc::<T, A>::ptr_eq')
def rc_ptr_eq(I, st, a, fn):
    return int(rd(I, st, a[0]) == rd(I, st, a[1]))


# ------------------------------------------------------------------ integer intrinsics
def _bits(I, st, fn, f):
    t = fn['args'][0]
    bits, sg = I.F.int_info(t)
    return bits


def _bitfn(name, g):
    def f(I, st, a, fn):
        bits, sg = I.F.int_info(fn['args'][0])
        v = I.concretize(st, a[0])
        return g(v & ((1 << bits) - 1), bits)
    NAT.setdefault('intrinsic:' + name, f)


_bitfn('ctlz', lambda v, n: n - v.bit_length())
_bitfn('ctlz_nonzero', lambda v, n: n - v.bit_length())
_bitfn('cttz', lambda v, n: n if v == 0 else (v & -v).bit_length() - 1)
_bitfn('cttz_nonzero', lambda v, n: n if v == 0 else (v & -v).bit_length() - 1)
_bitfn('ctpop', lambda v, n: bin(v).count('1'))
_bitfn('bswap', lambda v, n: int.from_bytes(v.to_bytes(n // 8, 'little'), 'big'))


@nat('intrinsic:rotate_left', 'intrinsic:rotate_right')
def rotate(I, st, a, fn):
    bits, sg = I.F.int_info(fn['args'][0])
    v, k = I.concretize(st, a[0]) & ((1 << bits) - 1), I.concretize(st, a[1]) % bits
    if fn['intr'] == 'rotate_right':
        k = (bits - k) % bits
    r = ((v << k) | (v >> (bits - k))) & ((1 << bits) - 1) if k else v
    return I.wrap(st, r, fn['args'][0])


@nat('intrinsic:three_way_compare')
def three_way(I, st, a, fn):
    if I.cmp(st, 'Lt', a[0], a[1]):
        return Agg(0, ())
    return Agg(1, ()) if I.cmp(st, 'Eq', a[0], a[1]) else Agg(2, ())


# ------------------------------------------------------------------ bytes of strings
def enc(c):
    return tuple(chr(c).encode('utf-8', 'surrogatepass'))


def to_bytes(I, st, v):
    """UTF-8 bytes of a string; a symbolic character has to be known to be ASCII"""
    o = []
    for c in sclean(v).s:
        if isinstance(c, int):
            o += enc(c)
        elif isinstance(c, Lin):
            if not I.decide_in(st, c, ((0, 0x7F),)):
                raise Unmodelled('bytes of a symbolic non-ASCII character')
            o.append(c)
        else:
            raise Unmodelled('bytes of a symbolic string')
    return tuple(o)


def from_bytes(I, st, e):
    """string of UTF-8 bytes, or None if they are not valid"""
    o = []
    run = []
    for b in e:
        if isinstance(b, int):
            run.append(b)
            continue
        if run:
            o += run_chars(run)
            run = []
        if not I.decide_in(st, b, ((0, 0x7F),)):
            raise Unmodelled('text of symbolic non-ASCII bytes')
        o.append(b)
    try:
        o += run_chars(run)
    except UnicodeDecodeError:
        return None
    return StrV(tuple(o))


def run_chars(run):
    return [ord(c) for c in bytes(run).decode('utf-8')]


@nat('std::str::<impl str>::bytes')
def str_bytes_it(I, st, a, fn):
    return ItV('into', (to_bytes(I, st, strv(I, st, a[0])), 0))


@nat('<std::str::Bytes<\'_> as std::iter::Iterator>::next')
def bytes_next(I, st, a, fn):
    return NAT['<std::vec::IntoIter<T, A> as std::iter::Iterator>::next'](I, st, a, fn)


@nat('<std::str::Bytes<\'_> as std::iter::DoubleEndedIterator>::next_back')
def bytes_next_back(I, st, a, fn):
    return NAT['<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back'](I, st, a, fn)


@nat('std::str::<impl str>::as_bytes', 'std::string::String::as_bytes', '<std::string::String as std::convert::AsRef<[u8]>>::as_ref',
     'std::str::<impl std::convert::AsRef<[u8]> for str>::as_ref')
def as_bytes(I, st, a, fn):
    v = strv(I, st, a[0])
    if any(type(c) is not int for c in v.s):
        return v
    b = to_bytes(I, st, v)
    return SliceP(Ptr(('c', ConstBox(VecV(b))), ()), 0, len(b))


@nat('std::string::String::into_bytes')
def into_bytes(I, st, a, fn):
    v = strv(I, st, a[0])
    if any(type(c) is tuple for c in v.s):
        return v
    return VecV(to_bytes(I, st, v))


def _bytes_arg(I, st, p):
    if type(p) is StrV:
        return p
    if type(p) is VecV:
        return from_bytes(I, st, p.e)
    if type(p) is Ptr and type(rd(I, st, p)) is StrV:
        return rd(I, st, p)
    return from_bytes(I, st, seq_of(I, st, p))


@nat('std::str::from_utf8', 'std::string::String::from_utf8')
def from_utf8(I, st, a, fn):
    v = _bytes_arg(I, st, a[0])
    return ok(v) if v is not None else err(Agg(0, (Opq(('utf8error',)),)))


@nat('std::str::from_utf8_unchecked', 'std::string::String::from_utf8_unchecked')
def from_utf8_unchecked(I, st, a, fn):
    v = _bytes_arg(I, st, a[0])
    if v is None:
        raise Unmodelled('from_utf8_unchecked of invalid bytes')
    return v


@nat('std::string::String::from_utf8_lossy')
def from_utf8_lossy(I, st, a, fn):
    v = _bytes_arg(I, st, a[0])
    if v is None:
        raise Unmodelled('from_utf8_lossy of invalid bytes')
    return Agg(0, (v,))


def units_of(I, st, s):
    """UTF-16 code units of a string"""
    o = []
    for c in s:
        if isinstance(c, int):
            if c >= 0x10000:
                o += [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)]
            else:
                o.append(c)
        elif isinstance(c, Lin):
            if I.decide_in(st, c, ((0, 0xFFFF),)):
                o.append(c)
            else:
                raise Unmodelled('UTF-16 units of a symbolic character above U+FFFF')
        else:
            o.append(c)
    return tuple(o)


@nat('std::str::<impl str>::encode_utf16')
def encode_utf16(I, st, a, fn):
    h = I.opts.get('encode_utf16')
    v = strv(I, st, a[0])
    if h:
        return ItV('into', (h(I, st, v.s), 0))
    return ItV('into', (units_of(I, st, v.s), 0))


@nat('<std::str::EncodeUtf16<\'a> as std::iter::Iterator>::next')
def encode_utf16_next(I, st, a, fn):
    return NAT['<std::vec::IntoIter<T, A> as std::iter::Iterator>::next'](I, st, a, fn)


def chars_of_units(I, st, e):
    """characters of UTF-16 code units; None for an unpaired surrogate"""
    o = []
    i = 0
    while i < len(e):
        u = e[i]
        if type(u) is tuple:
            o.append(u)
            i += 1
            continue
        if not I.decide_in(st, u, ((0xD800, 0xDFFF),)):
            o.append(u)
            i += 1
            continue
        if I.decide_in(st, u, ((0xDC00, 0xDFFF),)) or i + 1 == len(e) or type(e[i + 1]) is tuple \
                or not I.decide_in(st, e[i + 1], ((0xDC00, 0xDFFF),)):
            o.append(None)
            i += 1
            continue
        o.append(lin_add(lin_add(lin_mul(lin_add(u, -0xD800), 0x400), lin_add(e[i + 1], -0xDC00)), 0x10000))
        i += 2
    return o


@nat('std::string::String::from_utf16', 'std::string::String::from_utf16_lossy')
def from_utf16(I, st, a, fn):
    o = chars_of_units(I, st, seq_of(I, st, a[0]))
    if fn['nd'].endswith('lossy'):
        return StrV(tuple(0xFFFD if c is None else c for c in o))
    return err(Agg(0, (UNIT,))) if None in o else ok(StrV(tuple(o)))


@nat('std::char::methods::<impl char>::encode_utf8')
def encode_utf8(I, st, a, fn):
    return StrV((a[0],))


@nat('std::char::methods::<impl char>::encode_utf16')
def char_encode_utf16(I, st, a, fn):
    u = units_of(I, st, (a[0],))
    sp = _slice_like(I, st, a[1])
    for i, x in enumerate(u):
        I.write_at(st, sp.ptr.b, sp.ptr.p + (sp.s + i,), x)
    return SliceP(sp.ptr, sp.s, len(u))


# ------------------------------------------------------------------ positions inside strings
def clen(I, st, c):
    """UTF-8 length of one character, a concrete number (splits)"""
    if isinstance(c, int):
        return len(enc(c))
    if isinstance(c, Lin):
        for hi, n in ((0x7F, 1), (0x7FF, 2), (0xFFFF, 3)):
            if I.decide_in(st, c, ((0, hi),)):
                return n
        return 4
    raise Unmodelled('position inside a symbolic string')


def cut(I, st, s, pos):
    """index of the character that starts at byte `pos`; None if not a boundary"""
    if isinstance(pos, Lin) or any(type(c) is tuple for c in s):
        n = 0
        for i in range(len(s) + 1):
            if I.cmp(st, 'Eq', n, pos) if (isinstance(n, Lin) or isinstance(pos, Lin)) else n == pos:
                return i
            if i < len(s):
                n = lin_add(n, I.str_len(st, StrV(s[i:i + 1])))
        if any(type(c) is tuple for c in s):
            raise Unmodelled('position inside a symbolic string')
        return None
    n = 0
    for i, c in enumerate(s):
        if n == pos:
            return i
        if n > pos:
            return None
        n += clen(I, st, c)
    return len(s) if n == pos else None


def substr_from(I, st, v, n):
    """pointer into a string, `n` bytes further"""
    r = substr(I, st, sclean(v).s, n, None)
    if r is None:
        raise Unmodelled('pointer inside a character')
    return StrV(r)


def substr_to(I, st, v, n):
    r = substr(I, st, sclean(v).s, 0, n)
    if r is None:
        raise Unmodelled('string slice that ends inside a character')
    return StrV(r)


def substr(I, st, s, lo, hi):
    i = cut(I, st, s, lo)
    j = len(s) if hi is None else cut(I, st, s, hi)
    if i is None or j is None or i > j:
        return None
    return s[i:j]


def str_range(I, st, s, r, tyname):
    if 'RangeFull' in tyname:
        return s
    n = I.str_len(st, StrV(s))
    lo, hi = range_bounds(I, st, r, tyname, None)
    return substr(I, st, s, lo, hi)


def _rangety(I, fn):
    for x in fn['args']:
        if isinstance(x, int) and 'Range' in I.F.types[x]['s']:
            return I.F.types[x]['s']
    m = re.search(r'Range\w*', fn['nd'] + fn['name'])
    return m.group(0) if m else ''


@nat('<std::string::String as std::ops::Index<I>>::index', 'std::str::traits::<impl std::ops::Index<I> for str>::index',
     '<std::string::String as std::ops::IndexMut<I>>::index_mut', 'std::str::traits::<impl std::ops::IndexMut<I> for str>::index_mut')
def str_index(I, st, a, fn):
    r = str_range(I, st, strv(I, st, a[0]).s, a[1], _rangety(I, fn))
    if r is None:
        raise Panic('str index out of range or not on a character boundary', I.where(st))
    return StrV(r)


@nat('std::str::<impl str>::get', 'std::str::<impl str>::get_unchecked')
def str_get(I, st, a, fn):
    r = str_range(I, st, strv(I, st, a[0]).s, a[1], _rangety(I, fn))
    if fn['nd'].endswith('unchecked'):
        if r is None:
            raise Unmodelled('get_unchecked out of range')
        return StrV(r)
    return NONE if r is None else some(StrV(r))


@nat('std::str::<impl str>::split_at', 'std::str::<impl str>::split_at_checked')
def str_split_at(I, st, a, fn):
    s = strv(I, st, a[0]).s
    i = cut(I, st, s, a[1])
    chk = fn['nd'].endswith('checked')
    if i is None:
        if chk:
            return NONE
        raise Panic('split_at: not a character boundary', I.where(st))
    r = Agg(0, (StrV(s[:i]), StrV(s[i:])))
    return some(r) if chk else r


@nat('std::str::<impl str>::is_char_boundary')
def str_boundary(I, st, a, fn):
    return int(cut(I, st, strv(I, st, a[0]).s, a[1]) is not None)


def _str_mut(I, st, p):
    v = rd(I, st, p)
    if type(v) is Ptr:
        return _str_mut(I, st, v)
    return p, sclean(v)


@nat('std::string::String::remove')
def string_remove(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    i = cut(I, st, v.s, a[1])
    if i is None or i == len(v.s):
        raise Panic('cannot remove a char from the end of a string', I.where(st))
    if type(v.s[i]) is tuple:
        raise Unmodelled('String::remove on a symbolic string')
    wr(I, st, p, StrV(v.s[:i] + v.s[i + 1:]))
    return v.s[i]


@nat('std::string::String::insert')
def string_insert(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    i = cut(I, st, v.s, a[1])
    if i is None:
        raise Panic('String::insert', I.where(st))
    wr(I, st, p, StrV(v.s[:i] + (a[2],) + v.s[i:]))
    return UNIT


@nat('std::string::String::insert_str')
def string_insert_str(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    x = strv(I, st, a[2]).s
    i = cut(I, st, v.s, a[1])
    if i is None:
        raise Panic('String::insert_str', I.where(st))
    wr(I, st, p, StrV(v.s[:i] + x + v.s[i:]))
    return UNIT


@nat('std::string::String::truncate')
def string_truncate(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    n = I.str_len(st, v)
    if I.cmp(st, 'Ge', a[1], n):
        return UNIT
    i = cut(I, st, v.s, a[1])
    if i is None:
        raise Panic('String::truncate', I.where(st))
    wr(I, st, p, StrV(v.s[:i]))
    return UNIT


@nat('std::string::String::split_off')
def string_split_off(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    i = cut(I, st, v.s, a[1])
    if i is None:
        raise Panic('String::split_off', I.where(st))
    wr(I, st, p, StrV(v.s[:i]))
    return StrV(v.s[i:])


@nat('std::string::String::replace_range')
def string_replace_range(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    x = strv(I, st, a[2]).s
    ty = _rangety(I, fn)
    lo, hi = (0, None) if 'RangeFull' in ty else range_bounds(I, st, a[1], ty, None)
    i = cut(I, st, v.s, lo)
    j = len(v.s) if hi is None else cut(I, st, v.s, hi)
    if i is None or j is None or i > j:
        raise Panic('String::replace_range', I.where(st))
    wr(I, st, p, StrV(v.s[:i] + x + v.s[j:]))
    return UNIT


@nat('std::string::String::drain')
def string_drain(I, st, a, fn):
    p, v = _str_mut(I, st, a[0])
    ty = _rangety(I, fn)
    lo, hi = (0, None) if 'RangeFull' in ty else range_bounds(I, st, a[1], ty, None)
    i = cut(I, st, v.s, lo)
    j = len(v.s) if hi is None else cut(I, st, v.s, hi)
    if i is None or j is None or i > j:
        raise Panic('String::drain', I.where(st))
    wr(I, st, p, StrV(v.s[:i] + v.s[j:]))
    return ItV('chars', v.s[i:j])


@nat('<std::string::Drain<\'_> as std::iter::Iterator>::next')
def sdrain_next(I, st, a, fn):
    return NAT['<std::str::Chars<\'a> as std::iter::Iterator>::next'](I, st, a, fn)


@nat('<std::string::Drain<\'_> as std::iter::DoubleEndedIterator>::next_back')
def sdrain_next_back(I, st, a, fn):
    return NAT['<std::str::Chars<\'a> as std::iter::DoubleEndedIterator>::next_back'](I, st, a, fn)


@nat('std::str::Chars::<\'a>::as_str', 'std::str::CharIndices::<\'a>::as_str')
def chars_as_str(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k == 'chars':
        return StrV(it.a)
    if it.k == 'charidx':
        return StrV(it.a[1])
    raise Unmodelled('as_str')


@nat('<std::str::CharIndices<\'a> as std::iter::DoubleEndedIterator>::next_back')
def char_indices_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    it = charidx(it)
    n, s = it.a
    if not s:
        return NONE
    if type(s[-1]) is tuple:
        raise Unmodelled('char_indices of symbolic segment')
    k = lin_add(n, I.str_len(st, StrV(s[:-1])))
    wr(I, st, p, ItV('charidx', (n, s[:-1])))
    return some(Agg(0, (k, s[-1])))


@nat('<std::str::CharIndices<\'a> as std::iter::Iterator>::size_hint', '<std::str::Bytes<\'_> as std::iter::Iterator>::size_hint')
def ci_size_hint(I, st, a, fn):
    return Agg(0, (0, NONE))


@nat('<std::str::CharIndices<\'_> as std::clone::Clone>::clone', '<std::str::CharIndices<\'a> as std::clone::Clone>::clone',
     '<std::vec::IntoIter<T, A> as std::clone::Clone>::clone', '<std::str::Bytes<\'_> as std::clone::Clone>::clone',
     '<std::str::Bytes<\'a> as std::clone::Clone>::clone')
def it_clone(I, st, a, fn):
    return _itself(I, st, a[0])[1]


@nat('std::str::CharIndices::<\'a>::offset')
def ci_offset(I, st, a, fn):
    return charidx(_itself(I, st, a[0])[1]).a[0]


@nat('<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint', '<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::size_hint',
     '<std::collections::vec_deque::Iter<\'_, T> as std::iter::Iterator>::size_hint', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::size_hint',
     '<std::vec::Drain<\'_, T, A> as std::iter::Iterator>::size_hint', '<std::collections::vec_deque::Iter<\'a, T> as std::iter::Iterator>::size_hint')
def into_size_hint(I, st, a, fn):
    n = it_len(_itself(I, st, a[0])[1])
    return Agg(0, (n, some(n)))


@nat('<std::slice::IterMut<\'_, T> as std::iter::ExactSizeIterator>::len')
def im_len(I, st, a, fn):
    return it_len(_itself(I, st, a[0])[1])


@nat('<std::slice::Iter<\'a, T> as std::iter::Iterator>::__iterator_get_unchecked', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::__iterator_get_unchecked',
     '<std::array::IntoIter<T, N> as std::iter::Iterator>::__iterator_get_unchecked', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::__iterator_get_unchecked',
     '<std::collections::vec_deque::Iter<\'a, T> as std::iter::Iterator>::__iterator_get_unchecked')
def it_get_unchecked(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k == 'slice':
        ptr, s, e = it.a
        return Ptr(ptr.b, ptr.p + (lin_add(s, a[1]),))
    if it.k == 'into':
        return it.a[0][it.a[1] + a[1]]
    raise Unmodelled('random access to an iterator')


# ------------------------------------------------------------------ substring search
def find_in(I, st, s, pat, frm, rev=False):
    """character index of the first (last) occurrence of `pat` in s[frm[0]:frm[1]], or None"""
    lo, hi = frm
    if any(type(c) is tuple for c in s[lo:hi]) or any(type(c) is tuple for c in pat):
        raise Unmodelled('search in a symbolic string')
    rg = range(lo, hi - len(pat) + 1)
    for i in (reversed(rg) if rev else rg):
        for x, y in zip(s[i:i + len(pat)], pat):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    break
            elif not I.cmp(st, 'Eq', x, y):
                break
        else:
            return i
    return None


def bpos(I, st, s, i):
    n = 0
    for c in s[:i]:
        n += clen(I, st, c)
    return n


@nat('<char as std::str::pattern::Pattern>::into_searcher', '<&\'b str as std::str::pattern::Pattern>::into_searcher',
     '<&\'b std::string::String as std::str::pattern::Pattern>::into_searcher', '<&&str as std::str::pattern::Pattern>::into_searcher',
     '<&\'b &\'c str as std::str::pattern::Pattern>::into_searcher')
def into_searcher(I, st, a, fn):
    s = strv(I, st, a[1]).s
    pat = (a[0],) if isinstance(a[0], (int, Lin)) else strv(I, st, a[0]).s
    # haystack, pattern, front, back, and for an empty pattern whether the next step matches
    return ItV('search', (s, pat, 0, len(s), 0))


CS = '<std::str::pattern::CharSearcher<\'a> as std::str::pattern::'
SS = '<std::str::pattern::StrSearcher<\'a, \'b> as std::str::pattern::'


@nat(CS + 'Searcher<\'a>>::haystack', SS + 'Searcher<\'a>>::haystack')
def s_haystack(I, st, a, fn):
    return StrV(_itself(I, st, a[0])[1].a[0])


@nat(CS + 'Searcher<\'a>>::next_match', SS + 'Searcher<\'a>>::next_match')
def s_next_match(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    s, pat, lo, hi, e = it.a
    if not pat:
        if lo > hi:
            return NONE
        b = bpos(I, st, s, lo)
        wr(I, st, p, ItV('search', (s, pat, lo + 1, hi, e)))
        return some(Agg(0, (b, b)))
    i = find_in(I, st, s, pat, (lo, hi))
    if i is None:
        wr(I, st, p, ItV('search', (s, pat, hi, hi, e)))
        return NONE
    b, c = bpos(I, st, s, i), bpos(I, st, s, i + len(pat))
    wr(I, st, p, ItV('search', (s, pat, i + len(pat), hi, e)))
    return some(Agg(0, (b, c)))


@nat(CS + 'ReverseSearcher<\'a>>::next_match_back', SS + 'ReverseSearcher<\'a>>::next_match_back')
def s_next_match_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    s, pat, lo, hi, e = it.a
    if not pat:
        raise Unmodelled('reverse search for an empty pattern')
    i = find_in(I, st, s, pat, (lo, hi), True)
    if i is None:
        wr(I, st, p, ItV('search', (s, pat, lo, lo, e)))
        return NONE
    b, c = bpos(I, st, s, i), bpos(I, st, s, i + len(pat))
    wr(I, st, p, ItV('search', (s, pat, lo, i, e)))
    return some(Agg(0, (b, c)))


STEPS = {'Match': 0, 'Reject': 1, 'Done': 2}


def _step(I, st, it, back):
    s, pat, lo, hi, e = it.a
    if not pat:
        raise Unmodelled('search steps of an empty pattern')
    if lo >= hi:
        return Agg(STEPS['Done'], ()), it
    n = len(pat)
    i = hi - n if back else lo
    m = i >= lo and i + n <= hi and find_in(I, st, s, pat, (i, i + n)) == i
    k = n if m else 1
    if back:
        i, j = hi - k, hi
        it = ItV('search', (s, pat, lo, i, e))
    else:
        i, j = lo, lo + k
        it = ItV('search', (s, pat, j, hi, e))
    return Agg(STEPS['Match' if m else 'Reject'], (bpos(I, st, s, i), bpos(I, st, s, j))), it


@nat(CS + 'Searcher<\'a>>::next', SS + 'Searcher<\'a>>::next')
def s_next(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    r, n = _step(I, st, it, False)
    wr(I, st, p, n)
    return r


@nat(CS + 'ReverseSearcher<\'a>>::next_back', SS + 'ReverseSearcher<\'a>>::next_back')
def s_next_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    r, n = _step(I, st, it, True)
    wr(I, st, p, n)
    return r


@nat(CS + 'Searcher<\'a>>::next_reject', SS + 'Searcher<\'a>>::next_reject')
def s_next_reject(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    s, pat, lo, hi, e = it.a
    if not pat:
        raise Unmodelled('reject search for an empty pattern')
    i = lo
    while i < hi:
        if find_in(I, st, s, pat, (i, min(hi, i + len(pat)))) != i:
            b = bpos(I, st, s, i)
            c = b + clen(I, st, s[i])
            wr(I, st, p, ItV('search', (s, pat, i + 1, hi, e)))
            return some(Agg(0, (b, c)))
        i += len(pat)
    wr(I, st, p, ItV('search', (s, pat, hi, hi, e)))
    return NONE


@nat(CS + 'ReverseSearcher<\'a>>::next_reject_back', SS + 'ReverseSearcher<\'a>>::next_reject_back')
def s_next_reject_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    s, pat, lo, hi, e = it.a
    if not pat:
        raise Unmodelled('reject search for an empty pattern')
    i = hi
    while i > lo:
        j = i - len(pat)
        if j < lo or find_in(I, st, s, pat, (j, i)) != j:
            c = bpos(I, st, s, i)
            b = c - clen(I, st, s[i - 1])
            wr(I, st, p, ItV('search', (s, pat, lo, i - 1, e)))
            return some(Agg(0, (b, c)))
        i = j
    wr(I, st, p, ItV('search', (s, pat, lo, lo, e)))
    return NONE


def _pat_in(I, st, a, fn):
    """is_contained_in: pattern, haystack"""
    s = strv(I, st, a[1]).s
    pat = (a[0],) if isinstance(a[0], (int, Lin)) else strv(I, st, a[0]).s
    if any(type(c) is tuple for c in s):
        if len(pat) == 1 and type(pat[0]) is int:
            if pat[0] in s:
                return 1
            for c in s:
                if isinstance(c, Lin) and I.cmp(st, 'Eq', c, pat[0]):
                    return 1
            return int(any([I.opaque_bool(st, ('contains', c, pat)) for c in s if type(c) is tuple]))
        return int(I.opaque_bool(st, ('contains', s, pat)))
    return int(find_in(I, st, s, pat, (0, len(s))) is not None)


for _p in ('char', '&\'b str', '&\'b std::string::String'):
    NAT['<%s as std::str::pattern::Pattern>::is_contained_in' % _p] = _pat_in


def _prefix(strip, end):
    def f(I, st, a, fn):
        s = strv(I, st, a[1]).s
        pat = (a[0],) if isinstance(a[0], (int, Lin)) else strv(I, st, a[0]).s
        if any(type(c) is tuple for c in s):
            part = s[len(s) - len(pat):] if end else s[:len(pat)]
            if len(part) < len(pat) or any(type(c) is tuple for c in part):
                if strip:
                    raise Unmodelled('strip of a symbolic string')
                return int(I.opaque_bool(st, ('ends' if end else 'starts', s, pat))) if pat else 1
        ok_ = len(s) >= len(pat)
        if ok_:
            part = s[len(s) - len(pat):] if end else s[:len(pat)]
            ok_ = all(I.cmp(st, 'Eq', x, y) for x, y in zip(part, pat))
        if not strip:
            return int(ok_)
        if not ok_:
            return NONE
        return some(StrV(s[:len(s) - len(pat)] if end else s[len(pat):]))
    return f


for _p in ('char', '&\'b str', '&\'b std::string::String'):
    for _n, _s, _e in (('is_prefix_of', 0, 0), ('is_suffix_of', 0, 1), ('strip_prefix_of', 1, 0), ('strip_suffix_of', 1, 1)):
        NAT['<%s as std::str::pattern::Pattern>::%s' % (_p, _n)] = _prefix(_s, _e)


@nat('std::str::<impl str>::replace', 'std::str::<impl str>::replacen')
def str_replace(I, st, a, fn):
    if not (isinstance(a[1], (int, Lin)) or type(a[1]) is StrV or type(a[1]) is Ptr and type(rd(I, st, a[1])) is StrV):
        raise Unmodelled('replace with this kind of pattern')
    s = strv(I, st, a[0]).s
    pat = (a[1],) if isinstance(a[1], (int, Lin)) else strv(I, st, a[1]).s
    to = strv(I, st, a[2]).s
    n = I.concretize(st, a[3]) if len(a) > 3 else 1 << 60
    if not pat:
        raise Unmodelled('replace of an empty pattern')
    o = ()
    i = 0
    while n:
        j = find_in(I, st, s, pat, (i, len(s)))
        if j is None:
            break
        o += s[i:j] + to
        i = j + len(pat)
        n -= 1
    return StrV(o + s[i:])


@nat('std::str::<impl str>::repeat')
def str_repeat(I, st, a, fn):
    return StrV(strv(I, st, a[0]).s * I.concretize(st, a[1]))


def _join(I, st, a, fn):
    e = seq_of(I, st, a[0])
    if fn['nd'].endswith('concat'):
        sep = None
    else:
        sep = a[1]
    if fn['nd'].startswith('std::str::'):
        o = ()
        for i, x in enumerate(e):
            if i and sep is not None:
                o += strv(I, st, sep).s
            o += strv(I, st, x).s
        return StrV(o)
    raise Unmodelled('join')


NAT['std::str::<impl std::slice::Join<&str> for [S]>::join'] = _join
NAT['std::str::<impl std::slice::Concat<str> for [S]>::concat'] = _join


@nat('std::slice::<impl std::slice::Concat<T> for [V]>::concat')
def slice_concat(I, st, a, fn):
    o = ()
    for x in seq_of(I, st, a[0]):
        e = seq_of(I, st, x)
        if not all(is_pod(y) for y in e):
            raise Unmodelled('concat')
        o += e
    return VecV(o)


def _case(up):
    def f(I, st, a, fn):
        o = []
        for c in strv(I, st, a[0]).s:
            if not isinstance(c, int):
                raise Unmodelled('case conversion of a symbolic string')
            t = chr(c)
            if 'ascii' in fn['nd']:
                t = (t.upper() if up else t.lower()) if t.isascii() else t
            else:
                t = t.upper() if up else t.lower()
            o += [ord(x) for x in t]
        return StrV(tuple(o))
    return f


for _n in ('to_uppercase', 'to_ascii_uppercase'):
    NAT['std::str::<impl str>::' + _n] = _case(True)
for _n in ('to_lowercase', 'to_ascii_lowercase'):
    NAT['std::str::<impl str>::' + _n] = _case(False)


@nat('std::unicode::unicode_data::conversions::to_upper', 'std::unicode::unicode_data::conversions::to_lower')
def char_conv(I, st, a, fn):
    if not isinstance(a[0], int):
        raise Unmodelled('case conversion of a symbolic character')
    c = chr(a[0])
    c = c.upper() if fn['nd'].endswith('to_upper') else c.lower()
    return VecV(tuple([ord(x) for x in c] + [0] * (3 - len(c))), kind='a')


@nat('std::vec::Vec::<T, A>::extend_one', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend_one', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend_one_unchecked',
     '<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend_one', '<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend_one_unchecked')
def extend_one(I, st, a, fn):
    return NAT['std::vec::Vec::<T, A>::push'](I, st, a, fn)


@nat('std::boxed::Box::<T>::clone_from_ref_in', 'std::boxed::Box::<T, A>::clone_from_ref_in', 'std::boxed::Box::<T>::clone_from_ref',
     '<std::boxed::Box<str> as std::convert::From<&str>>::from', '<std::boxed::Box<str> as std::clone::Clone>::clone')
def box_from_ref(I, st, a, fn):
    v = a[0]
    n = 0
    while type(v) is Ptr and n < 4:
        v = rd(I, st, v)
        n += 1
    if type(v) is StrV:
        return v
    raise Unmodelled('box of a reference')


@nat('std::str::<impl str>::eq_ignore_ascii_case')
def eq_ignore(I, st, a, fn):
    x, y = strv(I, st, a[0]).s, strv(I, st, a[1]).s
    if any(not isinstance(c, int) for c in x + y):
        raise Unmodelled('eq_ignore_ascii_case of a symbolic string')
    low = lambda s: [c + 32 if 65 <= c <= 90 else c for c in s]
    return int(low(x) == low(y))


@nat('std::str::<impl str>::parse')
def str_parse(I, st, a, fn):
    t = I.F.types[fn['args'][0]]
    s = strv(I, st, a[0]).s
    if t['k'] in ('int', 'uint') and all(isinstance(c, int) for c in s):
        x = ''.join(map(chr, s))
        if re.fullmatch(r'[+-]?[0-9]+' if t['k'] == 'int' else r'\+?[0-9]+', x):
            lo, hi = rng(*I.F.int_info(fn['args'][0]))
            if lo <= int(x) <= hi:
                return ok(int(x))
        return err(Opq(('parseinterror',)))
    if t['s'].endswith('String'):
        return ok(StrV(s))
    raise Unmodelled('parse::<%s>' % t['s'])


def str_cmp(I, st, x, y):
    """-1, 0, 1; for symbolic strings an arbitrary but fixed order"""
    x, y = x.s, y.s
    if x == y:
        return 0
    h = I.opts.get('str_cmp')
    if h is not None:
        r = h(I, st, x, y)
        if r is not None:
            return r
    i = 0
    while i < len(x) and i < len(y) and type(x[i]) is not tuple and type(y[i]) is not tuple:
        if I.cmp(st, 'Lt', x[i], y[i]):
            return -1
        if not I.cmp(st, 'Eq', x[i], y[i]):
            return 1
        i += 1
    x, y = x[i:], y[i:]
    if not any(type(c) is tuple for c in x + y):
        return (len(x) > len(y)) - (len(x) < len(y))
    if str_eq(I, st, StrV(x), StrV(y)):
        return 0
    if repr(x) < repr(y):
        return -1 if I.opaque_bool(st, ('strlt', x, y)) else 1
    return 1 if I.opaque_bool(st, ('strlt', y, x)) else -1


@nat('std::str::traits::<impl std::cmp::Ord for str>::cmp', '<std::string::String as std::cmp::Ord>::cmp')
def nat_str_cmp(I, st, a, fn):
    return Agg(str_cmp(I, st, strv(I, st, a[0]), strv(I, st, a[1])) + 1, ())


@nat('std::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp', '<std::string::String as std::cmp::PartialOrd>::partial_cmp')
def nat_str_pcmp(I, st, a, fn):
    return some(Agg(str_cmp(I, st, strv(I, st, a[0]), strv(I, st, a[1])) + 1, ()))


def _pad(s, spec):
    flags, width, prec = spec
    if width is None:
        return s
    fill = flags & 0x1FFFFF
    if not all(type(c) is not tuple for c in s):
        raise Unmodelled('padding of a symbolic string')
    n = width - len(s)
    if n <= 0:
        return s
    al = (flags >> 29) & 3
    f = (fill or 32,)
    if al == 1:
        return f * n + s
    if al == 2:
        return f * (n // 2) + s + f * (n - n // 2)
    return s + f * n


def display(I, st, kind, t, p, spec):
    """text of one formatted argument"""
    d = I.F.types[t]
    v = p
    while d['k'] in ('ref', 'box'):
        nt = I.F.types[d['e']]
        if nt['k'] == 'str':
            break
        v = rd(I, st, v)
        d = nt
    flags, width, prec = spec
    if d['k'] == 'str' or d['s'].endswith('string::String') or d['s'] == '&str' or d['s'].startswith('std::borrow::Cow<'):
        s = strv(I, st, v).s
        if kind == 'debug':
            raise Unmodelled('Debug of a string')
        return _pad(s, spec)
    if type(v) is Ptr:
        v = rd(I, st, v)
    if d['k'] == 'char' and kind == 'display':
        return _pad((v,), spec)
    if d['k'] in ('int', 'uint'):
        if kind in ('display', 'debug'):
            if isinstance(v, int):
                s = tuple(map(ord, str(v)))
            else:
                s = (('disp', v),)
                if width is not None:
                    raise Unmodelled('padding of a symbolic number')
                return s
        elif kind in ('lower_hex', 'upper_hex', 'binary', 'octal'):
            if not isinstance(v, int):
                h = I.opts.get('hex')
                r = h(I, st, v, kind, spec) if h else None
                if r is None:
                    return hex_digits(I, st, v, kind, spec, I.F.int_info(t_of(I, d)))
                return r
            bits, sg = I.F.int_info(t_of(I, d))
            v &= (1 << bits) - 1
            s = tuple(map(ord, {'lower_hex': '%x', 'upper_hex': '%X', 'octal': '%o'}[kind] % v if kind != 'binary' else bin(v)[2:]))
            if flags & (1 << 23):
                s = tuple(map(ord, {'lower_hex': '0x', 'upper_hex': '0x', 'binary': '0b', 'octal': '0o'}[kind])) + s
                if flags & (1 << 24) and width is not None and len(s) < width:
                    return s[:2] + (48,) * (width - len(s)) + s[2:]
        else:
            raise Unmodelled('format ' + kind)
        if width is not None and len(s) < width:
            if flags & (1 << 24):
                return (48,) * (width - len(s)) + s
            al = (flags >> 29) & 3
            if al == 3:
                return (((flags & 0x1FFFFF) or 32,) * (width - len(s))) + s
        return _pad(s, spec)
    if d['k'] == 'bool':
        return tuple(map(ord, 'true' if I.cmp(st, 'Ne', v, 0) else 'false'))
    if d['k'] == 'float':
        if type(v) is FloatV and v.w == 64 and kind == 'display' and width is None and prec is None and not flags & 0x1FFFFF & ~32:
            f = v.f()
            if f != f:
                s = 'NaN'
            elif f in (float('inf'), float('-inf')):
                s = 'inf' if f > 0 else '-inf'
            else:
                import decimal
                s = format(decimal.Decimal(repr(f)), 'f')
                if '.' in s:
                    s = s.rstrip('0').rstrip('.')
            return tuple(map(ord, s))
        h = I.opts.get('to_string')
        r = h(I, st, v, d) if h and spec == (spec[0], None, None) and not spec[0] & 0x1FFFFF & ~32 else None
        return r.s if r is not None else (('disp', v),)
    h = I.opts.get('display')
    if h:
        r = h(I, st, v, d, kind)
        if r is not None:
            return r
    if kind == 'debug':
        return (('dbg', repr(v)[:80]),)
    raise Unmodelled('formatting of %s' % d['s'])


def t_of(I, d):
    return I.F.types.index(d)


def hex_digits(I, st, v, kind, spec, info):
    """hexadecimal text of a symbolic number: the digits are quotient terms"""
    flags, width, prec = spec
    bits, sg = info
    if sg:
        raise Unmodelled('hex of a symbolic signed number')
    n = 1
    while not I.decide_in(st, v, ((0, 16 ** n - 1),)):
        n += 1
    ds = []
    for k in range(n):
        q = I.binop(st, 'Shr', v, 4 * (n - 1 - k), t_of_bits(I, bits)) if n - 1 - k else v
        d = I.binop(st, 'BitAnd', q, 15, t_of_bits(I, bits))
        if I.decide_in(st, d, ((0, 9),)):
            ds.append(lin_add(d, 48))
        else:
            ds.append(lin_add(d, (97 if kind == 'lower_hex' else 65) - 10))
    s = tuple(ds)
    if width is not None and len(s) < width:
        if flags & (1 << 24):
            return (48,) * (width - len(s)) + s
        raise Unmodelled('padding')
    return s


def t_of_bits(I, bits):
    return I.F.find_type(lambda t: t['k'] == 'uint' and t['s'] == 'u%d' % bits)


def render(I, st, x):
    """the characters of a fmt::Arguments value"""
    if type(x) is Ptr:
        x = rd(I, st, x)
    if type(x) is not Opq or x.t[0] != 'fmtargs':
        raise Unmodelled('format arguments %r' % (x,))
    a = x.t[1]
    if len(a) == 1:
        return strv(I, st, a[0]).s
    tpl = bytes(seq_of(I, st, a[0])) if type(a[0]) is not StrV else b''.join(bytes(enc(c)) for c in a[0].s)
    args = seq_of(I, st, a[1])
    o = ()
    i = 0
    nxt = 0
    lit = b''

    def take(n):
        nonlocal i
        r = int.from_bytes(tpl[i:i + n], 'little')
        i += n
        return r
    while True:
        n = take(1)
        if n == 0:
            break
        if n < 0x80:
            o += tuple(ord(c) for c in tpl[i:i + n].decode())
            i += n
            continue
        if n == 0x80:
            m = take(2)
            o += tuple(ord(c) for c in tpl[i:i + m].decode())
            i += m
            continue
        flags, width, prec = 0x20 | (3 << 29), None, None
        if n & 1:
            flags = take(4)
        if n & 2:
            width = take(2)
        if n & 4:
            prec = take(2)
        if n & 8:
            nxt = take(2)
        if n & 0x30:
            raise Unmodelled('formatting with a run-time width')
        g = args[nxt]
        nxt += 1
        if type(g) is Ptr:
            g = rd(I, st, g)
        if type(g) is not Opq or g.t[0] != 'fmtarg':
            raise Unmodelled('format argument %r' % (g,))
        kind = g.t[1].rsplit('::new_', 1)[1]
        o += display(I, st, kind, g.t[3], g.t[2][0], (flags, width, prec))
    return o


def _fmt_arg(I, st, a, fn):
    t = [x for x in fn['args'] if isinstance(x, int)][0]
    return Opq(('fmtarg', fn['nd'], tuple(a), t))


for _n in ('display', 'debug', 'upper_hex', 'lower_hex', 'binary', 'octal'):
    NAT['std::fmt::rt::Argument::<\'_>::new_' + _n] = _fmt_arg


@nat('std::fmt::format', 'std::fmt::format::format_inner')
def fmt_format(I, st, a, fn):
    return StrV(render(I, st, a[0]))


@nat('std::fmt::Write::write_fmt')
def write_fmt(I, st, a, fn):
    t = I.F.types[[x for x in fn['args'] if isinstance(x, int)][0]]
    s = render(I, st, a[1])
    p = a[0]
    if t['s'] == 'std::string::String':
        v = rd(I, st, p)
        wr(I, st, p, StrV(v.s + s, v.drained))
        return ok(UNIT)
    for f in I.F.fns:
        if f['name'] in ('<%s as std::fmt::Write>::write_str' % t['s'], '<vroots::%s as std::fmt::Write>::write_str' % t['s']):
            raise PushFrame(f['idx'], [p, StrV(s)])
    raise Unmodelled('write! to %s' % t['s'])


@nat('std::fmt::Arguments::<\'a>::as_str', 'std::fmt::Arguments::<\'a>::as_statically_known_str')
def fmt_as_str(I, st, a, fn):
    x = a[0]
    if type(x) is Ptr:
        x = rd(I, st, x)
    if type(x) is Opq and x.t[0] == 'fmtargs' and len(x.t[1]) == 1:
        return some(strv(I, st, x.t[1][0]))
    return NONE


@nat('std::string::String::reserve', 'std::string::String::shrink_to_fit')
def sreserve(I, st, a, fn):
    return UNIT


@nat('<std::string::String as std::cmp::PartialEq<std::borrow::Cow<\'_, str>>>::eq')
def cow_eq(I, st, a, fn):
    return int(str_eq(I, st, strv(I, st, a[0]), strv(I, st, a[1])))


STRISH = r"(?:&(?:'\w+ )?(?:mut )?)*(?:str|std::string::String|std::borrow::Cow<'\w+, str>|std::boxed::Box<str>)"
STR_EQ = re.compile(r"(?:std::string::<impl std::cmp::PartialEq<%s> for %s>|<%s as std::cmp::PartialEq(?:<%s>)?>)::(eq|ne)" % ((STRISH,) * 4))


def str_eq_native(nd):
    m = STR_EQ.fullmatch(nd)
    if not m:
        return None
    neg = m.group(1) == 'ne'

    def f(I, st, a, fn):
        return int(bool(str_eq(I, st, strv(I, st, a[0]), strv(I, st, a[1]))) != neg)
    return f


# ------------------------------------------------------------------ vec extras
@nat('std::vec::Vec::<T, A>::drain', 'std::collections::VecDeque::<T, A>::drain')
def vec_drain(I, st, a, fn):
    p, v = vecp(I, st, a[0])
    clean(v)
    ty = _rangety(I, fn)
    lo, hi = (0, len(v.e)) if 'RangeFull' in ty else range_bounds(I, st, a[1], ty, len(v.e))
    lo, hi = I.concretize(st, lo), I.concretize(st, hi)
    if lo > hi or hi > len(v.e):
        raise Panic('drain range out of bounds', I.where(st))
    wr(I, st, p, VecV(v.e[:lo] + v.e[hi:], 0, v.kind))
    return ItV('into', (v.e[lo:hi], 0))


@nat('<std::vec::Drain<\'_, T, A> as std::iter::Iterator>::next', '<std::collections::vec_deque::Drain<\'_, T, A> as std::iter::Iterator>::next')
def drain_next(I, st, a, fn):
    return NAT['<std::vec::IntoIter<T, A> as std::iter::Iterator>::next'](I, st, a, fn)


@nat('<std::vec::Drain<\'_, T, A> as std::iter::DoubleEndedIterator>::next_back', '<std::collections::vec_deque::Drain<\'_, T, A> as std::iter::DoubleEndedIterator>::next_back',
     '<std::collections::vec_deque::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def drain_next_back(I, st, a, fn):
    return NAT['<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back'](I, st, a, fn)


@nat('<std::collections::vec_deque::Iter<\'a, T> as std::iter::DoubleEndedIterator>::next_back')
def vdi_next_back(I, st, a, fn):
    return NAT['<std::slice::Iter<\'a, T> as std::iter::DoubleEndedIterator>::next_back'](I, st, a, fn)


@nat('<std::vec::Vec<T, A> as std::convert::From<std::collections::VecDeque<T, A>>>::from', '<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from',
     'std::collections::vec_deque::<impl std::convert::From<std::collections::VecDeque<T, A>> for std::vec::Vec<T, A>>::from',
     '<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from', '<std::vec::Vec<T> as std::convert::From<[T; N]>>::from',
     '<std::collections::VecDeque<T> as std::convert::From<[T; N]>>::from')
def vec_from(I, st, a, fn):
    return clean(a[0])


@nat('std::slice::<impl [T]>::fill')
def slice_fill(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    if not is_pod(a[1]):
        raise Unmodelled('fill')
    for i in range(sp.n):
        I.write_at(st, sp.ptr.b, sp.ptr.p + (sp.s + i,), a[1])
    return UNIT


@nat('std::slice::<impl [T]>::copy_from_slice', 'std::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    e = seq_of(I, st, a[1])
    if len(e) != sp.n:
        raise Panic('copy_from_slice: lengths differ', I.where(st))
    if not all(is_pod(x) for x in e):
        raise Unmodelled('copy_from_slice')
    for i, x in enumerate(e):
        I.write_at(st, sp.ptr.b, sp.ptr.p + (sp.s + i,), x)
    return UNIT


@nat('std::slice::<impl [T]>::rotate_left', 'std::slice::<impl [T]>::rotate_right')
def slice_rotate(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    k = I.concretize(st, a[1])
    e = seq_of(I, st, sp)
    if k > len(e):
        raise Panic('rotate', I.where(st))
    if fn['nd'].endswith('right'):
        k = len(e) - k
    for i, x in enumerate(e[k:] + e[:k]):
        I.write_at(st, sp.ptr.b, sp.ptr.p + (sp.s + i,), x)
    return UNIT


@nat('std::slice::<impl [T]>::repeat')
def slice_repeat(I, st, a, fn):
    return VecV(seq_of(I, st, a[0]) * I.concretize(st, a[1]))


def subslices(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    n = I.concretize(st, a[1])
    if n == 0:
        raise Panic('chunk size must be non-zero', I.where(st))
    nm = fn['nd'].rsplit('::', 1)[1]
    if nm == 'windows':
        r = [(i, n) for i in range(sp.n - n + 1)]
    elif nm == 'chunks_exact':
        r = [(i, n) for i in range(0, sp.n - n + 1, n)]
    else:
        r = [(i, min(n, sp.n - i)) for i in range(0, sp.n, n)]
    return ItV('into', (tuple(SliceP(sp.ptr, sp.s + i, k) for i, k in r), 0))


for _n in ('windows', 'chunks', 'chunks_exact', 'chunks_mut'):
    NAT['std::slice::<impl [T]>::' + _n] = subslices
for _n in ('Windows', 'Chunks', 'ChunksExact', 'ChunksMut'):
    NAT['<std::slice::%s<\'a, T> as std::iter::Iterator>::next' % _n] = drain_next
    NAT['<std::slice::%s<\'a, T> as std::iter::DoubleEndedIterator>::next_back' % _n] = drain_next_back
    NAT['<std::slice::%s<\'a, T> as std::iter::Iterator>::size_hint' % _n] = into_size_hint


# ------------------------------------------------------------------ maps and sets
def key_cmp(I, st, x, y):
    """order of two keys (values or pointers to values)"""
    while type(x) is Ptr:
        x = rd(I, st, x)
    while type(y) is Ptr:
        y = rd(I, st, y)
    if type(x) is StrV and type(y) is StrV:
        return str_cmp(I, st, x, y)
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        return 0 if I.cmp(st, 'Eq', x, y) else -1 if I.cmp(st, 'Lt', x, y) else 1
    if type(x) is Agg and type(y) is Agg:
        if x.v != y.v:
            return -1 if x.v < y.v else 1
        for p, q in zip(x.f, y.f):
            c = key_cmp(I, st, p, q)
            if c:
                return c
        return 0
    if type(x) is VecV and type(y) is VecV:
        for p, q in zip(x.e, y.e):
            c = key_cmp(I, st, p, q)
            if c:
                return c
        return (len(x.e) > len(y.e)) - (len(x.e) < len(y.e))
    raise Unmodelled('map key %r' % (x,))


def key_eq(I, st, x, y):
    while type(x) is Ptr:
        x = rd(I, st, x)
    while type(y) is Ptr:
        y = rd(I, st, y)
    return deep_eq(I, st, x, y)


def mlook(I, st, m, k):
    for i, (q, v) in enumerate(m.e):
        if key_eq(I, st, q, k):
            return i
    return None


def minsert(I, st, m, k, v):
    """map with k -> v added (k absent)"""
    if m.k == 'h':
        return MapV(m.e + ((k, v),), m.k)
    i = 0
    while i < len(m.e) and key_cmp(I, st, m.e[i][0], k) < 0:
        i += 1
    return MapV(m.e[:i] + ((k, v),) + m.e[i:], m.k)


def mapp(I, st, p):
    v = rd(I, st, p)
    if type(v) is Ptr:
        return mapp(I, st, v)
    if type(v) is not MapV:
        raise Unmodelled('map expected: %r' % (v,))
    return p, v


BM, BS = 'std::collections::BTreeMap::<K, V, A>::', 'std::collections::BTreeSet::<T, A>::'
HM, HS = 'std::collections::HashMap::<K, V, S>::', 'std::collections::HashSet::<T, S>::'


def both(n, sets=False):
    r = [BM + n, HM + n, HM.replace(', S>', ', S, A>') + n]
    if sets:
        r += [BS + n, HS + n, HS.replace(', S>', ', S, A>') + n]
    return r


@nat('std::collections::BTreeMap::<K, V>::new', 'std::collections::BTreeSet::<T>::new', '<std::collections::BTreeMap<K, V> as std::default::Default>::default',
     '<std::collections::BTreeSet<T> as std::default::Default>::default')
def bmap_new(I, st, a, fn):
    return MapV((), 'b')


@nat('std::collections::HashMap::<K, V>::new', 'std::collections::HashSet::<T>::new', '<std::collections::HashMap<K, V, S> as std::default::Default>::default',
     '<std::collections::HashSet<T, S> as std::default::Default>::default', 'std::collections::HashMap::<K, V>::with_capacity',
     'std::collections::HashSet::<T>::with_capacity')
def hmap_new(I, st, a, fn):
    return MapV((), 'h')


def map_range(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    ty = _rangety(I, fn)
    if m.k != 'b':
        raise Unmodelled('range of a hash map')
    if 'RangeFull' in ty:
        lo = hi = None
    else:
        f = a[1].f if type(a[1]) is Agg else ()
        if 'RangeInclusive' in ty or 'ops::Range<' in ty:
            lo, hi = f[0], f[1]
        elif 'RangeFrom' in ty:
            lo, hi = f[0], None
        elif 'RangeTo' in ty:
            lo, hi = None, f[0]
        else:
            raise Unmodelled('range of a map by ' + ty)
    o = []
    for i, (k, v) in enumerate(m.e):
        if lo is not None and key_cmp(I, st, k, lo) < 0:
            continue
        if hi is not None:
            c = key_cmp(I, st, k, hi)
            if c > 0 or (c == 0 and 'Inclusive' not in ty):
                continue
        o.append(Ptr(p.b, p.p + (i,)) if 'Set' in fn['nd'] else _kv(p, i))
    return ItV('into', (tuple(o), 0))


for _n in both('range', True) + both('range_mut'):
    NAT[_n] = map_range


@nat(*both('insert'))
def map_insert(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    i = mlook(I, st, m, a[1])
    if i is not None:
        wr(I, st, p, MapV(m.e[:i] + ((m.e[i][0], a[2]),) + m.e[i + 1:], m.k))
        return some(m.e[i][1])
    wr(I, st, p, minsert(I, st, m, a[1], a[2]))
    return NONE


@nat(BS + 'insert', HS + 'insert', HS.replace(', S>', ', S, A>') + 'insert')
def set_insert(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    if mlook(I, st, m, a[1]) is not None:
        return 0
    wr(I, st, p, minsert(I, st, m, a[1], UNIT))
    return 1


@nat(*both('get'), *both('get_mut'))
def map_get(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    i = mlook(I, st, m, a[1])
    return NONE if i is None else some(Ptr(p.b, p.p + ((i,),)))


@nat(BM + 'first_key_value', BM + 'last_key_value')
def map_first(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    if not m.e:
        return NONE
    i = 0 if fn['nd'].endswith('first_key_value') else len(m.e) - 1
    return some(Agg(0, (Ptr(p.b, p.p + (i,)), Ptr(p.b, p.p + ((i,),)))))


@nat(*both('get_key_value'))
def map_get_kv(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    i = mlook(I, st, m, a[1])
    return NONE if i is None else some(Agg(0, (Ptr(p.b, p.p + (i,)), Ptr(p.b, p.p + ((i,),)))))


@nat('<std::collections::BTreeMap<K, V, A> as std::ops::Index<&Q>>::index', '<std::collections::HashMap<K, V, S> as std::ops::Index<&Q>>::index',
     '<std::collections::HashMap<K, V, S, A> as std::ops::Index<&Q>>::index')
def map_index(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    i = mlook(I, st, m, a[1])
    if i is None:
        raise Panic('no entry found for key', I.where(st))
    return Ptr(p.b, p.p + ((i,),))


@nat(*both('contains_key'), BS + 'contains', HS + 'contains', HS.replace(', S>', ', S, A>') + 'contains')
def map_contains(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    return int(mlook(I, st, m, a[1]) is not None)


@nat(*both('remove'), BS + 'remove', HS + 'remove', HS.replace(', S>', ', S, A>') + 'remove', *both('remove_entry'))
def map_remove(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    i = mlook(I, st, m, a[1])
    st_ = 'Set' in fn['nd']
    if i is None:
        return 0 if st_ else NONE
    wr(I, st, p, MapV(m.e[:i] + m.e[i + 1:], m.k))
    return 1 if st_ else some(Agg(0, m.e[i])) if fn['nd'].endswith('entry') else some(m.e[i][1])


@nat(*both('len', True), *both('is_empty', True))
def map_len(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    return len(m.e) if fn['nd'].endswith('len') else int(not m.e)


@nat(*both('clear', True))
def map_clear(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    wr(I, st, p, MapV((), m.k))
    return UNIT


def _kv(p, i):
    return Agg(0, (Ptr(p.b, p.p + (i,)), Ptr(p.b, p.p + ((i,),))))


@nat(*both('iter', True), *both('iter_mut'), *both('keys'), *both('values'), *both('values_mut'),
     '<&\'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter', '<&\'a mut std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter',
     '<&\'a std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter', '<&\'a mut std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter',
     '<&\'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter',
     '<&\'a std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter', '<&\'a std::collections::HashSet<T, S> as std::iter::IntoIterator>::into_iter')
def map_iter(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    nm = fn['nd']
    n = len(m.e)
    if 'Set' in nm or nm.endswith('keys'):
        return ItV('into', (tuple(Ptr(p.b, p.p + (i,)) for i in range(n)), 0))
    if nm.endswith('values') or nm.endswith('values_mut'):
        return ItV('into', (tuple(Ptr(p.b, p.p + ((i,),)) for i in range(n)), 0))
    return ItV('into', (tuple(_kv(p, i) for i in range(n)), 0))


@nat('<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter', '<std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter',
     '<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter', *both('into_keys'), *both('into_values'),
     '<std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter', '<std::collections::HashSet<T, S> as std::iter::IntoIterator>::into_iter')
def map_into_iter(I, st, a, fn):
    m = a[0]
    nm = fn['nd']
    if 'Set' in nm or nm.endswith('into_keys'):
        return ItV('into', (tuple(k for k, v in m.e), 0))
    if nm.endswith('into_values'):
        return ItV('into', (tuple(v for k, v in m.e), 0))
    return ItV('into', (tuple(Agg(0, kv) for kv in m.e), 0))


for _m, _l in (('btree_map', ("Range<'a, K, V>", "RangeMut<'a, K, V>", "Iter<'a, K, V>", "IterMut<'a, K, V>", "IntoIter<K, V, A>", "Keys<'a, K, V>", "Values<'a, K, V>", "ValuesMut<'a, K, V>", "IntoKeys<K, V, A>", "IntoValues<K, V, A>")),
               ('btree_set', ("Range<'a, T>", "Iter<'a, T>", "IntoIter<T, A>")), ('hash_map', ("Iter<'a, K, V>", "IterMut<'a, K, V>", "IntoIter<K, V>", "IntoIter<K, V, A>", "IntoKeys<K, V>", "IntoKeys<K, V, A>", "IntoValues<K, V>", "IntoValues<K, V, A>", "Keys<'a, K, V>", "Values<'a, K, V>", "ValuesMut<'a, K, V>")),
               ('hash_set', ("Iter<'a, K>", "IntoIter<K>", "IntoIter<K, A>"))):
    for _t in _l:
        _b = '<std::collections::%s::%s as std::iter::' % (_m, _t)
        NAT[_b + 'Iterator>::next'] = drain_next
        NAT[_b + 'DoubleEndedIterator>::next_back'] = drain_next_back
        NAT[_b + 'Iterator>::size_hint'] = into_size_hint
        NAT[_b + 'ExactSizeIterator>::len'] = im_len


@nat('<std::collections::BTreeMap<K, V, A> as std::clone::Clone>::clone', '<std::collections::HashMap<K, V, S> as std::clone::Clone>::clone',
     '<std::collections::BTreeSet<T, A> as std::clone::Clone>::clone')
def map_clone(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    if not all(is_pod(x) for kv in m.e for x in kv):
        raise Unmodelled('clone of a map of %r' % (m,))
    return m


@nat('<std::collections::BTreeMap<K, V, A> as std::cmp::PartialEq>::eq', '<std::collections::BTreeSet<T, A> as std::cmp::PartialEq>::eq')
def map_eq(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    q, n = mapp(I, st, a[1])
    return int(len(m.e) == len(n.e) and all(deep_eq(I, st, x, y) for u, v in zip(m.e, n.e) for x, y in zip(u, v)))


@nat(*both('entry'))
def map_entry(I, st, a, fn):
    p, m = mapp(I, st, a[0])
    i = mlook(I, st, m, a[1])
    t = I.F.types[fn_ret(I, fn)]
    names = [v['n'] for v in t['v']]
    e = ItV('entry', (p, i, a[1]))
    return Agg(names.index('Vacant' if i is None else 'Occupied'), (e,))


def fn_ret(I, fn):
    return fn['locals'][0]


for _m in ('btree_map', 'hash_map'):
    for _g in ("<'a, K, V, A>", "<'a, K, V>", "<'_, K, V, A>"):
        _v = 'std::collections::%s::VacantEntry::%s::' % (_m, _g)
        _o = 'std::collections::%s::OccupiedEntry::%s::' % (_m, _g)

        def vins(I, st, a, fn):
            p, i, k = a[0].a
            q, m = mapp(I, st, p)
            n = minsert(I, st, m, k, a[1])
            j = [x for x in range(len(n.e)) if n.e[x][0] is k][0]
            wr(I, st, q, n)
            return Ptr(q.b, q.p + ((j,),))

        def vins_entry(I, st, a, fn):
            r = vins(I, st, a, fn)
            return ItV('entry', (a[0].a[0], r.p[-1][0], a[0].a[2]))

        def ent(I, st, x):
            return x if type(x) is ItV else _itself(I, st, x)[1]

        def oget(I, st, a, fn):
            p, i, k = ent(I, st, a[0]).a
            q, m = mapp(I, st, p)
            return Ptr(q.b, q.p + ((i,),))

        def okey(I, st, a, fn):
            p, i, k = ent(I, st, a[0]).a
            if i is None:
                raise Unmodelled('key of a vacant entry')
            q, m = mapp(I, st, p)
            return Ptr(q.b, q.p + (i,))

        def oins(I, st, a, fn):
            p, i, k = ent(I, st, a[0]).a
            q, m = mapp(I, st, p)
            old = m.e[i][1]
            wr(I, st, Ptr(q.b, q.p + ((i,),)), a[1])
            return old

        def orem(I, st, a, fn):
            p, i, k = ent(I, st, a[0]).a
            q, m = mapp(I, st, p)
            wr(I, st, q, MapV(m.e[:i] + m.e[i + 1:], m.k))
            return m.e[i][1]
        NAT[_v + 'insert'] = vins
        NAT[_v + 'insert_entry'] = vins_entry
        NAT[_v + 'into_key'] = lambda I, st, a, fn: a[0].a[2]
        for _n, _f in (('get', oget), ('get_mut', oget), ('into_mut', oget), ('insert', oins), ('remove', orem), ('key', okey)):
            NAT[_o + _n] = _f


@nat('std::vec::Vec::<T, A>::splice')
def vec_splice(I, st, a, fn):
    raise Unmodelled('Vec::splice')


@nat(*['<%s as std::slice::cmp::SliceContains>::slice_contains' % _t for _t in ('char', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'bool')])
def slice_contains_prim(I, st, a, fn):
    x = a[0]
    while type(x) is Ptr:
        x = rd(I, st, x)
    for y in seq_of(I, st, a[1]):
        if I.cmp(st, 'Eq', x, y):
            return 1
    return 0
