"""Models of standard-library operations (by definition path).

Everything not listed here is interpreted from its own MIR.  Each model evaluates all
decisions before it mutates the state, so that a split can re-execute the call.
"""
from .val import *
from .interp import Unmodelled, Panic, Sync, PushFrame, Split

NAT = {}


def nat(*names):
    def d(f):
        for n in names:
            NAT[n] = f
        return f
    return d


# Some / None helpers (Option<T>: variant 0 = None, 1 = Some; Result: 0 = Ok, 1 = Err)
NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


def ok(v):
    return Agg(0, (v,))


def err(v):
    return Agg(1, (v,))


def rd(I, st, p):
    if type(p) is Ptr:
        return I.read_at(st, p.b, p.p)
    if type(p) is StrV:
        return p
    if type(p) is Agg and p.f:
        return rd(I, st, I.dig_ptr(p))
    raise Unmodelled('deref %r' % (p,))


def wr(I, st, p, v):
    I.write_at(st, p.b, p.p, v)


def rdn(I, st, p, ty):
    """dereference through nested pointers until a value of the given class"""
    n = 0
    while not isinstance(p, ty) and type(p) in (Ptr, Agg) and n < 6:
        p = rd(I, st, p)
        n += 1
    if not isinstance(p, ty):
        raise Unmodelled('expected %s, got %r' % (ty, p))
    return p


def seq_of(I, st, s):
    """elements of a slice / vec pointer as a tuple"""
    if type(s) is SliceP:
        v = I.read_at(st, s.ptr.b, s.ptr.p)
        if v.drained:
            raise Unmodelled('read of an output buffer')
        return v.e[s.s:s.s + s.n]
    if type(s) is Ptr:
        v = rd(I, st, s)
        if type(v) in (Ptr, SliceP):
            return seq_of(I, st, v)
        if type(v) is VecV:
            if v.drained:
                raise Unmodelled('read of an output buffer')
            return v.e
    if type(s) is VecV:
        if s.drained:
            raise Unmodelled('read of an output buffer')
        return s.e
    raise Unmodelled('slice %r' % (s,))


def vecp(I, st, p):
    v = rd(I, st, p)
    if type(v) is Ptr:
        return vecp(I, st, v)
    if type(v) is not VecV:
        raise Unmodelled('vec expected: %r' % (v,))
    return p, v


def clean(v):
    if v.drained:
        raise Unmodelled('read of an output buffer')
    return v


# ------------------------------------------------------------------ Vec / VecDeque
@nat('std::vec::Vec::<T>::new', 'std::collections::VecDeque::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default',
     '<std::collections::VecDeque<T> as std::default::Default>::default')
def vec_new(I, st, a, fn):
    return VecV(())


@nat('std::vec::Vec::<T>::with_capacity', 'std::collections::VecDeque::<T>::with_capacity')
def vec_cap(I, st, a, fn):
    return VecV(())


@nat('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back', 'std::vec::Vec::<T, A>::push_mut',
     'std::vec::Vec::<T, A>::push_within_capacity')
def vec_push(I, st, a, fn):
    v = rd(I, st, a[0])
    if type(v) is not VecV:
        raise Unmodelled('push on %r' % (v,))
    wr(I, st, a[0], VecV(v.e + (a[1],), v.drained, v.kind))
    return UNIT


@nat('std::collections::VecDeque::<T, A>::push_front')
def vd_push_front(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    wr(I, st, a[0], VecV((a[1],) + v.e))
    return UNIT


@nat('std::collections::VecDeque::<T, A>::pop_front')
def vd_pop_front(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    if not v.e:
        return NONE
    wr(I, st, a[0], VecV(v.e[1:]))
    return some(v.e[0])


@nat('std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_back')
def vec_pop(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    if not v.e:
        return NONE
    wr(I, st, a[0], VecV(v.e[:-1]))
    return some(v.e[-1])


@nat('std::vec::Vec::<T, A>::len', 'std::collections::VecDeque::<T, A>::len')
def vec_len(I, st, a, fn):
    return len(clean(rdn(I, st, a[0], VecV)).e)


@nat('std::vec::Vec::<T, A>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty')
def vec_is_empty(I, st, a, fn):
    return int(not clean(rdn(I, st, a[0], VecV)).e)


@nat('std::vec::Vec::<T, A>::clear', 'std::collections::VecDeque::<T, A>::clear')
def vec_clear(I, st, a, fn):
    clean(rd(I, st, a[0]))
    wr(I, st, a[0], VecV(()))
    return UNIT


@nat('std::vec::Vec::<T, A>::truncate')
def vec_truncate(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    wr(I, st, a[0], VecV(v.e[:I.concretize(st, a[1])]))
    return UNIT


@nat('std::vec::Vec::<T, A>::insert', 'std::collections::VecDeque::<T, A>::insert')
def vec_insert(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    i = I.concretize(st, a[1])
    if i > len(v.e):
        raise Panic('insertion index out of bounds', '')
    wr(I, st, a[0], VecV(v.e[:i] + (a[2],) + v.e[i:]))
    return UNIT


@nat('std::vec::Vec::<T, A>::remove')
def vec_remove(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    i = I.concretize(st, a[1])
    if i >= len(v.e):
        raise Panic('removal index out of bounds', '')
    wr(I, st, a[0], VecV(v.e[:i] + v.e[i + 1:]))
    return v.e[i]


@nat('std::vec::Vec::<T, A>::swap_remove')
def vec_swap_remove(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    i = I.concretize(st, a[1])
    if i >= len(v.e):
        raise Panic('swap_remove index out of bounds', '')
    e = list(v.e)
    e[i] = e[-1]
    wr(I, st, a[0], VecV(tuple(e[:-1])))
    return v.e[i]


@nat('std::vec::Vec::<T, A>::append', 'std::collections::VecDeque::<T, A>::append')
def vec_append(I, st, a, fn):
    v = rd(I, st, a[0])
    w = clean(rd(I, st, a[1]))
    wr(I, st, a[0], VecV(v.e + w.e, v.drained))
    wr(I, st, a[1], VecV(()))
    return UNIT


@nat('std::vec::Vec::<T, A>::split_off', 'std::collections::VecDeque::<T, A>::split_off')
def vec_split_off(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    i = I.concretize(st, a[1])
    if i > len(v.e):
        raise Panic('split_off index out of bounds', '')
    wr(I, st, a[0], VecV(v.e[:i]))
    return VecV(v.e[i:])


@nat('std::vec::Vec::<T, A>::resize')
def vec_resize(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    n = I.concretize(st, a[1])
    wr(I, st, a[0], VecV(v.e[:n] + (a[2],) * (n - len(v.e))))
    return UNIT


@nat('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit',
     'std::collections::VecDeque::<T, A>::reserve', 'std::collections::VecDeque::<T, A>::shrink_to_fit', 'std::string::String::reserve',
     'std::string::String::shrink_to_fit')
def unit_nat(I, st, a, fn):
    return UNIT


@nat('std::vec::Vec::<T, A>::capacity')
def vec_capacity(I, st, a, fn):
    return st.fresh('cap', ((0, (1 << 62)),))


@nat('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
     'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
     'std::collections::VecDeque::<T, A>::make_contiguous',
     '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def vec_deref(I, st, a, fn):
    v = rd(I, st, a[0])
    if type(v) is StrV:   # String::into_bytes() result borrowed as bytes
        return v
    clean(v)
    return SliceP(a[0], 0, len(v.e))


def _slice_like(I, st, p):
    if type(p) is SliceP:
        return p
    v = rd(I, st, p)
    if type(v) in (Ptr, SliceP):
        return _slice_like(I, st, v)
    clean(v)
    return SliceP(p, 0, len(v.e))


def range_bounds(I, st, r, tyname, n):
    """(start, end) of an index range value by its type name; checks against length n"""
    if 'RangeFull' in tyname:
        return 0, n
    if 'RangeInclusive' in tyname:
        s, e = r.f[0], lin_add(r.f[1], 1)
    elif 'RangeToInclusive' in tyname:
        s, e = 0, lin_add(r.f[0], 1)
    elif 'RangeFrom' in tyname:
        s, e = r.f[0], n
    elif 'RangeTo' in tyname:
        s, e = 0, r.f[0]
    elif 'Range' in tyname:
        s, e = r.f[0], r.f[1]
    else:
        raise Unmodelled('range ' + tyname)
    return s, e


def index_common(I, st, sp, idx, tyname):
    if isinstance(idx, (int, Lin)):
        if isinstance(idx, Lin):
            idx = I.concretize(st, idx)
        if not 0 <= idx < sp.n:
            return None
        return Ptr(sp.ptr.b, sp.ptr.p + (sp.s + idx,))
    s, e = range_bounds(I, st, idx, tyname, sp.n)
    s = I.concretize(st, s)
    e = I.concretize(st, e)
    if s > e or e > sp.n:
        return None
    return SliceP(sp.ptr, sp.s + s, e - s)


@nat('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
     'std::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
     '<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index', '<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut',
     'std::array::<impl std::ops::Index<I> for [T; N]>::index')
def vec_index(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    tn = ' '.join(I.F.types[x]['s'] for x in fn['args'] if isinstance(x, int))
    r = index_common(I, st, sp, a[1], tn)
    if r is None:
        raise Panic('index out of bounds', I.where(st))
    return r


@nat('std::slice::<impl [T]>::get', 'std::slice::<impl [T]>::get_mut', 'std::collections::VecDeque::<T, A>::get',
     'std::collections::VecDeque::<T, A>::get_mut')
def slice_get(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    tn = ' '.join(I.F.types[x]['s'] for x in fn['args'] if isinstance(x, int))
    r = index_common(I, st, sp, a[1], tn)
    return NONE if r is None else some(r)


@nat('std::slice::<impl [T]>::len')
def slice_len(I, st, a, fn):
    if type(a[0]) is StrV:
        return I.str_len(st, a[0])
    if type(a[0]) is Opq and a[0].t[0] == 'limbs':
        return I.term(st, ('biglen', a[0].t[1]), ((0, 1 << 58),))
    return _slice_like(I, st, a[0]).n


@nat('std::slice::<impl [T]>::is_empty')
def slice_is_empty(I, st, a, fn):
    return int(_slice_like(I, st, a[0]).n == 0)


@nat('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::first_mut', 'std::collections::VecDeque::<T, A>::front',
     'std::collections::VecDeque::<T, A>::front_mut')
def slice_first(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    return some(Ptr(sp.ptr.b, sp.ptr.p + (sp.s,))) if sp.n else NONE


@nat('std::slice::<impl [T]>::last', 'std::slice::<impl [T]>::last_mut', 'std::collections::VecDeque::<T, A>::back',
     'std::collections::VecDeque::<T, A>::back_mut')
def slice_last(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    return some(Ptr(sp.ptr.b, sp.ptr.p + (sp.s + sp.n - 1,))) if sp.n else NONE


@nat('std::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter_mut', 'std::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
     'std::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter', 'std::slice::Iter::<\'a, T>::new', 'std::slice::IterMut::<\'a, T>::new',
     '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', '<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
     'std::collections::VecDeque::<T, A>::iter', 'std::collections::VecDeque::<T, A>::iter_mut',
     '<&\'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter',
     'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter', 'std::array::<impl std::iter::IntoIterator for &\'a mut [T; N]>::into_iter')
def slice_iter(I, st, a, fn):
    if type(a[0]) is StrV:
        raise Unmodelled('iter over bytes')
    sp = _slice_like(I, st, a[0])
    return ItV('slice', (sp.ptr, sp.s, lin_add(sp.s, sp.n)))


def _itself(I, st, p):
    v = rd(I, st, p)
    n = 0
    while type(v) is Ptr and n < 4:
        p = v
        v = rd(I, st, p)
        n += 1
    return p, v


@nat('<std::slice::Iter<\'a, T> as std::iter::Iterator>::next', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::next',
     '<std::collections::vec_deque::Iter<\'a, T> as std::iter::Iterator>::next')
def slice_next(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k in HOOK_NEXT:
        return HOOK_NEXT[it.k](I, st, p, it)
    ptr, s, e = it.a
    if (s >= e) if type(s) is int and type(e) is int else I.cmp(st, 'Ge', s, e):
        return NONE
    wr(I, st, p, ItV('slice', (ptr, lin_add(s, 1), e)))
    return some(Ptr(ptr.b, ptr.p + (s,)))


HOOK_NEXT = {}


@nat('<std::slice::Iter<\'a, T> as std::iter::DoubleEndedIterator>::next_back', '<std::slice::IterMut<\'a, T> as std::iter::DoubleEndedIterator>::next_back')
def slice_next_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k != 'slice':
        raise Unmodelled('next_back on %s' % it.k)
    ptr, s, e = it.a
    if s >= e:
        return NONE
    wr(I, st, p, ItV('slice', (ptr, s, e - 1)))
    return some(Ptr(ptr.b, ptr.p + (e - 1,)))


@nat('<std::slice::Iter<\'a, T> as std::iter::Iterator>::size_hint', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint')
def slice_size_hint(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    n = it_len(it)
    return Agg(0, (n, some(n)))


def it_len(it, I=None, st=None):
    if it.k == 'slice':
        return it.a[2] - it.a[1]
    if it.k == 'into':
        return len(it.a[0]) - it.a[1]
    if it.k == 'ubytes':
        return I.str_len(st, StrV(it.a))
    raise Unmodelled('len of iterator ' + it.k)


@nat('<std::slice::Iter<\'_, T> as std::iter::ExactSizeIterator>::len', '<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len',
     '<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len')
def it_exact_len(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    return it_len(it, I, st)


@nat('std::slice::Iter::<\'a, T>::as_slice')
def iter_as_slice(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    ptr, s, e = it.a
    return SliceP(ptr, s, e - s)


@nat('<std::slice::Iter<\'_, T> as std::clone::Clone>::clone', '<std::str::Chars<\'_> as std::clone::Clone>::clone',
     '<std::str::Chars<\'a> as std::clone::Clone>::clone')
def iter_clone(I, st, a, fn):
    return _itself(I, st, a[0])[1]


@nat('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter',
     '<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(I, st, a, fn):
    return ItV('into', (clean(a[0]).e, 0))


@nat('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', '<std::array::IntoIter<T, N> as std::iter::Iterator>::next',
     '<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::next')
def into_next(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k in HOOK_NEXT:
        return HOOK_NEXT[it.k](I, st, p, it)
    e, i = it.a
    if i >= len(e):
        return NONE
    wr(I, st, p, ItV('into', (e, i + 1)))
    return some(e[i])


@nat('<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back', '<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back')
def into_next_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    e, i = it.a
    if i >= len(e):
        return NONE
    wr(I, st, p, ItV('into', (e[:-1], i)))
    return some(e[-1])


@nat('std::slice::<impl [T]>::to_vec', 'std::vec::Vec::<T, A>::into_boxed_slice', 'std::slice::<impl [T]>::into_vec')
def slice_to_vec(I, st, a, fn):
    if fn['nd'].endswith('into_vec'):
        p = I.dig_ptr(a[0]) if type(a[0]) is Agg else a[0]
        return VecV(seq_of(I, st, p))
    if type(a[0]) is StrV:
        return a[0]
    e = seq_of(I, st, a[0])
    check_pod(I, e)
    return VecV(e)


def check_pod(I, e):
    for x in e:
        if not is_pod(x):
            raise Unmodelled('clone of non-plain element %r' % (x,))


def is_pod(x):
    if isinstance(x, (int, Lin, FloatV, FnV, StrV, Ptr, SliceP)):
        return True
    if isinstance(x, Agg):
        return all(is_pod(y) for y in x.f)
    if isinstance(x, VecV):
        return all(is_pod(y) for y in x.e)
    if isinstance(x, Opq):
        return True
    return False


@nat('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def vec_clone(I, st, a, fn):
    v = clean(rd(I, st, a[0]))
    check_pod(I, v.e)
    return v


@nat('std::slice::<impl [T]>::split_at')
def slice_split_at(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    m = I.concretize(st, a[1])
    if m > sp.n:
        raise Panic('mid > len', I.where(st))
    return Agg(0, (SliceP(sp.ptr, sp.s, m), SliceP(sp.ptr, sp.s + m, sp.n - m)))


@nat('std::slice::<impl [T]>::split_first', 'std::slice::<impl [T]>::split_last')
def slice_split_first(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    if not sp.n:
        return NONE
    if fn['nd'].endswith('first'):
        return some(Agg(0, (Ptr(sp.ptr.b, sp.ptr.p + (sp.s,)), SliceP(sp.ptr, sp.s + 1, sp.n - 1))))
    return some(Agg(0, (Ptr(sp.ptr.b, sp.ptr.p + (sp.s + sp.n - 1,)), SliceP(sp.ptr, sp.s, sp.n - 1))))


@nat('std::slice::<impl [T]>::swap')
def slice_swap(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    i, j = I.concretize(st, a[1]), I.concretize(st, a[2])
    if i >= sp.n or j >= sp.n:
        raise Panic('swap out of bounds', I.where(st))
    v = I.read_at(st, sp.ptr.b, sp.ptr.p)
    e = list(v.e)
    e[sp.s + i], e[sp.s + j] = e[sp.s + j], e[sp.s + i]
    wr(I, st, sp.ptr, VecV(tuple(e), v.drained, v.kind))
    return UNIT


@nat('std::slice::<impl [T]>::reverse')
def slice_reverse(I, st, a, fn):
    sp = _slice_like(I, st, a[0])
    v = I.read_at(st, sp.ptr.b, sp.ptr.p)
    e = v.e
    wr(I, st, sp.ptr, VecV(e[:sp.s] + e[sp.s:sp.s + sp.n][::-1] + e[sp.s + sp.n:], v.drained, v.kind))
    return UNIT


@nat('std::vec::from_elem', '<T as std::vec::spec_from_elem::SpecFromElem>::from_elem')
def vec_from_elem(I, st, a, fn):
    n = I.concretize(st, a[1])
    return VecV((a[0],) * n)


@nat('std::vec::Vec::<T, A>::extend_from_slice')
def vec_extend_from_slice(I, st, a, fn):
    v = rd(I, st, a[0])
    if type(a[1]) is StrV:   # bytes of a str appended to an output buffer
        if all(isinstance(x, int) and x < 128 for x in a[1].s):
            wr(I, st, a[0], VecV(v.e + a[1].s, v.drained))
            return UNIT
        raise Unmodelled('extend with bytes of a symbolic string')
    e = seq_of(I, st, a[1])
    check_pod(I, e)
    wr(I, st, a[0], VecV(v.e + e, v.drained))
    return UNIT


def deep_eq(I, st, x, y):
    """structural equality of plain values; may split"""
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        return bool(I.cmp(st, 'Eq', x, y))
    if type(x) in (Ptr, SliceP) and type(y) in (Ptr, SliceP, StrV):
        pass
    if type(x) is Ptr:
        return deep_eq(I, st, rd(I, st, x), y)
    if type(y) is Ptr:
        return deep_eq(I, st, x, rd(I, st, y))
    if isinstance(x, StrV) and isinstance(y, StrV):
        return str_eq(I, st, x, y)
    if type(x) in (VecV, SliceP) and type(y) in (VecV, SliceP):
        ex, ey = seq_of(I, st, x), seq_of(I, st, y)
        if len(ex) != len(ey):
            return False
        return all(deep_eq(I, st, p, q) for p, q in zip(ex, ey))
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.v != y.v or len(x.f) != len(y.f):
            return False
        return all(deep_eq(I, st, p, q) for p, q in zip(x.f, y.f))
    if isinstance(x, (FloatV, FnV, Opq)) or isinstance(y, (FloatV, FnV, Opq)):
        return bool(I.generic_eq(st, 'Eq', x, y))
    raise Unmodelled('eq %r %r' % (x, y))


# ------------------------------------------------------------------ strings
def S(text):
    return StrV(tuple(ord(c) for c in text))


def sclean(v):
    if v.drained:
        raise Unmodelled('read of an output string')
    return v


def strv(I, st, p):
    """the string behind any &str / &String / &&str / Cow argument"""
    n = 0
    while type(p) is not StrV and n < 6:
        if type(p) is Ptr:
            p = rd(I, st, p)
        elif type(p) is Agg and len(p.f) == 1:   # Cow / wrapper
            p = p.f[0]
        else:
            raise Unmodelled('string expected: %r' % (p,))
        n += 1
    return sclean(p)


def str_eq(I, st, x, y):
    sx, sy = sclean(x).s, sclean(y).s
    if sx == sy:
        return True
    # strip common prefix / suffix
    while sx and sy and sx[0] == sy[0]:
        sx, sy = sx[1:], sy[1:]
    while sx and sy and sx[-1] == sy[-1]:
        sx, sy = sx[:-1], sy[:-1]
    if not sx and not sy:
        return True
    segx = any(isinstance(c, tuple) for c in sx)
    segy = any(isinstance(c, tuple) for c in sy)
    if not segx and not segy:
        if len(sx) != len(sy):
            return False
        for a, b in zip(sx, sy):
            if not I.cmp(st, 'Eq', a, b):
                return False
        return True
    h = I.opts.get('str_eq')
    if h is not None:
        r = h(I, st, sx, sy)
        if r is not None:
            return r
    if segx and segy:
        key = ('seq',) + tuple(sorted((sx, sy), key=repr))
    else:
        key = ('seq', sx, sy) if segx else ('seq', sy, sx)
        # minimum-length argument
        s, lit = (sx, sy) if segx else (sy, sx)
        m = sum(1 if not isinstance(c, tuple) else st.facts.get(('minlen', c), 0) for c in s)
        if m > len(lit):
            return False
    return I.opaque_bool(st, key)


@nat('std::str::traits::<impl std::cmp::PartialEq for str>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
     '<std::string::String as std::cmp::PartialEq<str>>::eq', '<std::string::String as std::cmp::PartialEq<&\'a str>>::eq',
     '<&\'a str as std::cmp::PartialEq<std::string::String>>::eq', '<str as std::cmp::PartialEq<std::string::String>>::eq',
     'std::string::<impl std::cmp::PartialEq<&str> for std::string::String>::eq', 'std::string::<impl std::cmp::PartialEq<std::string::String> for &str>::eq',
     '<std::string::String as std::cmp::PartialEq<&str>>::eq', '<&str as std::cmp::PartialEq<std::string::String>>::eq')
def nat_str_eq(I, st, a, fn):
    return int(str_eq(I, st, strv(I, st, a[0]), strv(I, st, a[1])))


@nat('<std::string::String as std::cmp::PartialEq>::ne', '<std::string::String as std::cmp::PartialEq<str>>::ne',
     '<std::string::String as std::cmp::PartialEq<&\'a str>>::ne', 'std::str::traits::<impl std::cmp::PartialEq for str>::ne',
     '<std::string::String as std::cmp::PartialEq<&str>>::ne', '<&str as std::cmp::PartialEq<std::string::String>>::ne')
def nat_str_ne(I, st, a, fn):
    return int(not str_eq(I, st, strv(I, st, a[0]), strv(I, st, a[1])))


@nat('std::string::String::new', '<std::string::String as std::default::Default>::default', 'std::string::String::with_capacity',
     '<&str as std::default::Default>::default', 'std::str::<impl std::default::Default for &str>::default')
def str_new(I, st, a, fn):
    return StrV(())


@nat('std::string::String::push')
def str_push(I, st, a, fn):
    v = rd(I, st, a[0])
    if type(v) is not StrV:
        raise Unmodelled('String::push on %r' % (v,))
    wr(I, st, a[0], StrV(v.s + (a[1],), v.drained))
    return UNIT


@nat('std::string::String::push_str', '<std::string::String as std::fmt::Write>::write_str',
     '<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def str_push_str(I, st, a, fn):
    v = rd(I, st, a[0])
    x = strv(I, st, a[1])
    wr(I, st, a[0], StrV(v.s + x.s, v.drained))
    return UNIT if 'Write' not in fn['nd'] else ok(UNIT)


@nat('<std::string::String as std::fmt::Write>::write_char')
def str_write_char(I, st, a, fn):
    v = rd(I, st, a[0])
    wr(I, st, a[0], StrV(v.s + (a[1],), v.drained))
    return ok(UNIT)


@nat('<std::string::String as std::ops::Add<&str>>::add')
def str_add(I, st, a, fn):
    return StrV(sclean(a[0]).s + strv(I, st, a[1]).s)


@nat('<std::string::String as std::iter::Extend<char>>::extend')
def str_extend(I, st, a, fn):
    raise Unmodelled('String::extend')


@nat('std::string::String::as_str', '<std::string::String as std::ops::Deref>::deref', '<std::string::String as std::clone::Clone>::clone',
     '<str as std::string::ToString>::to_string', 'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::string::String as std::convert::From<&str>>::from',
     '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow',
     '<str as std::convert::AsRef<str>>::as_ref', 'std::string::String::into_boxed_str', 'std::str::<impl str>::to_owned',
     '<str as std::borrow::ToOwned>::to_owned', 'std::str::<impl str>::to_string', '<std::string::String as std::string::ToString>::to_string',
     '<std::string::String as std::convert::From<&mut str>>::from', '<std::string::String as std::convert::From<&std::string::String>>::from',
     'std::string::String::as_mut_str', '<str as std::string::SpecToString>::spec_to_string', '<std::string::String as std::string::SpecToString>::spec_to_string',
     'std::str::<impl std::convert::From<&str> for std::string::String>::from', 'std::borrow::Cow::<\'_, B>::into_owned',
     '<std::borrow::Cow<\'_, B> as std::ops::Deref>::deref', 'std::str::<impl std::convert::AsRef<str> for str>::as_ref',
     '<std::string::String as std::convert::From<std::boxed::Box<str>>>::from', 'std::string::String::leak')
def str_same(I, st, a, fn):
    return StrV(strv(I, st, a[0]).s)


@nat('<T as std::string::ToString>::to_string', '<T as std::string::SpecToString>::spec_to_string')
def to_string_generic(I, st, a, fn):
    t = I.F.types[fn['args'][0]]
    if t['k'] == 'str' or t['s'].endswith('String') or t['s'] == '&str':
        return StrV(strv(I, st, a[0]).s)
    v = rd(I, st, a[0])
    if t['k'] == 'char':
        return StrV((v,))
    if isinstance(v, int) and t['k'] in ('int', 'uint'):
        return S(str(v))
    if t['k'] == 'bool':
        return S('true' if I.cmp(st, 'Ne', v, 0) else 'false')
    h = I.opts.get('to_string')
    if h:
        r = h(I, st, v, t)
        if r is not None:
            return r
    return StrV((('disp', v),))


@nat('<char as std::string::SpecToString>::spec_to_string')
def char_to_string(I, st, a, fn):
    return StrV((rd(I, st, a[0]),))


@nat('<std::string::String as std::convert::From<char>>::from')
def string_from_char(I, st, a, fn):
    return StrV((a[0],))


@nat('std::string::String::len', 'std::str::<impl str>::len')
def str_len(I, st, a, fn):
    return I.str_len(st, strv(I, st, a[0]))


@nat('std::string::String::is_empty', 'std::str::<impl str>::is_empty')
def str_is_empty(I, st, a, fn):
    v = strv(I, st, a[0])
    if not v.s:
        return 1
    if any(not isinstance(c, tuple) for c in v.s):
        return 0
    if any(st.facts.get(('minlen', c), 0) > 0 for c in v.s):
        return 0
    return int(I.opaque_bool(st, ('seq', v.s, ())))


@nat('std::string::String::clear')
def str_clear(I, st, a, fn):
    sclean(rd(I, st, a[0]))
    wr(I, st, a[0], StrV(()))
    return UNIT


@nat('std::string::String::pop')
def str_pop(I, st, a, fn):
    v = sclean(rd(I, st, a[0]))
    if not v.s:
        return NONE
    if isinstance(v.s[-1], tuple):
        raise Unmodelled('String::pop on symbolic segment')
    wr(I, st, a[0], StrV(v.s[:-1]))
    return some(v.s[-1])


@nat('std::string::String::insert')
def str_insert(I, st, a, fn):
    v = sclean(rd(I, st, a[0]))
    if a[1] != 0:
        raise Unmodelled('String::insert')
    wr(I, st, a[0], StrV((a[2],) + v.s))
    return UNIT


@nat('std::string::String::insert_str')
def str_insert_str(I, st, a, fn):
    v = sclean(rd(I, st, a[0]))
    if a[1] != 0:
        raise Unmodelled('String::insert_str')
    wr(I, st, a[0], StrV(strv(I, st, a[2]).s + v.s))
    return UNIT


@nat('std::str::<impl str>::chars')
def str_chars(I, st, a, fn):
    return ItV('chars', strv(I, st, a[0]).s)


@nat('<std::str::Chars<\'a> as std::iter::Iterator>::next')
def chars_next(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k in HOOK_NEXT:
        return HOOK_NEXT[it.k](I, st, p, it)
    if not it.a:
        return NONE
    if isinstance(it.a[0], tuple):
        h = HOOK_NEXT.get('seg')
        if h:
            return h(I, st, p, it)
        raise Unmodelled('chars of symbolic segment')
    wr(I, st, p, ItV('chars', it.a[1:]))
    return some(it.a[0])


@nat('<std::str::Chars<\'a> as std::iter::DoubleEndedIterator>::next_back')
def chars_next_back(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    if it.k != 'chars':
        raise Unmodelled('next_back')
    if not it.a:
        return NONE
    if isinstance(it.a[-1], tuple):
        raise Unmodelled('chars of symbolic segment')
    wr(I, st, p, ItV('chars', it.a[:-1]))
    return some(it.a[-1])


@nat('<std::str::Chars<\'a> as std::iter::Iterator>::size_hint')
def chars_size_hint(I, st, a, fn):
    return Agg(0, (0, NONE))


@nat('std::str::<impl str>::char_indices')
def str_char_indices(I, st, a, fn):
    return ItV('charidx', (0, strv(I, st, a[0]).s))


def charidx(it):
    if type(it) is Agg and type(it.f[1]) is ItV:     # built field by field
        return ItV('charidx', (it.f[0], it.f[1].a))
    return it


@nat('<std::str::CharIndices<\'a> as std::iter::Iterator>::next')
def char_indices_next(I, st, a, fn):
    p, it = _itself(I, st, a[0])
    it = charidx(it)
    if it.k in HOOK_NEXT:
        return HOOK_NEXT[it.k](I, st, p, it)
    n, s = it.a
    if not s:
        return NONE
    if isinstance(s[0], tuple):
        raise Unmodelled('char_indices of symbolic segment')
    m = lin_add(n, I.str_len(st, StrV(s[:1])))
    wr(I, st, p, ItV('charidx', (m, s[1:])))
    return some(Agg(0, (n, s[0])))


@nat('std::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes', 'std::string::String::into_string',
     '<std::string::String as std::convert::AsRef<[u8]>>::as_ref', 'std::str::<impl std::convert::AsRef<[u8]> for str>::as_ref')
def str_bytes(I, st, a, fn):
    return strv(I, st, a[0])


@nat('std::str::<impl str>::ends_with', 'std::str::<impl str>::starts_with')
def str_ends_with(I, st, a, fn):
    v = strv(I, st, a[0])
    pt = [I.F.types[x]['s'] for x in fn['args'] if isinstance(x, int)]
    pat = a[1]
    ends = fn['nd'].endswith('ends_with')
    if isinstance(pat, (int, Lin)):
        ps = (pat,)
    elif type(pat) in (StrV, Ptr):
        ps = strv(I, st, pat).s
    else:
        raise Unmodelled('pattern %s' % pt)
    h = I.opts.get('ends_with')
    if h is not None:
        r = h(I, st, v.s, ps, ends)
        if r is not None:
            return int(r)
    s = v.s
    if any(isinstance(c, tuple) for c in s):
        part = s[-len(ps):] if ends else s[:len(ps)]
        if not ps:
            return 1
        if len(part) == len(ps) and not any(isinstance(c, tuple) for c in part):
            return int(all(I.cmp(st, 'Eq', x, y) for x, y in zip(part, ps)))
        return int(I.opaque_bool(st, ('ends' if ends else 'starts', s, ps)))
    if len(ps) > len(s):
        return 0
    part = s[len(s) - len(ps):] if ends else s[:len(ps)]
    for x, y in zip(part, ps):
        if not I.cmp(st, 'Eq', x, y):
            return 0
    return 1


# ------------------------------------------------------------------ chars
@nat('std::char::methods::<impl char>::to_digit')
def char_to_digit(I, st, a, fn):
    c, radix = a
    if not isinstance(radix, int):
        raise Unmodelled('to_digit')
    n = min(radix, 10)
    if I.decide_in(st, c, ((48, 47 + n),)):
        return some(lin_add(c, -48))
    if radix > 10:
        k = radix - 10
        if I.decide_in(st, c, ((97, 96 + k),)):
            return some(lin_add(c, -87))
        if I.decide_in(st, c, ((65, 64 + k),)):
            return some(lin_add(c, -55))
    return NONE


CLS = {
    'is_ascii_digit': ((48, 57),),
    'is_ascii_lowercase': ((97, 122),),
    'is_ascii_uppercase': ((65, 90),),
    'is_ascii_alphabetic': ((65, 90), (97, 122)),
    'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
    'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)),
    'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32)),
    'is_ascii_control': ((0, 31), (127, 127)),
    'is_ascii': ((0, 127),),
    'is_control': ((0, 31), (127, 159)),
    'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)),
    'is_ascii_graphic': ((33, 126),),
}


def _mk_cls(ivs):
    def f(I, st, a, fn):
        c = a[0]
        if type(c) is Ptr:
            c = rd(I, st, c)
        return int(I.decide_in(st, c, ivs))
    return f


for _n, _iv in CLS.items():
    NAT['std::char::methods::<impl char>::' + _n] = _mk_cls(_iv)
    NAT['std::num::<impl u8>::' + _n] = _mk_cls(_iv)


def _py_class(pred):
    o = []
    start = None
    for i in range(0x110000):
        if 0xD800 <= i < 0xE000:
            r = False
        else:
            r = pred(chr(i))
        if r and start is None:
            start = i
        if not r and start is not None:
            o.append((start, i - 1))
            start = None
    if start is not None:
        o.append((start, 0x10ffff))
    return tuple(o)


_UC = {}


def _uni(name, pred):
    def f(I, st, a, fn):
        c = a[0]
        if isinstance(c, int):
            return int(pred(chr(c)))
        if name not in _UC:
            _UC[name] = _py_class(pred)
        return int(I.decide_in(st, c, _UC[name]))
    NAT['std::char::methods::<impl char>::' + name] = f


_uni('is_whitespace', lambda c: c in ' \t\n\x0b\x0c\r\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000' or '\u2000' <= c <= '\u200a')
_uni('is_alphabetic', lambda c: c.isalpha())
_uni('is_numeric', lambda c: __import__('unicodedata').category(c) in ('Nd', 'Nl', 'No'))
_uni('is_alphanumeric', lambda c: c.isalpha() or __import__('unicodedata').category(c) in ('Nd', 'Nl', 'No'))
_uni('is_lowercase', lambda c: c.islower())
_uni('is_uppercase', lambda c: c.isupper())


@nat('std::char::methods::<impl char>::from_u32', 'std::char::convert::from_u32', 'std::char::from_u32')
def char_from_u32(I, st, a, fn):
    v = a[0]
    if I.decide_in(st, v, ((0, 0xD7FF), (0xE000, 0x10FFFF))):
        return some(v)
    return NONE


@nat('std::char::methods::<impl char>::from_u32_unchecked', 'std::char::convert::from_u32_unchecked')
def char_from_u32_unchecked(I, st, a, fn):
    return a[0]


@nat('std::char::methods::<impl char>::from_digit', 'std::char::convert::from_digit', 'std::char::from_digit')
def char_from_digit(I, st, a, fn):
    v = a[0]
    if not I.decide_in(st, v, ((0, a[1] - 1),)):
        return NONE
    if I.decide_in(st, v, ((0, 9),)):
        return some(lin_add(v, 48))
    return some(lin_add(v, 87))


@nat('std::char::methods::<impl char>::len_utf8')
def char_len_utf8(I, st, a, fn):
    return I.str_len(st, StrV((a[0],)))


@nat('std::char::methods::<impl char>::len_utf16')
def char_len_utf16(I, st, a, fn):
    return 1 if I.decide_in(st, a[0], ((0, 0xffff),)) else 2


@nat('std::char::methods::<impl char>::to_ascii_lowercase', 'std::num::<impl u8>::to_ascii_lowercase')
def char_to_lower(I, st, a, fn):
    c = rd(I, st, a[0])
    return lin_add(c, 32) if I.decide_in(st, c, ((65, 90),)) else c


@nat('std::char::methods::<impl char>::to_ascii_uppercase', 'std::num::<impl u8>::to_ascii_uppercase')
def char_to_upper(I, st, a, fn):
    c = rd(I, st, a[0])
    return lin_add(c, -32) if I.decide_in(st, c, ((97, 122),)) else c


@nat('std::char::convert::<impl std::convert::From<u8> for char>::from', 'std::char::convert::<impl std::convert::From<char> for u32>::from',
     'std::char::convert::<impl std::convert::From<char> for u64>::from')
def conv_same(I, st, a, fn):
    return a[0]


# ------------------------------------------------------------------ mem / ptr
@nat('std::mem::replace')
def mem_replace(I, st, a, fn):
    v = rd(I, st, a[0])
    wr(I, st, a[0], a[1])
    return v


@nat('std::mem::swap')
def mem_swap(I, st, a, fn):
    v, w = rd(I, st, a[0]), rd(I, st, a[1])
    wr(I, st, a[0], w)
    wr(I, st, a[1], v)
    return UNIT


@nat('std::mem::drop', 'std::mem::forget')
def mem_drop(I, st, a, fn):
    return UNIT


@nat('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read')
def ptr_read(I, st, a, fn):
    return rd(I, st, a[0])


@nat('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def ptr_write(I, st, a, fn):
    wr(I, st, a[0], a[1])
    return UNIT


@nat('std::ptr::eq', 'std::ptr::addr_eq')
def ptr_eq(I, st, a, fn):
    return int(a[0] == a[1])


@nat('std::boxed::Box::<T>::new', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new')
def box_new(I, st, a, fn):
    b = st.alloc(a[0])
    p = Ptr(b, ())
    if 'Rc' in fn['nd'] or 'Arc' in fn['nd']:
        return p
    t = fn['args'][0]
    return Agg(0, (Agg(0, (Agg(0, (p,)), UNIT)), UNIT))


@nat('<std::rc::Rc<T, A> as std::clone::Clone>::clone', '<std::sync::Arc<T, A> as std::clone::Clone>::clone')
def rc_clone(I, st, a, fn):
    return rd(I, st, a[0])


@nat('<std::rc::Rc<T, A> as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::ops::Deref>::deref')
def rc_deref(I, st, a, fn):
    return rd(I, st, a[0])


@nat('intrinsic:cold_path', 'intrinsic:assume', 'intrinsic:assert_inhabited', 'intrinsic:assert_zero_valid', 'intrinsic:assert_mem_uninitialized_valid')
def nop(I, st, a, fn):
    return UNIT


@nat('intrinsic:likely', 'intrinsic:unlikely', 'intrinsic:black_box', 'std::hint::black_box', 'std::convert::identity')
def ident(I, st, a, fn):
    return a[0]


@nat('intrinsic:size_of', 'std::mem::size_of')
def size_of(I, st, a, fn):
    return I.F.types[fn['args'][0]]['l']['size']


@nat('intrinsic:align_of', 'intrinsic:min_align_of', 'std::mem::align_of')
def align_of(I, st, a, fn):
    return I.F.types[fn['args'][0]]['l']['align']


@nat('intrinsic:needs_drop', 'std::mem::needs_drop')
def needs_drop(I, st, a, fn):
    return 1


def _sat(op):
    def f(I, st, a, fn):
        t = fn['args'][0]
        lo, hi = rng(*I.F.int_info(t))
        v = lin_add(a[0], a[1], 1 if op == 'add' else -1)
        if isinstance(v, int):
            return max(lo, min(hi, v))
        if I.decide_in(st, v, ((lo, hi),)):
            return v
        return hi if I.decide_in(st, v, ((hi + 1, INF),)) else lo
    return f


NAT['intrinsic:saturating_add'] = _sat('add')
NAT['intrinsic:saturating_sub'] = _sat('sub')


def _num_types():
    return ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']


def _mk_num(ty):
    bits = {'isize': 64, 'usize': 64}.get(ty) or int(ty[1:])
    sg = ty[0] == 'i'
    lo, hi = rng(bits, sg)

    def arith(op, a, b, I, st):
        if op == 'add':
            return lin_add(a, b)
        if op == 'sub':
            return lin_add(a, b, -1)
        if isinstance(b, int):
            return lin_mul(a, b)
        if isinstance(a, int):
            return lin_mul(b, a)
        return I.op_term(st, 'mul', a, b)

    def sat(op):
        def f(I, st, a, fn):
            v = arith(op, a[0], a[1], I, st)
            if isinstance(v, int):
                return max(lo, min(hi, v))
            if I.decide_in(st, v, ((lo, hi),)):
                return v
            return hi if I.decide_in(st, v, ((hi + 1, INF),)) else lo
        return f

    def chk(op):
        def f(I, st, a, fn):
            v = arith(op, a[0], a[1], I, st)
            if I.decide_in(st, v, ((lo, hi),)):
                return some(v)
            return NONE
        return f

    def ovf(op):
        def f(I, st, a, fn):
            v = arith(op, a[0], a[1], I, st)
            if I.decide_in(st, v, ((lo, hi),)):
                return Agg(0, (v, 0))
            if isinstance(v, int):
                v &= (1 << bits) - 1
                if sg and v >> (bits - 1):
                    v -= 1 << bits
                return Agg(0, (v, 1))
            return Agg(0, (I.wrapl(st, v, bits, sg), 1))
        return f

    def wrp(op):
        g = ovf(op)
        return lambda I, st, a, fn: g(I, st, a, fn).f[0]
    p = 'std::num::<impl %s>::' % ty
    for op in ('add', 'sub', 'mul'):
        NAT[p + 'saturating_' + op] = sat(op)
        NAT[p + 'checked_' + op] = chk(op)
        NAT[p + 'overflowing_' + op] = ovf(op)
        NAT[p + 'wrapping_' + op] = wrp(op)


for _t in _num_types():
    _mk_num(_t)


@nat('intrinsic:integer_min', 'intrinsic:integer_max')
def int_minmax(I, st, a, fn):
    le = I.cmp(st, 'Le', a[0], a[1])
    mn = fn['intr'].endswith('min')
    return a[0] if bool(le) == mn else a[1]


@nat('std::f64::<impl f64>::from_bits')
def f64_from_bits(I, st, a, fn):
    if isinstance(a[0], int):
        return FloatV(a[0])
    return Opq(('bits2f', a[0]))


@nat('std::f64::<impl f64>::to_bits')
def f64_to_bits(I, st, a, fn):
    v = a[0]
    if isinstance(v, FloatV):
        return v.b
    if isinstance(v, Opq) and v.t[0] == 'bits2f':
        return v.t[1]
    return I.term(st, ('f2bits', v), (rng(64, False),))


@nat('<f64 as std::default::Default>::default')
def f64_default(I, st, a, fn):
    return FloatV(0)


# ------------------------------------------------------------------ ranges (RangeInclusive has a hidden flag)
@nat('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next', '<std::ops::Range<usize> as std::iter::range::RangeIteratorImpl>::spec_next',
     '<std::ops::Range<A> as std::iter::range::RangeIteratorImpl>::spec_next')
def range_next(I, st, a, fn):
    p, r = _itself(I, st, a[0])
    if I.cmp(st, 'Lt', r.f[0], r.f[1]):
        wr(I, st, p, Agg(r.v, (lin_add(r.f[0], 1), r.f[1])))
        return some(r.f[0])
    return NONE


@nat('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def range_next_back(I, st, a, fn):
    p, r = _itself(I, st, a[0])
    if I.cmp(st, 'Lt', r.f[0], r.f[1]):
        wr(I, st, p, Agg(r.v, (r.f[0], lin_add(r.f[1], -1))))
        return some(lin_add(r.f[1], -1))
    return NONE


@nat('std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next',
     'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back')
def rangei_next(I, st, a, fn):
    p, r = _itself(I, st, a[0])
    s, e, done = r.f
    if done or I.cmp(st, 'Gt', s, e):
        return NONE
    if I.cmp(st, 'Eq', s, e):
        wr(I, st, p, Agg(r.v, (s, e, 1)))
        return some(s)
    if fn['nd'].endswith('back'):
        wr(I, st, p, Agg(r.v, (s, lin_add(e, -1), 0)))
        return some(e)
    wr(I, st, p, Agg(r.v, (lin_add(s, 1), e, 0)))
    return some(s)


# ------------------------------------------------------------------ ordering of plain values
def lex_cmp(I, st, x, y):
    """-1/0/1; may split"""
    for a, b in zip(x, y):
        d = val_cmp(I, st, a, b)
        if d:
            return d
    return (len(x) > len(y)) - (len(x) < len(y))


def val_cmp(I, st, a, b):
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        if I.cmp(st, 'Lt', a, b):
            return -1
        return 0 if I.cmp(st, 'Eq', a, b) else 1
    raise Unmodelled('ordering of %r' % (a,))


@nat('<std::vec::Vec<T, A> as std::cmp::Ord>::cmp', 'std::slice::cmp::<impl std::cmp::Ord for [T]>::cmp')
def vec_cmp(I, st, a, fn):
    return Agg(lex_cmp(I, st, seq_of(I, st, a[0]), seq_of(I, st, a[1])) + 1, ())


# ------------------------------------------------------------------ formatting (messages only)
@nat('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def fmt_args(I, st, a, fn):
    return Opq(('fmtargs', tuple(a)))


def _fmt_arg(I, st, a, fn):
    return Opq(('fmtarg', fn['nd'], tuple(a)))


@nat('std::any::type_name')
def type_name(I, st, a, fn):
    return S('T')


@nat('intrinsic:select_unpredictable', 'std::hint::select_unpredictable', 'std::bool::<impl bool>::select_unpredictable')
def select_unpredictable(I, st, a, fn):
    return a[1] if I.concretize(st, a[0]) else a[2]


from . import natives2 as _n2   # registers further models
