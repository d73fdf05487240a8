// Rust-written models of standard-library functions whose real bodies are unsafe,
// specialised or SIMD code. The extractor redirects calls to them (see redirects.txt);
// the generic parameters mirror those of the replaced function, in order.
#![allow(clippy::all)]
use std::collections::VecDeque;
use std::ops::ControlFlow;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in i {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    for x in i {
        v.push(x);
    }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, i: I) {
    for x in i {
        v.push(*x);
    }
}
pub fn vd_extend<T, A, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, i: I) {
    for x in i {
        v.push_back(x);
    }
}
pub fn vd_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> VecDeque<T> {
    let mut v = VecDeque::new();
    for x in i {
        v.push_back(x);
    }
    v
}
pub fn string_extend_char<I: IntoIterator<Item = char>>(v: &mut String, i: I) {
    for x in i {
        v.push(x);
    }
}
pub fn string_extend_str<'a, I: IntoIterator<Item = &'a str>>(v: &mut String, i: I) {
    for x in i {
        v.push_str(x);
    }
}
pub fn string_extend_string<I: IntoIterator<Item = String>>(v: &mut String, i: I) {
    for x in i {
        v.push_str(&x);
    }
}
pub fn string_from_char<I: IntoIterator<Item = char>>(i: I) -> String {
    let mut v = String::new();
    for x in i {
        v.push(x);
    }
    v
}
pub fn string_from_str<'a, I: IntoIterator<Item = &'a str>>(i: I) -> String {
    let mut v = String::new();
    for x in i {
        v.push_str(x);
    }
    v
}
pub fn string_from_string<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut v = String::new();
    for x in i {
        v.push_str(&x);
    }
    v
}
pub fn vec_clone<T: Clone, A>(v: &Vec<T>) -> Vec<T> {
    let mut r = Vec::new();
    for x in v.iter() {
        r.push(x.clone());
    }
    r
}
pub fn vec_eq<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn slice_contains<T: PartialEq>(a: &[T], b: &T) -> bool {
    let mut i = 0;
    while i < a.len() {
        if a[i] == *b {
            return true;
        }
        i += 1;
    }
    false
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}

macro_rules! over {
    ($fold:ident, $try:ident, $all:ident, $any:ident, $find:ident, $find_map:ident, $pos:ident, $nth:ident, $count:ident, $last:ident, $foreach:ident, [$($g:tt)*], $it:ty, $item:ty) => {
        pub fn $fold<$($g)*, B, F: FnMut(B, $item) -> B>(mut it: $it, init: B, mut f: F) -> B {
            let mut acc = init;
            while let Some(x) = it.next() {
                acc = f(acc, x);
            }
            acc
        }
        pub fn $foreach<$($g)*, F: FnMut($item)>(mut it: $it, mut f: F) {
            while let Some(x) = it.next() {
                f(x);
            }
        }
        pub fn $all<$($g)*, F: FnMut($item) -> bool>(it: &mut $it, mut f: F) -> bool {
            while let Some(x) = it.next() {
                if !f(x) {
                    return false;
                }
            }
            true
        }
        pub fn $any<$($g)*, F: FnMut($item) -> bool>(it: &mut $it, mut f: F) -> bool {
            while let Some(x) = it.next() {
                if f(x) {
                    return true;
                }
            }
            false
        }
        pub fn $find<$($g)*, P: FnMut(&$item) -> bool>(it: &mut $it, mut f: P) -> Option<$item> {
            while let Some(x) = it.next() {
                if f(&x) {
                    return Some(x);
                }
            }
            None
        }
        pub fn $find_map<$($g)*, B, F: FnMut($item) -> Option<B>>(it: &mut $it, mut f: F) -> Option<B> {
            while let Some(x) = it.next() {
                if let Some(r) = f(x) {
                    return Some(r);
                }
            }
            None
        }
        pub fn $pos<$($g)*, P: FnMut($item) -> bool>(it: &mut $it, mut f: P) -> Option<usize> {
            let mut i = 0;
            while let Some(x) = it.next() {
                if f(x) {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn $nth<$($g)*>(it: &mut $it, n: usize) -> Option<$item> {
            let mut i = 0;
            while i < n {
                it.next()?;
                i += 1;
            }
            it.next()
        }
        pub fn $count<$($g)*>(mut it: $it) -> usize {
            let mut i = 0;
            while let Some(_) = it.next() {
                i += 1;
            }
            i
        }
        pub fn $last<$($g)*>(mut it: $it) -> Option<$item> {
            let mut r = None;
            while let Some(x) = it.next() {
                r = Some(x);
            }
            r
        }
    };
}
over!(si_fold, si_try, si_all, si_any, si_find, si_find_map, si_position, si_nth, si_count, si_last, si_for_each, ['a, T], std::slice::Iter<'a, T>, &'a T);
over!(sm_fold, sm_try, sm_all, sm_any, sm_find, sm_find_map, sm_position, sm_nth, sm_count, sm_last, sm_for_each, ['a, T], std::slice::IterMut<'a, T>, &'a mut T);
over!(vi_fold, vi_try, vi_all, vi_any, vi_find, vi_find_map, vi_position, vi_nth, vi_count, vi_last, vi_for_each, [T], std::vec::IntoIter<T>, T);

pub fn vi_fold_a<T, A, B, F: FnMut(B, T) -> B>(mut it: std::vec::IntoIter<T>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn vi_count_a<T, A>(mut it: std::vec::IntoIter<T>) -> usize {
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn ai_fold<T, const N: usize, B, F: FnMut(B, T) -> B>(mut it: std::array::IntoIter<T, N>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn ai_count<T, const N: usize>(mut it: std::array::IntoIter<T, N>) -> usize {
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
// `ControlFlow`-returning folds are only needed at the concrete residual types used by the
// analysed crates; others fall back to the iterator's own MIR.
pub fn cf_unused() -> ControlFlow<()> {
    ControlFlow::Continue(())
}

// ---- equality of sequences, element by element
pub fn arr_eq<T: PartialEq<U>, U, const N: usize>(a: &[T; N], b: &[U; N]) -> bool {
    seq_eq(a, b)
}
pub fn seq_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn vec_arr_eq<T: PartialEq<U>, U, A, const N: usize>(a: &Vec<T>, b: &[U; N]) -> bool {
    seq_eq(a, b)
}
pub fn vec_arr_ref_eq<T: PartialEq<U>, U, A, const N: usize>(a: &Vec<T>, b: &&[U; N]) -> bool {
    seq_eq(a, *b)
}
pub fn vec_slice_ref_eq<T: PartialEq<U>, U, A>(a: &Vec<T>, b: &&[U]) -> bool {
    seq_eq(a, b)
}
pub fn vec_slice_eq<T: PartialEq<U>, U, A>(a: &Vec<T>, b: &[U]) -> bool {
    seq_eq(a, b)
}
pub fn slice_vec_eq<T: PartialEq<U>, U, A>(a: &[T], b: &Vec<U>) -> bool {
    seq_eq(a, b)
}
pub fn slice_ref_vec_eq<T: PartialEq<U>, U, A>(a: &&[T], b: &Vec<U>) -> bool {
    seq_eq(a, b)
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    seq_eq(a, b)
}
pub fn slice_arr_eq<T: PartialEq<U>, U, const N: usize>(a: &[T], b: &[U; N]) -> bool {
    seq_eq(a, b)
}
pub fn slice_ref_arr_eq<T: PartialEq<U>, U, const N: usize>(a: &&[T], b: &[U; N]) -> bool {
    seq_eq(a, b)
}
pub fn arr_slice_eq<T: PartialEq<U>, U, const N: usize>(a: &[T; N], b: &[U]) -> bool {
    seq_eq(a, b)
}
pub fn starts_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    b.len() <= a.len() && seq_eq(&a[..b.len()], b)
}
pub fn ends_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    b.len() <= a.len() && seq_eq(&a[a.len() - b.len()..], b)
}

// ---- sorting
pub fn sort<T: Ord>(a: &mut [T]) {
    sort_by(a, |x: &T, y: &T| x.cmp(y))
}
pub fn sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(a: &mut [T], mut f: F) {
    let mut i = 1;
    while i < a.len() {
        let mut j = i;
        while j > 0 && f(&a[j - 1], &a[j]) == std::cmp::Ordering::Greater {
            a.swap(j - 1, j);
            j -= 1;
        }
        i += 1;
    }
}
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(a: &mut [T], mut f: F) {
    sort_by(a, |x, y| f(x).cmp(&f(y)))
}
pub fn dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0], &mut a[i - 1]) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) {
    let t = std::mem::take(s);
    for c in t.chars() {
        if f(c) {
            s.push(c);
        }
    }
}
pub fn splice<T, A, R, I>(_v: &mut Vec<T>, _r: R, _i: I) {
    unimplemented!()
}

// ---- maps
use std::collections::{btree_map, hash_map, BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
pub fn bm_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(i: I) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in i {
        m.insert(k, v);
    }
    m
}
pub fn bm_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, i: I) {
    for (k, v) in i {
        m.insert(k, v);
    }
}
pub fn bm_from_arr<K: Ord, V, const N: usize>(i: [(K, V); N]) -> BTreeMap<K, V> {
    bm_from_iter(i)
}
pub fn bs_from_iter<T: Ord, I: IntoIterator<Item = T>>(i: I) -> BTreeSet<T> {
    let mut m = BTreeSet::new();
    for k in i {
        m.insert(k);
    }
    m
}
pub fn bs_from_arr<T: Ord, const N: usize>(i: [T; N]) -> BTreeSet<T> {
    bs_from_iter(i)
}
pub fn hm_from_iter<K: Eq + Hash, V, S, I: IntoIterator<Item = (K, V)>>(i: I) -> HashMap<K, V> {
    let mut m = HashMap::new();
    for (k, v) in i {
        m.insert(k, v);
    }
    m
}
pub fn hs_from_iter<T: Eq + Hash, S, I: IntoIterator<Item = T>>(i: I) -> HashSet<T> {
    let mut m = HashSet::new();
    for k in i {
        m.insert(k);
    }
    m
}
pub fn be_or_insert<'a, K: Ord, V, A>(e: btree_map::Entry<'a, K, V>, v: V) -> &'a mut V {
    match e {
        btree_map::Entry::Occupied(o) => o.into_mut(),
        btree_map::Entry::Vacant(e) => e.insert(v),
    }
}
pub fn be_or_insert_with<'a, K: Ord, V, A, F: FnOnce() -> V>(e: btree_map::Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        btree_map::Entry::Occupied(o) => o.into_mut(),
        btree_map::Entry::Vacant(e) => e.insert(f()),
    }
}
pub fn he_or_insert<'a, K, V, A>(e: hash_map::Entry<'a, K, V>, v: V) -> &'a mut V {
    match e {
        hash_map::Entry::Occupied(o) => o.into_mut(),
        hash_map::Entry::Vacant(e) => e.insert(v),
    }
}
pub fn he_or_insert_with<'a, K, V, A, F: FnOnce() -> V>(e: hash_map::Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        hash_map::Entry::Occupied(o) => o.into_mut(),
        hash_map::Entry::Vacant(e) => e.insert(f()),
    }
}
pub fn bm_retain<K: Ord, V, A, F: FnMut(&K, &mut V) -> bool>(m: &mut BTreeMap<K, V>, mut f: F) {
    let t = std::mem::take(m);
    for (k, mut v) in t {
        if f(&k, &mut v) {
            m.insert(k, v);
        }
    }
}
pub fn bs_retain<K: Ord, A, F: FnMut(&K) -> bool>(m: &mut BTreeSet<K>, mut f: F) {
    let t = std::mem::take(m);
    for k in t {
        if f(&k) {
            m.insert(k);
        }
    }
}
pub fn hm_retain<K: Eq + Hash, V, S, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V>, mut f: F) {
    let t = std::mem::take(m);
    for (k, mut v) in t {
        if f(&k, &mut v) {
            m.insert(k, v);
        }
    }
}
pub fn hm_retain_a<K: Eq + Hash, V, S, A, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V>, f: F) {
    hm_retain::<K, V, S, F>(m, f)
}
pub fn hs_retain_a<K: Eq + Hash, S, A, F: FnMut(&K) -> bool>(m: &mut HashSet<K>, f: F) {
    hs_retain::<K, S, F>(m, f)
}
pub fn hs_retain<K: Eq + Hash, S, F: FnMut(&K) -> bool>(m: &mut HashSet<K>, mut f: F) {
    let t = std::mem::take(m);
    for k in t {
        if f(&k) {
            m.insert(k);
        }
    }
}
pub fn dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i - 1] == v[i] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}

/// Manager::flexible_array_new: collects the elements and hands them to the environment
#[cfg(any(feature = "parse", feature = "app"))]
pub fn flex_new<M: nanvm_lib::mem::manager::Manager, I, E: ExactSizeIterator<Item = I>, X: IntoIterator<IntoIter = E>>(_m: M, i: X) -> nanvm_lib::mem::mut_ref::MutRef<nanvm_lib::mem::flexible_array::FlexibleArray<I, usize>, M::Dealloc> {
    let mut v = Vec::new();
    for x in i.into_iter() {
        v.push(x);
    }
    crate::io::env_flex(v)
}
use nanvm_lib::mem::flexible_array::{constructor::FlexibleArrayConstructor, header::FlexibleArrayHeader};
pub fn fac_new<H: FlexibleArrayHeader, I: Iterator>(h: H, i: I) -> FlexibleArrayConstructor<H, I> {
    let mut v = Vec::new();
    for x in i {
        v.push(x);
    }
    crate::env::flex_new(h, v)
}
