// Histories of the memory managers' public interface.
use crate::env::*;
use core::mem::forget;
use nanvm_lib::mem::flexible_array::constructor::FlexibleArrayConstructor;
use nanvm_lib::mem::flexible_array::header::FlexibleArrayHeader;
use nanvm_lib::mem::flexible_array::FlexibleArray;
use nanvm_lib::mem::global::GLOBAL;
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use nanvm_lib::mem::mut_ref::MutRef;
use nanvm_lib::mem::object::Object;
use nanvm_lib::mem::ref_::Ref;

const SAME: u32 = 1; // the element seen is the element stored
const UNIQUE: u32 = 2; // mutable access is granted iff there is one owner
const LEN: u32 = 3;
const BYTES: u32 = 4;

pub trait Item: Sized {
    fn make(i: u32) -> Self;
    fn look(&self) -> u32;
}

/// an element with identity
pub struct El(pub u32);
impl Drop for El {
    fn drop(&mut self) {
        dropped(self.0)
    }
}
impl Item for El {
    fn make(i: u32) -> Self {
        created(i);
        El(i)
    }
    fn look(&self) -> u32 {
        looked(self.0);
        self.0
    }
}
impl Item for u8 {
    fn make(i: u32) -> Self {
        i as u8
    }
    fn look(&self) -> u32 {
        *self as u32
    }
}
impl Item for u16 {
    fn make(i: u32) -> Self {
        i as u16
    }
    fn look(&self) -> u32 {
        *self as u32
    }
}
impl Item for u64 {
    fn make(i: u32) -> Self {
        i as u64
    }
    fn look(&self) -> u32 {
        *self as u32
    }
}
/// padding and over-alignment
#[repr(align(32))]
pub struct Big(El, u8);
impl Item for Big {
    fn make(i: u32) -> Self {
        Big(El::make(i), i as u8)
    }
    fn look(&self) -> u32 {
        check(self.1 as u32 == self.0 .0, SAME);
        self.0.look()
    }
}
/// a whole page
#[repr(align(4096))]
pub struct Page(u8);
impl Item for Page {
    fn make(i: u32) -> Self {
        Page(i as u8)
    }
    fn look(&self) -> u32 {
        self.0 as u32
    }
}
impl Item for u128 {
    fn make(i: u32) -> Self {
        i as u128
    }
    fn look(&self) -> u32 {
        *self as u32
    }
}
pub struct Odd(u8, El, u8);
impl Item for Odd {
    fn make(i: u32) -> Self {
        Odd(i as u8, El::make(i), i as u8)
    }
    fn look(&self) -> u32 {
        check(self.0 as u32 == self.1 .0 && self.2 == self.0, SAME);
        self.1.look()
    }
}
impl Item for () {
    fn make(_: u32) -> Self {}
    fn look(&self) -> u32 {
        0
    }
}

/// yields elements base, base + 1, ...
pub struct Items<T> {
    i: u32,
    n: u32,
    lie: u32,
    _0: core::marker::PhantomData<T>,
}
impl<T: Item> Items<T> {
    pub fn new(base: u32, n: u32) -> Self {
        Self { i: base, n: base + n, lie: 0, _0: core::marker::PhantomData }
    }
}
impl<T: Item> Iterator for Items<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.lie == 2 {
            may_panic();
        }
        if self.i >= self.n {
            return None;
        }
        let r = T::make(self.i);
        self.i += 1;
        Some(r)
    }
}
impl<T: Item> ExactSizeIterator for Items<T> {
    fn len(&self) -> usize {
        (self.n - self.i) as usize + if self.lie == 1 { 1 } else { 0 }
    }
}

fn id<T: Item>(base: u32, i: u32) -> u32 {
    if core::mem::size_of::<T>() == 0 {
        0
    } else {
        base + i
    }
}

fn see<T: Item, H: FlexibleArrayHeader>(a: &FlexibleArray<T, H>, base: u32, n: u32) {
    check(a.items().len() == n as usize, LEN);
    let mut i = 0;
    while i < n {
        check(a.items()[i as usize].look() == id::<T>(base, i), SAME);
        i += 1;
    }
}

fn replace<T: Item, H: FlexibleArrayHeader>(a: &mut FlexibleArray<T, H>, base: u32, n: u32) {
    let mut i = 0;
    while i < n {
        a.items_mut()[i as usize] = T::make(base + i);
        i += 1;
    }
}

fn array<M: Manager, T: Item>(m: M) {
    let n = choose(4);
    let mut a = m.flexible_array_new(Items::<T>::new(0, n));
    see(&*a, 0, n);
    let base = if choose(2) == 1 {
        replace(&mut *a, 10, n);
        10
    } else {
        0
    };
    see(&*a, base, n);
    if choose(2) == 1 {
        drop(a);
    } else {
        let r = a.to_ref();
        see(&*r, base, n);
        drop(r);
    }
    end();
}

fn fixed<M: Manager, T: Item>(m: M) {
    let mut a = m.fixed_new(T::make(7));
    check(a.0.look() == id::<T>(0, 7), SAME);
    if choose(2) == 1 {
        a.0 = T::make(8);
        check(a.0.look() == id::<T>(0, 8), SAME);
    }
    if choose(2) == 1 {
        drop(a);
    } else {
        let r = a.to_ref();
        r.0.look();
        drop(r);
    }
    end();
}

/// up to three owners dropped in every order, with reads between
fn owners3<M: Manager, T: Item>(m: M) {
    let a = m.flexible_array_new(Items::<T>::new(0, 2)).to_ref();
    let b = a.clone();
    let c = if choose(2) == 0 { a.clone() } else { b.clone() };
    see(&*c, 0, 2);
    let mut v = [Some(a), Some(b), Some(c)];
    let i = choose(3) as usize;
    v[i] = None;
    if let Some(r) = &v[(i + 1) % 3] {
        see(&**r, 0, 2);
    }
    let j = (i + 1 + choose(2) as usize) % 3;
    v[j] = None;
    let k = 3 - i - j;
    if let Some(r) = &v[k] {
        see(&**r, 0, 2);
    }
    if choose(2) == 1 {
        v[k] = None;
    } else if let Some(r) = v[k].take() {
        match r.try_to_mut_ref() {
            Ok(mut m) => {
                replace(&mut *m, 10, 2);
                see(&*m, 10, 2);
                if choose(2) == 1 {
                    let r = m.to_ref();
                    see(&*r, 10, 2);
                    let s = r.clone();
                    drop(r);
                    see(&*s, 10, 2);
                }
            }
            Err(_) => check(false, UNIQUE),
        }
    }
    end();
}

/// the object of type `Fixed` has `k >= 1` owners, k unknown
fn counted<M: Manager>(m: M) {
    let r = m.fixed_new(El::make(0)).to_ref();
    before();
    let c = r.clone();
    after();
    forget(c);
    havoc_owners();
    step(r);
}

fn counted_array<M: Manager>(m: M) {
    let r = m.flexible_array_new(Items::<El>::new(0, 2)).to_ref();
    before();
    let c = r.clone();
    after();
    forget(c);
    havoc_owners();
    step(r);
}

/// any single operation on an object with k owners
fn step<T: Object, D: Dealloc>(r: Ref<T, D>) {
    match choose(6) {
        0 => {
            let c = r.clone();
            owners(1);
            forget(c);
            forget(r);
        }
        1 => {
            let one = only_owner();
            drop(r);
            if one {
                end();
            } else {
                owners(-1);
            }
        }
        2 => {
            let one = only_owner();
            match r.try_to_mut_ref() {
                Ok(m) => {
                    check(one, UNIQUE);
                    if choose(2) == 1 {
                        drop(m);
                        end();
                    } else {
                        let r = m.to_ref();
                        owners(0);
                        let c = r.clone();
                        owners(1);
                        forget(c);
                        forget(r);
                    }
                }
                Err(r) => {
                    check(!one, UNIQUE);
                    owners(0);
                    forget(r);
                }
            }
        }
        3 => {
            let _ = &*r;
            let _ = r.is_ref();
            let _ = r == r;
            owners(0);
            forget(r);
        }
        4 => {
            let one = only_owner();
            let c = r.clone();
            match r.try_to_mut_ref() {
                Ok(m) => {
                    check(false, UNIQUE);
                    forget(m);
                }
                Err(r) => {
                    drop(r);
                    owners(0);
                    drop(c);
                    if one {
                        end();
                    } else {
                        owners(-1);
                    }
                }
            }
        }
        _ => {
            // moving an owner in and out of a container
            let mut v = Some(r);
            let t = v.take();
            owners(0);
            forget(t);
        }
    }
}

/// a user-defined header
pub struct Head {
    n: usize,
    e: El,
}
impl FlexibleArrayHeader for Head {
    fn len(&self) -> usize {
        // the header must not be asked after it was destroyed
        self.e.look();
        self.n
    }
}
/// headers that are smaller or aligned less than the items, and the other way round
pub struct Small(u8);
impl FlexibleArrayHeader for Small {
    fn len(&self) -> usize {
        self.0 as usize
    }
}
#[repr(align(64))]
pub struct Wide(u8, El);
impl FlexibleArrayHeader for Wide {
    fn len(&self) -> usize {
        self.1.look();
        self.0 as usize
    }
}
fn heads<M: Manager, H: FlexibleArrayHeader, T: Item>(m: M, n: u32, h: H) {
    let a = m.new(FlexibleArrayConstructor::new(h, Items::<T>::new(0, n)));
    see(&*a, 0, n);
    let r = a.to_ref();
    see(&*r, 0, n);
    drop(r);
    end();
}
/// more elements than fit a byte
fn long<M: Manager, T: Item>(m: M) {
    let mut a = m.flexible_array_new(Items::<T>::new(0, 260));
    replace(&mut *a, 10, 260);
    let r = a.to_ref();
    see(&*r, 10, 260);
    drop(r);
    end();
}
fn head_small<M: Manager, T: Item>(m: M) {
    let n = choose(3);
    heads::<M, Small, T>(m, n, Small(n as u8));
}
fn head_wide<M: Manager, T: Item>(m: M) {
    let n = choose(3);
    heads::<M, Wide, T>(m, n, Wide(n as u8, El::make(98)));
}
/// an iterator that owns more than the array takes
struct Rest(El, Items<El>, usize, El);
impl Iterator for Rest {
    type Item = El;
    fn next(&mut self) -> Option<El> {
        self.0.look();
        self.1.next()
    }
}
impl ExactSizeIterator for Rest {
    fn len(&self) -> usize {
        self.3.look();
        self.2
    }
}
fn spare<M: Manager>(m: M) {
    let n = choose(3);
    let k = choose(2);
    let a = m.flexible_array_new(Rest(El::make(70), Items::new(0, n + k), n as usize, El::make(71)));
    see(&*a, 0, n);
    drop(a);
    end();
}
fn header<M: Manager, T: Item>(m: M) {
    let n = choose(3);
    let h = Head { n: n as usize, e: El::make(99) };
    let a = m.new(FlexibleArrayConstructor::new(h, Items::<T>::new(0, n)));
    see(&*a, 0, n);
    let r = a.to_ref();
    let s = r.clone();
    drop(r);
    see(&*s, 0, n);
    drop(s);
    end();
}

/// nested objects
struct Two<T>(Option<T>, Option<T>);
impl<T> Iterator for Two<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.0.take();
        self.0 = self.1.take();
        r
    }
}
impl<T> ExactSizeIterator for Two<T> {
    fn len(&self) -> usize {
        (if self.0.is_some() { 1 } else { 0 }) + (if self.1.is_some() { 1 } else { 0 })
    }
}

fn nested<M: Manager>(m: M) {
    let inner = m.fixed_new(El::make(5)).to_ref();
    let keep = choose(2) == 1;
    let k = if keep { Some(inner.clone()) } else { None };
    let outer = m.flexible_array_new(Two(Some(inner.clone()), Some(inner))).to_ref();
    let o2 = outer.clone();
    drop(outer);
    check(o2.items()[0].0.look() == 5, SAME);
    let x = o2.items()[1].clone();
    drop(o2);
    check(x.0.look() == 5, SAME);
    drop(x);
    if let Some(k) = k {
        check(k.0.look() == 5, SAME);
    }
    end();
}

/// an iterator whose length is wrong, or that panics
fn liar<M: Manager>(m: M) {
    let mut it = Items::<El>::new(0, choose(3));
    it.lie = 1 + choose(2);
    let a = m.flexible_array_new(it);
    drop(a);
}

fn bytes(l: &Local) {
    let a = l.fixed_new(El::make(0));
    check(l.size() == live_bytes(), BYTES);
    let b = l.flexible_array_new(Items::<u16>::new(0, choose(4)));
    check(l.size() == live_bytes(), BYTES);
    let p = l.fixed_new(Page::make(1));
    check(l.size() == live_bytes(), BYTES);
    drop(p);
    check(l.size() == live_bytes(), BYTES);
    let c = l.flexible_array_new(Items::<Big>::new(1, choose(2)));
    check(l.size() == live_bytes(), BYTES);
    let c = c.to_ref();
    let d = c.clone();
    check(l.size() == live_bytes(), BYTES);
    match choose(3) {
        0 => {
            drop(a);
            check(l.size() == live_bytes(), BYTES);
            drop(c);
            check(l.size() == live_bytes(), BYTES);
            drop(b);
            check(l.size() == live_bytes(), BYTES);
            drop(d);
        }
        1 => {
            drop(b);
            check(l.size() == live_bytes(), BYTES);
            drop(d);
            check(l.size() == live_bytes(), BYTES);
            drop(c);
            check(l.size() == live_bytes(), BYTES);
            drop(a);
        }
        _ => {
            drop(d);
            let r = a.to_ref();
            check(l.size() == live_bytes(), BYTES);
            if let Ok(m) = c.try_to_mut_ref() {
                check(l.size() == live_bytes(), BYTES);
                drop(m);
            }
            check(l.size() == live_bytes(), BYTES);
            drop(r);
            drop(b);
        }
    }
    check(l.size() == 0, BYTES);
    check(l.size() == live_bytes(), BYTES);
    end();
}

/// a value taken out, transformed and put back while the transformation may panic
fn modify() {
    use nanvm_lib::common::ref_mut::RefMut;
    let mut e = El::make(1);
    e.modify(|x| {
        x.look();
        may_panic();
        drop(x);
        El::make(2)
    });
    e.look();
}

/// sizes of objects of unknown length: exact, or a panic
fn size_of_array<T>() {
    let n = any_usize();
    let s = FlexibleArray::<T>::flexible_size(n);
    holds_exactly(s, n, core::mem::size_of::<T>(), core::mem::size_of::<usize>());
}

struct Stop<T>(usize, core::marker::PhantomData<T>);
impl<T> Iterator for Stop<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        fits(self.0, core::mem::size_of::<T>());
        stop();
        None
    }
}
impl<T> ExactSizeIterator for Stop<T> {
    fn len(&self) -> usize {
        self.0
    }
}
/// an array of unknown length: the block that is allocated holds all of its elements
fn huge<M: Manager, T>(m: M) {
    let n = any_usize();
    let a = m.flexible_array_new(Stop::<T>(n, core::marker::PhantomData));
    drop(a);
    end();
}

macro_rules! both {
    ($($name:ident = $f:ident $(<$t:ty>)?;)*) => { $(
        pub mod $name {
            use super::*;
            pub fn root_global() { super::$f::<_ $(, $t)?>(GLOBAL) }
            pub fn root_local() { let l = Local::default(); super::$f::<_ $(, $t)?>(&l) }
        }
    )* };
}
both! {
    array_el = array<El>;
    array_u8 = array<u8>;
    array_u16 = array<u16>;
    array_u64 = array<u64>;
    array_big = array<Big>;
    array_odd = array<Odd>;
    array_zst = array<()>;
    fixed_el = fixed<El>;
    fixed_u8 = fixed<u8>;
    fixed_big = fixed<Big>;
    fixed_odd = fixed<Odd>;
    fixed_zst = fixed<()>;
    owners3_el = owners3<El>;
    owners3_u8 = owners3<u8>;
    header_el = header<El>;
    header_big = header<Big>;
    header_u8 = header<u8>;
    array_page = array<Page>;
    array_u128 = array<u128>;
    fixed_page = fixed<Page>;
    fixed_u128 = fixed<u128>;
    head_small_u16 = head_small<u16>;
    head_small_u64 = head_small<u64>;
    head_small_big = head_small<Big>;
    head_wide_u8 = head_wide<u8>;
    head_wide_el = head_wide<El>;
    head_wide_page = head_wide<Page>;
    spare_el = spare;
    array_long_u16 = long<u16>;
    array_long_el = long<El>;
    huge_page = huge<Page>;
    counted_fixed = counted;
    counted_flex = counted_array;
    nested_refs = nested;
    liar_el = liar;
    huge_u8 = huge<u8>;
    huge_u64 = huge<u64>;
    huge_big = huge<Big>;
    huge_odd = huge<Odd>;
}
pub fn root_bytes() {
    let l = Local::default();
    bytes(&l)
}
pub fn root_modify() {
    modify();
    end()
}
pub fn root_size_u8() {
    size_of_array::<u8>()
}
pub fn root_size_u64() {
    size_of_array::<u64>()
}
pub fn root_size_big() {
    size_of_array::<Big>()
}
