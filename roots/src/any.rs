// Histories of the universal value `Any` over both memory managers.
use crate::env::*;
use core::mem::forget;
use nanvm_lib::js::any::Any;
use nanvm_lib::js::any_cast::AnyCast;
use nanvm_lib::js::js_array::{new_array, JsArray, JsArrayRef};
use nanvm_lib::js::js_bigint::{new_bigint, JsBigint, JsBigintRef, Sign};
use nanvm_lib::js::js_object::{new_object, JsObject, JsObjectRef};
use nanvm_lib::js::js_string::{new_string, JsString, JsStringRef};
use nanvm_lib::js::new::New;
use nanvm_lib::js::null::Null;
use nanvm_lib::js::type_::Type;
use nanvm_lib::js::visitor::{to_visitor, Visitor};
use nanvm_lib::mem::global::GLOBAL;
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use nanvm_lib::mem::ref_::Ref;

pub const TYPE: u32 = 11; // type queries
pub const VALUE: u32 = 12; // the value read back
pub const VISIT: u32 = 13; // for_each
pub const EQ: u32 = 14; // equality
pub const HASH: u32 = 15; // equal values hash equally

/// u16 code units base, base + 1, ...
pub struct Units(pub u32, pub u32);
impl Iterator for Units {
    type Item = u16;
    fn next(&mut self) -> Option<u16> {
        if self.0 >= self.1 {
            return None;
        }
        let r = self.0 as u16;
        self.0 += 1;
        Some(r)
    }
}
impl ExactSizeIterator for Units {
    fn len(&self) -> usize {
        (self.1 - self.0) as usize
    }
}
pub struct Limbs(pub u32, pub u32);
impl Iterator for Limbs {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        if self.0 >= self.1 {
            return None;
        }
        let r = self.0 as u64;
        self.0 += 1;
        Some(r)
    }
}
impl ExactSizeIterator for Limbs {
    fn len(&self) -> usize {
        (self.1 - self.0) as usize
    }
}
/// at most three owned items
pub struct Own<T>(pub Option<T>, pub Option<T>, pub Option<T>);
impl<T> Iterator for Own<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.0.take();
        self.0 = self.1.take();
        self.1 = self.2.take();
        r
    }
}
impl<T> ExactSizeIterator for Own<T> {
    fn len(&self) -> usize {
        (if self.0.is_some() { 1 } else { 0 }) + (if self.1.is_some() { 1 } else { 0 }) + (if self.2.is_some() { 1 } else { 0 })
    }
}

fn string<M: Manager>(m: M, base: u32, n: u32) -> JsStringRef<M::Dealloc> {
    new_string(m, Units(base, base + n)).to_ref()
}
fn is_string(s: &JsString, base: u32, n: u32) {
    check(s.items().len() == n as usize, VALUE);
    let mut i = 0;
    while i < n {
        check(s.items()[i as usize] as u32 == base + i, VALUE);
        i += 1;
    }
}
fn same_f64(a: f64, b: f64) -> bool {
    if a.is_nan() {
        b.is_nan()
    } else {
        a.to_bits() == b.to_bits()
    }
}

/// `k` is the number of the type of the value
fn types<D: Dealloc>(a: &Any<D>, k: u32) {
    check(a.is::<f64>() == (k == 0), TYPE);
    check(a.is::<bool>() == (k == 1), TYPE);
    check(a.is::<JsStringRef<D>>() == (k == 2), TYPE);
    check(a.is::<Null>() == (k == 3), TYPE);
    check(a.is::<JsObjectRef<D>>() == (k == 4), TYPE);
    check(a.is::<JsArrayRef<D>>() == (k == 5), TYPE);
    check(a.is::<JsBigintRef<D>>() == (k == 6), TYPE);
    let t = match a.get_type() {
        Type::Number => 0,
        Type::Bool => 1,
        Type::String => 2,
        Type::Null => 3,
        Type::Object => 4,
        Type::Array => 5,
        Type::Bigint => 6,
    };
    check(t == k, TYPE);
    check(a.is_ref() == (k == 2 || k >= 4), TYPE);
    check(a.try_ref::<JsString>().is_ok() == (k == 2), TYPE);
    check(a.try_ref::<JsObject<D>>().is_ok() == (k == 4), TYPE);
    check(a.try_ref::<JsArray<D>>().is_ok() == (k == 5), TYPE);
    check(a.try_ref::<JsBigint>().is_ok() == (k == 6), TYPE);
}

fn is_number<D: Dealloc>(a: &Any<D>, x: f64) {
    match a.clone().try_move::<f64>() {
        Ok(y) => check(same_f64(x, y), VALUE),
        Err(()) => check(false, TYPE),
    }
}
fn is_bool<D: Dealloc>(a: &Any<D>, x: bool) {
    match a.clone().try_move::<bool>() {
        Ok(y) => check(x == y, VALUE),
        Err(()) => check(false, TYPE),
    }
}

/// every conversion except the one to type k fails and still releases the value
fn wrong<D: Dealloc>(a: Any<D>, k: u32) {
    match choose(7) {
        0 => {
            if k != 0 {
                check(a.try_move::<f64>().is_err(), TYPE);
            }
        }
        1 => {
            if k != 1 {
                check(a.try_move::<bool>().is_err(), TYPE);
            }
        }
        2 => {
            if k != 2 {
                check(a.try_move::<JsStringRef<D>>().is_err(), TYPE);
            }
        }
        3 => {
            if k != 3 {
                check(a.try_move::<Null>().is_err(), TYPE);
            }
        }
        4 => {
            if k != 4 {
                check(a.try_move::<JsObjectRef<D>>().is_err(), TYPE);
            }
        }
        5 => {
            if k != 5 {
                check(a.try_move::<JsArrayRef<D>>().is_err(), TYPE);
            }
        }
        _ => {
            if k != 6 {
                check(a.try_move::<JsBigintRef<D>>().is_err(), TYPE);
            }
        }
    }
}

fn number<M: Manager>(_m: M) {
    let x = any_f64();
    let a: Any<M::Dealloc> = x.move_to_any();
    types(&a, 0);
    is_number(&a, x);
    let b = a.clone();
    check(b == a, EQ);
    match choose(3) {
        0 => wrong(a, 0),
        1 => match to_visitor(a) {
            Visitor::Number(y) => check(same_f64(x, y), VALUE),
            _ => check(false, TYPE),
        },
        _ => {
            check(a.for_each::<()>(|_, _| Err(())).is_ok(), VISIT);
            drop(a)
        }
    }
    drop(b);
    end();
}

fn boolean<M: Manager>(_m: M) {
    let x = choose(2) == 1;
    let a: Any<M::Dealloc> = x.move_to_any();
    types(&a, 1);
    is_bool(&a, x);
    let b = a.clone();
    check(b == a, EQ);
    let c: Any<M::Dealloc> = (!x).move_to_any();
    check(!(c == a), EQ);
    match choose(3) {
        0 => wrong(a, 1),
        1 => match to_visitor(a) {
            Visitor::Bool(y) => check(x == y, VALUE),
            _ => check(false, TYPE),
        },
        _ => {
            check(a.for_each::<()>(|_, _| Err(())).is_ok(), VISIT);
            drop(a)
        }
    }
    drop(b);
    end();
}

fn null<M: Manager>(_m: M) {
    let a: Any<M::Dealloc> = Null().move_to_any();
    types(&a, 3);
    check(a.clone().try_move::<Null>().is_ok(), TYPE);
    let b = a.clone();
    check(b == a, EQ);
    let c: Any<M::Dealloc> = (choose(2) == 1).move_to_any();
    check(!(c == a), EQ);
    match choose(3) {
        0 => wrong(a, 3),
        1 => check(matches!(to_visitor(a), Visitor::Null), TYPE),
        _ => {
            check(a.for_each::<()>(|_, _| Err(())).is_ok(), VISIT);
            drop(a)
        }
    }
    drop(b);
    end();
}

fn strings<M: Manager>(m: M) {
    let n = choose(3);
    let a: Any<M::Dealloc> = if choose(2) == 1 { string(m, 100, n).move_to_any() } else { m.new_js_string(Units(100, 100 + n)) };
    types(&a, 2);
    let b = a.clone();
    check(b == a, EQ);
    if let Ok(s) = a.try_ref::<JsString>() {
        is_string(s.object(), 100, n);
    }
    match choose(4) {
        0 => wrong(a, 2),
        1 => match to_visitor(a) {
            Visitor::String(s) => is_string(&s, 100, n),
            _ => check(false, TYPE),
        },
        2 => match a.try_move::<JsStringRef<M::Dealloc>>() {
            Ok(s) => {
                is_string(&s, 100, n);
                let t = s.clone();
                let back: Any<M::Dealloc> = s.move_to_any();
                check(back == b, EQ);
                drop(t);
                drop(back);
            }
            Err(()) => check(false, TYPE),
        },
        _ => {
            check(a.for_each::<()>(|_, _| Err(())).is_ok(), VISIT);
            drop(a)
        }
    }
    if let Ok(s) = b.try_move::<JsStringRef<M::Dealloc>>() {
        is_string(&s, 100, n);
    } else {
        check(false, TYPE);
    }
    end();
}

fn bigints<M: Manager>(m: M) {
    let n = choose(3);
    let neg = choose(2) == 1;
    let r = new_bigint(m, if neg { Sign::Negative } else { Sign::Positive }, Limbs(5, 5 + n)).to_ref();
    let a: Any<M::Dealloc> = r.move_to_any();
    types(&a, 6);
    let b = a.clone();
    check(b == a, EQ);
    match choose(4) {
        0 => wrong(a, 6),
        1 => match to_visitor(a) {
            Visitor::Bigint(s) => is_big(&s, neg, n),
            _ => check(false, TYPE),
        },
        2 => match a.try_move::<JsBigintRef<M::Dealloc>>() {
            Ok(s) => is_big(&s, neg, n),
            Err(()) => check(false, TYPE),
        },
        _ => {
            check(a.for_each::<()>(|_, _| Err(())).is_ok(), VISIT);
            drop(a)
        }
    }
    if let Ok(s) = b.try_move::<JsBigintRef<M::Dealloc>>() {
        is_big(&s, neg, n);
    } else {
        check(false, TYPE);
    }
    end();
}
fn is_big(s: &JsBigint, neg: bool, n: u32) {
    check(s.items().len() == n as usize, VALUE);
    if n != 0 {
        check((s.sign() == Sign::Negative) == neg, VALUE);
    }
    let mut i = 0;
    while i < n {
        check(s.items()[i as usize] == 5 + i as u64, VALUE);
        i += 1;
    }
}

/// a child value: (value, number of its kind, tag)
fn child<M: Manager>(m: M, c: u32) -> Any<M::Dealloc> {
    match c {
        0 => 1.5f64.move_to_any(),
        1 => true.move_to_any(),
        2 => string(m, 50, 1).move_to_any(),
        _ => m.new_js_array(Own(None, None, None)),
    }
}
fn is_child<D: Dealloc>(a: &Any<D>, c: u32) {
    match c {
        0 => is_number(a, 1.5),
        1 => is_bool(a, true),
        2 => match a.try_ref::<JsString>() {
            Ok(s) => is_string(s.object(), 50, 1),
            Err(()) => check(false, TYPE),
        },
        _ => match a.try_ref::<JsArray<D>>() {
            Ok(s) => check(s.object().items().len() == 0, VALUE),
            Err(()) => check(false, TYPE),
        },
    }
}

fn arrays<M: Manager>(m: M) {
    let n = choose(3);
    let c0 = choose(4);
    let c1 = if n == 2 { choose(4) } else { 0 };
    let items = Own(
        if n > 0 { Some(child(m, c0)) } else { None },
        if n > 1 { Some(child(m, c1)) } else { None },
        None,
    );
    let a: Any<M::Dealloc> = if choose(2) == 1 { new_array(m, items).to_ref().move_to_any() } else { m.new_js_array(items) };
    types(&a, 5);
    let b = a.clone();
    check(b == a, EQ);
    match choose(5) {
        0 => wrong(a, 5),
        1 => match to_visitor(a) {
            Visitor::Array(s) => is_array(&s, n, c0, c1),
            _ => check(false, TYPE),
        },
        2 => match a.try_move::<JsArrayRef<M::Dealloc>>() {
            Ok(s) => is_array(&s, n, c0, c1),
            Err(()) => check(false, TYPE),
        },
        3 => {
            let mut i = 0;
            let r = a.for_each::<u32>(|k, v| {
                is_number(&k, i as f64);
                is_child(v, if i == 0 { c0 } else { c1 });
                i += 1;
                Ok(())
            });
            check(r.is_ok() && i == n, VISIT);
            drop(a);
        }
        _ => {
            // the first error ends the iteration and is returned
            let mut i = 0;
            let e = choose(2);
            let r = a.for_each::<u32>(|_, _| {
                i += 1;
                if i > e {
                    Err(7 + i)
                } else {
                    Ok(())
                }
            });
            check(r == if n <= e { Ok(()) } else { Err(8 + e) }, VISIT);
            check(i == if n <= e { n } else { e + 1 }, VISIT);
            drop(a);
        }
    }
    if let Ok(s) = b.try_move::<JsArrayRef<M::Dealloc>>() {
        is_array(&s, n, c0, c1);
    } else {
        check(false, TYPE);
    }
    end();
}
fn is_array<D: Dealloc>(s: &JsArray<D>, n: u32, c0: u32, c1: u32) {
    check(s.items().len() == n as usize, VALUE);
    if n > 0 {
        is_child(&s.items()[0], c0);
    }
    if n > 1 {
        is_child(&s.items()[1], c1);
    }
}

pub struct LongItems<D: Dealloc>(u32, u32, core::marker::PhantomData<D>);
impl<D: Dealloc> Iterator for LongItems<D> {
    type Item = Any<D>;
    fn next(&mut self) -> Option<Any<D>> {
        if self.0 >= self.1 {
            return None;
        }
        let r = f64::from_bits(self.0 as u64).move_to_any();
        self.0 += 1;
        Some(r)
    }
}
impl<D: Dealloc> ExactSizeIterator for LongItems<D> {
    fn len(&self) -> usize {
        (self.1 - self.0) as usize
    }
}
/// more elements than fit a byte
fn long<M: Manager>(m: M) {
    let n = 260;
    let a: Any<M::Dealloc> = new_array(m, LongItems::<M::Dealloc>(0, n, core::marker::PhantomData)).to_ref().move_to_any();
    let mut i = 0;
    let r = a.for_each::<u32>(|k, v| {
        is_number(&k, i as f64);
        is_number(v, f64::from_bits(i as u64));
        i += 1;
        Ok(())
    });
    check(r.is_ok() && i == n, VISIT);
    drop(a);
    end();
}

fn objects<M: Manager>(m: M) {
    let n = choose(3);
    let c0 = choose(4);
    let c1 = if n == 2 { choose(4) } else { 0 };
    let items = Own(
        if n > 0 { Some((string(m, 10, 1), child(m, c0))) } else { None },
        if n > 1 { Some((string(m, 20, 2), child(m, c1))) } else { None },
        None,
    );
    let a: Any<M::Dealloc> = if choose(2) == 1 { new_object(m, items).to_ref().move_to_any() } else { m.new_js_object(items) };
    types(&a, 4);
    let b = a.clone();
    check(b == a, EQ);
    match choose(5) {
        0 => wrong(a, 4),
        1 => match to_visitor(a) {
            Visitor::Object(s) => is_object(&s, n, c0, c1),
            _ => check(false, TYPE),
        },
        2 => match a.try_move::<JsObjectRef<M::Dealloc>>() {
            Ok(s) => is_object(&s, n, c0, c1),
            Err(()) => check(false, TYPE),
        },
        3 => {
            let mut i = 0;
            let r = a.for_each::<u32>(|k, v| {
                match k.try_ref::<JsString>() {
                    Ok(s) => is_string(s.object(), if i == 0 { 10 } else { 20 }, 1 + i),
                    Err(()) => check(false, VISIT),
                }
                is_child(v, if i == 0 { c0 } else { c1 });
                i += 1;
                Ok(())
            });
            check(r.is_ok() && i == n, VISIT);
            drop(a);
        }
        _ => {
            let mut i = 0;
            let e = choose(2);
            let r = a.for_each::<u32>(|_, _| {
                i += 1;
                if i > e {
                    Err(7 + i)
                } else {
                    Ok(())
                }
            });
            check(r == if n <= e { Ok(()) } else { Err(8 + e) }, VISIT);
            check(i == if n <= e { n } else { e + 1 }, VISIT);
            drop(a);
        }
    }
    if let Ok(s) = b.try_move::<JsObjectRef<M::Dealloc>>() {
        is_object(&s, n, c0, c1);
    } else {
        check(false, TYPE);
    }
    end();
}
fn is_object<D: Dealloc>(s: &JsObject<D>, n: u32, c0: u32, c1: u32) {
    check(s.items().len() == n as usize, VALUE);
    if n > 0 {
        is_string(&s.items()[0].0, 10, 1);
        is_child(&s.items()[0].1, c0);
    }
    if n > 1 {
        is_string(&s.items()[1].0, 20, 2);
        is_child(&s.items()[1].1, c1);
    }
}

/// distinct values are different
fn distinct<M: Manager>(m: M) {
    let k = choose(4);
    let a: Any<M::Dealloc> = child(m, k);
    let l = choose(4);
    let b: Any<M::Dealloc> = child(m, l);
    check((a == b) == (k == l && k < 2), EQ);
    drop(a);
    drop(b);
    end();
}

/// records what is hashed
struct Rec(u64, u32);
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        self.1 += 100;
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
        self.1 += 1;
    }
    fn write_u8(&mut self, v: u8) {
        self.0 = v as u64;
        self.1 += 2;
    }
    fn write_usize(&mut self, v: usize) {
        self.0 = v as u64;
        self.1 += 4;
    }
}
fn hashed<D: Dealloc>(a: &Any<D>) -> Rec {
    let mut r = Rec(0, 0);
    core::hash::Hash::hash(a, &mut r);
    r
}
fn hash_equally<D: Dealloc>(a: &Any<D>, b: &Any<D>) {
    let (x, y) = (hashed(a), hashed(b));
    check(x.1 == y.1 && x.0 == y.0, HASH);
}

/// equality is identity, and equal values hash equally
fn same<M: Manager>(m: M) {
    match choose(4) {
        0 => {
            let x = any_f64();
            let a: Any<M::Dealloc> = x.move_to_any();
            let b: Any<M::Dealloc> = x.move_to_any();
            check(a == b && a == a, EQ);
            hash_equally(&a, &b);
        }
        1 => {
            let x = any_f64();
            let y = any_f64();
            let a: Any<M::Dealloc> = x.move_to_any();
            let b: Any<M::Dealloc> = y.move_to_any();
            if same_f64(x, y) {
                check(a == b && b == a, EQ);
                hash_equally(&a, &b);
            } else {
                check(!(a == b) && !(b == a), EQ);
            }
        }
        2 => {
            let a: Any<M::Dealloc> = any_f64().move_to_any();
            let k = choose(4);
            let b: Any<M::Dealloc> = match k {
                0 => Null().move_to_any(),
                1 => true.move_to_any(),
                2 => false.move_to_any(),
                _ => string(m, 10, 1).move_to_any(),
            };
            check(!(a == b) && !(b == a), EQ);
            drop(b);
        }
        _ => {
            let k = choose(4);
            let a: Any<M::Dealloc> = child(m, k);
            let b = a.clone();
            check(a == b && b == a, EQ);
            hash_equally(&a, &b);
            let c = a.clone();
            drop(a);
            check(c == b, EQ);
            drop(c);
            drop(b);
        }
    }
    end();
}

/// any single operation on a value with k owners
fn counted<M: Manager>(m: M) {
    let k = choose(4);
    let a: Any<M::Dealloc> = match k {
        0 => string(m, 10, 1).move_to_any(),
        1 => m.new_js_object(Own(Some((string(m, 10, 1), string(m, 12, 1).move_to_any())), None, None)),
        2 => m.new_js_array(Own(Some(string(m, 10, 1).move_to_any()), None, None)),
        _ => new_bigint(m, Sign::Negative, Limbs(5, 7)).to_ref().move_to_any(),
    };
    before();
    let c = a.clone();
    after();
    forget(c);
    havoc_owners();
    match choose(7) {
        0 => {
            let c = a.clone();
            owners(1);
            forget(c);
            forget(a);
        }
        1 => {
            let one = only_owner();
            drop(a);
            gone(one);
        }
        2 => {
            let one = only_owner();
            let ok = match k {
                0 => a.try_move::<JsBigintRef<M::Dealloc>>().is_err(),
                1 => a.try_move::<f64>().is_err(),
                2 => a.try_move::<JsObjectRef<M::Dealloc>>().is_err(),
                _ => a.try_move::<bool>().is_err(),
            };
            check(ok, TYPE);
            gone(one);
        }
        3 => {
            let one = only_owner();
            match k {
                0 => through::<JsString, M::Dealloc>(a, one),
                1 => through::<JsObject<M::Dealloc>, M::Dealloc>(a, one),
                2 => through::<JsArray<M::Dealloc>, M::Dealloc>(a, one),
                _ => through::<JsBigint, M::Dealloc>(a, one),
            }
        }
        4 => {
            let one = only_owner();
            let v = to_visitor(a);
            owners(0);
            drop(v);
            gone(one);
        }
        5 => {
            let _ = a.for_each::<()>(|k, v| {
                let _ = k.clone();
                let _ = v.clone();
                if choose(2) == 1 {
                    Err(())
                } else {
                    Ok(())
                }
            });
            owners(0);
            forget(a);
        }
        _ => {
            let _ = a == a;
            let _ = a.get_type();
            let _ = a.is_ref();
            let _ = a.try_ref::<JsString>().is_ok();
            owners(0);
            forget(a);
        }
    }
}
fn gone(one: bool) {
    if one {
        end();
    } else {
        owners(-1);
    }
}
fn through<T: nanvm_lib::mem::object::Object, D: Dealloc>(a: Any<D>, one: bool)
where
    Ref<T, D>: AnyCast<D>,
{
    match a.try_move::<Ref<T, D>>() {
        Ok(r) => {
            owners(0);
            match r.try_to_mut_ref() {
                Ok(m) => {
                    check(one, 2);
                    let back: Any<D> = m.to_ref().move_to_any();
                    owners(0);
                    drop(back);
                    gone(one);
                }
                Err(r) => {
                    check(!one, 2);
                    let back: Any<D> = r.move_to_any();
                    owners(0);
                    drop(back);
                    gone(one);
                }
            }
        }
        Err(()) => check(false, TYPE),
    }
}

pub mod r {
    use super::*;
    macro_rules! go { ($($n:ident),*) => { $( pub mod $n {
        pub fn root_global() { super::super::$n(super::super::GLOBAL) }
        pub fn root_local() { let l = super::super::Local::default(); super::super::$n(&l) }
    } )* } }
    go!(number, boolean, null, strings, bigints, arrays, long, objects, distinct, counted, same);
}
