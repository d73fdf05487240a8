"""Compile-fail witnesses: programs the type system has to reject (with a given error) next to
twins that differ only in the offending expression and have to compile."""
import glob
import os
import re
from concurrent.futures import ThreadPoolExecutor

from .build import sh, BuildError
from .report import Result

PRE = '''#![allow(unused, clippy::all)]
use nanvm_lib::js::any::Any;
use nanvm_lib::js::any_cast::AnyCast;
use nanvm_lib::js::js_array::*;
use nanvm_lib::js::js_bigint::*;
use nanvm_lib::js::js_object::*;
use nanvm_lib::js::js_string::*;
use nanvm_lib::js::new::New;
use nanvm_lib::js::null::Null;
use nanvm_lib::mem::block::Block;
use nanvm_lib::mem::flexible_array::FlexibleArray;
use nanvm_lib::mem::flexible_array::constructor::FlexibleArrayConstructor;
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::mem::local::Local;
use nanvm_lib::mem::manager::{Dealloc, Manager};
use nanvm_lib::mem::mut_ref::MutRef;
use nanvm_lib::mem::object::Object;
use nanvm_lib::mem::optional_ref::OptionalRef;
use nanvm_lib::mem::ref_::Ref;
type Arr = FlexibleArray<u16>;
'''


def lib(W):
    """metadata of the library under test, built with the stable compiler"""
    if getattr(W, '_lib', None):
        return W._lib
    d = W.crate('roots')
    env = dict(W.env)
    env.update(CARGO_TARGET_DIR=os.path.join(W.dir, 'target_w'), CARGO_INCREMENTAL='0', RUSTFLAGS='--cap-lints=allow')
    rc, o = sh(['cargo', 'check', '--offline'], env, cwd=d)
    deps = os.path.join(W.dir, 'target_w', 'debug', 'deps')
    ms = sorted(glob.glob(deps + '/libnanvm_lib-*.rmeta'), key=os.path.getmtime)
    if rc or not ms:
        raise BuildError('the library does not compile:\n' + o[-3000:])
    W._lib = (ms[-1], deps)
    return W._lib


def compile_(W, name, src):
    rm, deps = lib(W)
    wd = os.path.join(W.dir, 'wit')
    os.makedirs(wd, exist_ok=True)
    p = os.path.join(wd, name + '.rs')
    with open(p, 'w') as f:
        f.write(PRE + src)
    rc, o = sh(['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', name, '--emit=metadata', '-o', os.path.join(wd, name + '.rmeta'),
                '--extern', 'nanvm_lib=' + rm, '-L', 'dependency=' + deps, '--cap-lints=allow', p], W.env, cwd=wd)
    return rc, o


class Wit:
    """src contains one `/*good*/ a /*bad*/ b /*end*/` (or several); the good program has to
    compile, the bad one has to be rejected with one of the codes"""

    def __init__(self, name, codes, what, src, site):
        self.name = name
        self.codes = codes
        self.what = what
        self.src = src
        self.site = site

    def variant(self, good):
        return re.sub(r'/\*good\*/(.*?)/\*bad\*/(.*?)/\*end\*/', lambda m: m.group(1 if good else 2), self.src, flags=re.S)


def check(W, prop, ws, res, missing_ok=False):
    lib(W)
    n = 0
    with ThreadPoolExecutor(8) as ex:
        jobs = [(w, ex.submit(compile_, W, '%s_%s_g' % (prop.lower(), w.name), w.variant(True)),
                 ex.submit(compile_, W, '%s_%s_b' % (prop.lower(), w.name), w.variant(False))) for w in ws]
        for w, g, b in jobs:
            rc, o = g.result()
            if rc:
                raise BuildError('the compiling twin of witness %s is rejected: the public interface it uses has changed\n%s' % (w.name, o[-1500:]))
            rc, o = b.result()
            codes = set(re.findall(r'^error\[(E\d+)\]', o, re.M))
            n += 1
            if rc == 0:
                res.add(w.name, w.site, w.what, ['this program compiles:'] + [l for l in w.variant(False).strip().split('\n')][:12])
            elif not codes & set(w.codes) and not ('private' in w.codes and 'private field' in o):
                # rejected, so the property holds for this program; the reason is only recorded
                res.coverage.setdefault('rejected_for_another_reason', []).append('%s: %s' % (w.name, o[:160]))
    return n


MEM = 'nanvm-lib/src/mem/'
JS = 'nanvm-lib/src/js/'

# ------------------------------------------------------------------ threads
_THREAD = [
    ('any_global', 'Any<Global>', JS + 'any_internal.rs'),
    ('ref_fixed', 'nanvm_lib::js::js_string::JsStringRef<Global>', MEM + 'ref_.rs'),
    ('ref_array', 'JsArrayRef<Global>', MEM + 'ref_.rs'),
    ('ref_object', 'JsObjectRef<Global>', MEM + 'ref_.rs'),
    ('ref_bigint', 'JsBigintRef<Global>', MEM + 'ref_.rs'),
    ('mut_array', 'JsArrayMutRef<Global>', MEM + 'mut_ref.rs'),
    ('mut_string', 'JsStringMutRef<Global>', MEM + 'mut_ref.rs'),
    ('vec_any', 'Vec<Any<Global>>', JS + 'any_internal.rs'),
    ('any_local', "Any<&'static Local>", JS + 'any_internal.rs'),
    ('ref_local', "Ref<Arr, &'static Local>", MEM + 'ref_.rs'),
    ('mut_local', "MutRef<Arr, &'static Local>", MEM + 'mut_ref.rs'),
    ('local_ref', "&'static Local", MEM + 'local.rs'),
]


def thread_witnesses():
    r = []
    for n, t, s in _THREAD:
        for tr in ('Send', 'Sync'):
            if n == 'local_ref' and tr == 'Sync':
                continue
            r.append(Wit('%s_%s' % (n, tr.lower()), ('E0277',), '%s is %s, so its owner count or allocator can be used by two threads at once' % (t, tr),
                         'pub fn need<T: /*good*/ Sized /*bad*/ %s /*end*/>() {}\npub fn f() { need::<%s>() }\n' % (tr, t), s))
    # generic over the allocator: also for an allocator that is itself Send + Sync
    for n, t, s in (('any_generic', 'Any<D>', JS + 'any_internal.rs'), ('ref_generic', 'Ref<Arr, D>', MEM + 'ref_.rs'), ('mut_generic', 'MutRef<Arr, D>', MEM + 'mut_ref.rs')):
        for tr in ('Send', 'Sync'):
            r.append(Wit('%s_%s' % (n, tr.lower()), ('E0277',), '%s is %s for thread-safe allocators although the owner count is shared' % (t, tr),
                         'pub fn need<T: /*good*/ Sized /*bad*/ %s /*end*/>() {}\npub fn f<D: Dealloc + Send + Sync>() { need::<%s>() }\n' % (tr, t), s))
    # spawning
    r.append(Wit('spawn', ('E0277',), 'an array can be moved to another thread',
                 'pub fn f(a: Any<Global>) { let b = a.clone(); /*good*/ (|| drop(b))(); /*bad*/ std::thread::spawn(move || drop(b)); /*end*/ drop(a); }\n', JS + 'any_internal.rs'))
    r.append(Wit('scoped', ('E0277',), 'an array can be shared with another thread',
                 'pub fn f(a: &JsArrayRef<Global>) { /*good*/ (|| drop(a.clone()))(); /*bad*/ std::thread::scope(|s| { s.spawn(|| drop(a.clone())); }); /*end*/ }\n', MEM + 'ref_.rs'))
    return r


# ------------------------------------------------------------------ borrows
def borrow_witnesses():
    W = Wit
    R = MEM + 'ref_.rs'
    MR = MEM + 'mut_ref.rs'
    A = JS + 'any.rs'
    LO = MEM + 'local.rs'
    return [
        W('items_outlive_ref', ('E0597',), 'the items of an object can be used after its last owner is gone',
          'pub fn f(m: Global) -> u16 { let mut k: Option<u16> = None; let x: &[u16]; { let r = new_string(m, [1, 2].into_iter()).to_ref(); x = r.items(); /*good*/ k = Some(x[0]); } k.unwrap() } /*bad*/ } x[0] } /*end*/', R),
        W('items_after_drop', ('E0505',), 'the items of an object can be used after an explicit drop of the owner',
          'pub fn f(r: JsStringRef<Global>) -> u16 { let x = r.items(); /*good*/ let y = x[0]; drop(r); y /*bad*/ drop(r); x[0] /*end*/ }', R),
        W('mut_items_after_drop', ('E0505',), 'the items of a unique object can be used after it is dropped',
          'pub fn f(mut r: JsStringMutRef<Global>) -> u16 { let x = r.items_mut(); x[0] = 1; /*good*/ let y = x[0]; drop(r); y /*bad*/ drop(r); x[0] /*end*/ }', MR),
        W('mut_items_after_to_ref', ('E0505',), 'mutable access survives the conversion to a shared reference',
          'pub fn f(mut r: JsStringMutRef<Global>) -> JsStringRef<Global> { let x = r.items_mut(); /*good*/ x[0] = 1; r.to_ref() /*bad*/ let s = r.to_ref(); x[0] = 1; s /*end*/ }', MR),
        W('mut_twice', ('E0499',), 'two mutable views of one object exist at a time',
          'pub fn f(mut r: JsStringMutRef<Global>) { let x = r.items_mut(); /*good*/ x[0] = 1; let y = r.items_mut(); y[0] = 2; /*bad*/ let y = r.items_mut(); x[0] = 1; y[0] = 2; /*end*/ }', MR),
        W('mut_and_shared', ('E0502',), 'a shared view of a unique object survives a mutation',
          'pub fn f(mut r: JsStringMutRef<Global>) -> u16 { let x = &r.items()[0]; /*good*/ let y = *x; r.items_mut()[0] = 1; y /*bad*/ r.items_mut()[0] = 1; *x /*end*/ }', MR),
        W('ref_items_mut', ('E0596', 'E0594'), 'a shared object can be changed through a shared reference',
          'pub fn f(/*good*/ mut r: JsStringMutRef<Global> /*bad*/ mut r: JsStringRef<Global> /*end*/) { r.items_mut()[0] = 1; }', R),
        W('ref_deref_mut', ('E0596', 'E0308'), 'a shared reference hands out mutable access',
          'pub fn f(/*good*/ mut r: JsStringMutRef<Global> /*bad*/ mut r: JsStringRef<Global> /*end*/) { let _: &mut JsString = &mut *r; }', R),
        W('mut_clone', ('E0599', 'E0277'), 'a unique reference can be cloned',
          'pub fn f(r: JsStringMutRef<Global>) { let /*good*/ r = r.to_ref(); let /*bad*/ /*end*/ s = Clone::clone(&r); drop(s); drop(r); }'.replace('Clone::clone(&r)', 'r.clone()'), MR),
        W('use_after_try_mut', ('E0382',), 'a shared reference stays usable after it was turned into a unique one',
          'pub fn f(r: JsStringRef<Global>) { /*good*/ let n = r.items().len(); let m = r.try_to_mut_ref(); /*bad*/ let m = r.try_to_mut_ref(); let n = r.items().len(); /*end*/ drop(m); }', R),
        W('use_after_to_ref', ('E0382',), 'a unique reference stays usable after it became a shared one',
          'pub fn f(mut r: JsStringMutRef<Global>) { /*good*/ r.items_mut()[0] = 1; let s = r.to_ref(); /*bad*/ let s = r.to_ref(); r.items_mut()[0] = 1; /*end*/ drop(s); }', MR),
        W('ref_copy', ('E0382', 'E0204', 'E0277'), 'references are copied without counting',
          'pub fn f(r: JsStringRef<Global>) { /*good*/ let s = r.clone(); drop(r); /*bad*/ let s = r; drop(r); /*end*/ drop(s); }', MEM + 'optional_ref.rs'),
        W('any_copy', ('E0382',), 'values are copied without counting',
          'pub fn f(r: Any<Global>) { /*good*/ let s = r.clone(); drop(r); /*bad*/ let s = r; drop(r); /*end*/ drop(s); }', MEM + 'optional_ref.rs'),
        W('any_moved', ('E0382',), 'a value stays usable after it was converted',
          'pub fn f(a: Any<Global>) { /*good*/ let t = a.get_type(); let s = a.try_move::<JsStringRef<Global>>(); /*bad*/ let s = a.try_move::<JsStringRef<Global>>(); let t = a.get_type(); /*end*/ drop(s); }', A),
        W('any_from_moved', ('E0382',), 'a reference stays usable after it became a value',
          'pub fn f(s: JsStringRef<Global>) { /*good*/ let n = s.items().len(); let a: Any<Global> = s.move_to_any(); /*bad*/ let a: Any<Global> = s.move_to_any(); let n = s.items().len(); /*end*/ drop(a); }', JS + 'any_cast.rs'),
        W('try_ref_outlives', ('E0505',), 'the object borrowed from a value outlives the value',
          'pub fn f(a: Any<Global>) { let s = a.try_ref::<JsString>(); /*good*/ let _ = s.is_ok(); drop(a); /*bad*/ drop(a); let _ = s.is_ok(); /*end*/ }', A),
        W('for_each_escape', ('E0521', 'E0700', 'lifetime', 'E0310', 'E0597'), 'a child handed to for_each escapes the iteration',
          'pub fn f(a: &Any<Global>) { let mut last: Option<Any<Global>> = None; let mut esc: Option<&Any<Global>> = None; let _ = a.for_each::<()>(|_, v| { /*good*/ last = Some(v.clone()); /*bad*/ esc = Some(v); /*end*/ Ok(()) }); drop(last); drop(esc); }', A),
        W('array_outlives_local', ('E0597',), 'an object outlives the allocator it belongs to',
          'pub fn f() { let r; /*good*/ let l = Local::default(); { /*bad*/ { let l = Local::default(); /*end*/ r = (&l).fixed_new(1); } let _ = r; }'.replace('let _ = r;', 'drop(r);'), LO),
        W('ref_outlives_local', ('E0597',), 'a shared object outlives the allocator it belongs to',
          'pub fn f() { let r; /*good*/ let l = Local::default(); { /*bad*/ { let l = Local::default(); /*end*/ r = new_string(&l, [1u16].into_iter()).to_ref(); } drop(r); }', LO),
        W('any_outlives_local', ('E0597',), 'a value outlives the allocator it belongs to',
          'pub fn f() { let r; /*good*/ let l = Local::default(); { /*bad*/ { let l = Local::default(); /*end*/ r = (&l).new_js_string([1u16].into_iter()); } drop(r); }', LO),
        W('local_moved', ('E0505',), 'an allocator can be moved while it has objects',
          'pub fn f() { let l = Local::default(); let r = (&l).fixed_new(1); /*good*/ drop(r); let l2 = l; /*bad*/ let l2 = l; drop(r); /*end*/ drop(l2); }', LO),
        W('other_allocator_from', ('E0277', 'E0308', 'E0271'), 'a value can claim another allocator than the one its object belongs to',
          'pub fn f<A: Dealloc, B: Dealloc>(s: JsStringRef<A>) -> Any</*good*/ A /*bad*/ B /*end*/> { Any::move_from(s) }', A),
        W('other_allocator_array', ('E0277', 'E0308', 'E0271'), 'an array value can claim another allocator than the one its object belongs to',
          'pub fn f<A: Dealloc, B: Dealloc>(s: JsArrayRef<A>) -> Any</*good*/ A /*bad*/ B /*end*/> { Any::move_from(s) }', A),
        W('other_allocator_move', ('E0277', 'E0308', 'E0271'), 'a value can be read back as an object of another allocator',
          'pub fn f<A: Dealloc, B: Dealloc>(a: Any<A>) -> Option<JsStringRef</*good*/ A /*bad*/ B /*end*/>> { a.try_move().ok() }', A),
        W('other_allocator_ref', ('E0277', 'E0308', 'E0271'), 'a value can be borrowed as an object with elements of another allocator',
          'pub fn f<A: Dealloc, B: Dealloc>(a: &Any<A>) -> bool { a.try_ref::<JsArray</*good*/ A /*bad*/ B /*end*/>>().is_ok() }', A),
        W('other_allocator_items', ('E0277', 'E0308', 'E0271'), 'an array can hold values of another allocator',
          'pub fn f<M: Manager, B: Dealloc>(m: M, a: Any</*good*/ M::Dealloc /*bad*/ B /*end*/>) -> JsArrayMutRef<M::Dealloc> { new_array(m, [a]) }', JS + 'js_array.rs'),
        W('other_allocator_key', ('E0277', 'E0308', 'E0271'), 'an object can hold keys of another allocator',
          'pub fn f<M: Manager, B: Dealloc>(m: M, k: JsStringRef</*good*/ M::Dealloc /*bad*/ B /*end*/>, v: Any<M::Dealloc>) -> JsObjectMutRef<M::Dealloc> { new_object(m, [(k, v)]) }', JS + 'js_object.rs'),
        W('other_local', ('E0597',), 'objects of two allocators mix although one of the allocators dies first',
          'pub fn f() { let a = Local::default(); let mut v = Vec::new(); v.push((&a).new_js_string([1u16].into_iter())); /*good*/ let b = &a; { /*bad*/ { let b = &Local::default(); /*end*/ v.push(b.new_js_string([1u16].into_iter())); } drop(v); }'
          .replace('let b = &Local::default();', 'let bb = Local::default(); let b = &bb;'), LO),
    ]


# ------------------------------------------------------------------ access to representation
def access_witnesses():
    W = Wit
    OR = MEM + 'optional_ref.rs'
    U = ('E0133',)
    return [
        W('array_header', ('E0616',), 'the length of an array is a public field',
          'pub fn f(mut r: JsStringMutRef<Global>) -> usize { /*good*/ r.items().len() /*bad*/ r.header /*end*/ }', MEM + 'flexible_array/mod.rs'),
        W('array_header_write', ('E0616',), 'the length of an array can be overwritten',
          'pub fn f(mut r: JsStringMutRef<Global>) { /*good*/ let _ = r.items_mut(); /*bad*/ r.header = 100; /*end*/ }', MEM + 'flexible_array/mod.rs'),
        W('bigint_header', ('E0616',), 'the length of a bigint can be overwritten',
          'pub fn f(mut r: JsBigintMutRef<Global>) { /*good*/ let _ = r.items_mut(); /*bad*/ let _ = &mut r.header; /*end*/ }', JS + 'js_bigint.rs'),
        W('block_header', ('E0616',), 'the owner count is a public field',
          'pub fn f(r: &Block<JsString, Global>) { /*good*/ let _ = r.object(); /*bad*/ let _ = &r.header; /*end*/ }', MEM + 'block.rs'),
        W('ref_value', ('E0616',), 'the pointer inside a reference is a public field',
          'pub fn f(r: JsStringRef<Global>) { /*good*/ let _ = r.is_ref(); /*bad*/ let _ = r.value; /*end*/ }', OR),
        W('ref_literal', ('E0451', 'E0423'), 'a reference can be made of any pointer',
          'pub fn f(r: JsStringRef<Global>, p: *const Block<JsString, Global>) -> JsStringRef<Global> { /*good*/ r /*bad*/ OptionalRef { value: p } /*end*/ }', OR),
        W('from_internal', U, 'a reference can be made of any pointer in safe code',
          'pub fn f(p: *const Block<JsString, Global>) -> JsStringRef<Global> { /*good*/ unsafe { OptionalRef::from_internal(p) } /*bad*/ OptionalRef::from_internal(p) /*end*/ }', OR),
        W('internal', U, 'the pointer inside a reference can be read in safe code',
          'pub fn f(r: &JsStringRef<Global>) { let _ = /*good*/ unsafe { r.internal() } /*bad*/ r.internal() /*end*/; }', OR),
        W('move_to_internal', U, 'the pointer inside a reference can be taken out in safe code',
          'pub fn f(r: JsStringRef<Global>) { let _ = /*good*/ unsafe { r.move_to_internal() } /*bad*/ r.move_to_internal() /*end*/; }', OR),
        W('any_from_bits', U, 'a value can be made of any bits in safe code',
          'pub fn f(u: u64) -> Any<Global> { let _ = u; /*good*/ u_to(u) } unsafe fn raw(u: u64) -> f64 { <f64 as AnyCast<Global>>::from_any_internal(u) } fn u_to(u: u64) -> Any<Global> { unsafe { raw(u) }.move_to_any() /*bad*/ '
          '<f64 as AnyCast<Global>>::from_any_internal(u).move_to_any() /*end*/ }', JS + 'any_cast.rs'),
        W('string_from_bits', U, 'a string reference can be made of any bits in safe code',
          'pub fn f(u: u64) -> JsStringRef<Global> { /*good*/ unsafe { AnyCast::<Global>::from_any_internal(u) } /*bad*/ AnyCast::<Global>::from_any_internal(u) /*end*/ }', JS + 'any_cast.rs'),
        W('to_bits', U, 'the bits of a value can be taken out, leaking its ownership, in safe code',
          'pub fn f(s: JsStringRef<Global>) -> u64 { /*good*/ unsafe { AnyCast::<Global>::move_to_any_internal(s) } /*bad*/ AnyCast::<Global>::move_to_any_internal(s) /*end*/ }', JS + 'any_cast.rs'),
        W('alloc', U, 'raw allocation is safe',
          'pub fn f(l: core::alloc::Layout) -> *mut u8 { /*good*/ unsafe { GLOBAL.alloc(l) } /*bad*/ GLOBAL.alloc(l) /*end*/ }', MEM + 'manager.rs'),
        W('dealloc', U, 'raw deallocation is safe',
          'pub fn f(p: *mut u8, l: core::alloc::Layout) { /*good*/ unsafe { Global::dealloc(p, l) } /*bad*/ Global::dealloc(p, l) /*end*/ }', MEM + 'manager.rs'),
        W('object_drop', U, 'an object can be destroyed in place in safe code',
          'pub fn f(mut r: JsArrayMutRef<Global>) { /*good*/ unsafe { r.object_drop() } /*bad*/ r.object_drop() /*end*/ }', MEM + 'object.rs'),
        W('delete', U, 'a block can be released in safe code',
          'pub fn f(b: &mut Block<JsString, Global>) { /*good*/ unsafe { b.delete() } /*bad*/ b.delete() /*end*/ }', MEM + 'block.rs'),
        W('mut_ref_new', ('E0624', 'E0133', 'E0603'), 'a unique reference can be made of any pointer in safe code',
          'pub fn f(r: JsStringMutRef<Global>, p: *mut Block<JsString, Global>) -> JsStringMutRef<Global> { /*good*/ r /*bad*/ MutRef::new(p) /*end*/ }', MEM + 'mut_ref.rs'),
        W('mut_ref_literal', ('E0423', 'E0451', 'E0603', 'E0532'), 'a unique reference can be made of any pointer',
          'pub fn f(r: JsStringMutRef<Global>, p: *mut Block<JsString, Global>) -> JsStringMutRef<Global> { /*good*/ r /*bad*/ MutRef(p) /*end*/ }', MEM + 'mut_ref.rs'),
        W('block_new', ('E0063', 'E0451', 'E0423', 'private'), 'a block can be made on the stack, without its object',
          'pub fn f(b: &Block<JsString, Global>) { /*good*/ let _ = b; /*bad*/ let _ = Block::<JsString, Global> { header: Default::default() }; /*end*/ }', MEM + 'block.rs'),
        W('array_literal', ('E0063', 'E0451', 'E0423', 'private'), 'an array can be made on the stack, without its items',
          'pub fn f(b: &JsString) { /*good*/ let _ = b; /*bad*/ let _ = FlexibleArray::<u16, usize> { header: 5usize }; /*end*/ }', MEM + 'flexible_array/mod.rs'),
        W('array_clone', ('E0599', 'E0507', 'E0277'), 'the head of an array can be copied out of its block',
          'pub fn f(b: &JsString) { /*good*/ let _ = b; /*bad*/ fn need<T: Clone>(_: &T) {} need(b); /*end*/ }', MEM + 'flexible_array/mod.rs'),
        W('array_moved', ('E0507',), 'the head of an array can be moved out of its block',
          'pub fn f(r: JsStringRef<Global>) { /*good*/ let _b = &*r; /*bad*/ let _b = *r; /*end*/ }', MEM + 'flexible_array/mod.rs'),
        W('array_default', ('E0277',), 'the head of an array can be made from nothing',
          'pub fn need</*good*/ T /*bad*/ T: Default /*end*/>() {} pub fn f() { need::<JsString>() }', MEM + 'flexible_array/mod.rs'),
        W('array_swap', ('E0277',), 'safe code can swap the heads, and with them the lengths, of two arrays: mem::swap(&mut *a, &mut *b) for arrays a, b of different lengths',
          'pub fn f(a: &mut JsStringMutRef<Global>, b: &mut JsStringMutRef<Global>) { /*good*/ core::mem::swap(a, b); /*bad*/ core::mem::swap(&mut **a, &mut **b); /*end*/ }', MEM + 'flexible_array/mod.rs'),
    ]
