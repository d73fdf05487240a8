// The environment of the analysed code.  The bodies are never used: the interpreter
// replaces calls to these functions by environment queries and observations.

pub struct Chars;

impl Iterator for Chars {
    type Item = char;
    #[inline(never)]
    fn next(&mut self) -> Option<char> {
        env_char()
    }
}

/// the next character of an arbitrary input
#[inline(never)]
pub fn env_char() -> Option<char> {
    None
}

/// an observable output
#[inline(never)]
pub fn emit<T>(t: T) {
    core::mem::forget(t)
}

/// an observable event
#[inline(never)]
pub fn mark(_n: u32) {}

/// nondeterministic choice below `n`
#[inline(never)]
pub fn choose(_n: u32) -> u32 {
    0
}

/// an element has been constructed / destroyed / looked at
#[inline(never)]
pub fn created(_id: u32) {}
#[inline(never)]
pub fn dropped(_id: u32) {}
#[inline(never)]
pub fn looked(_id: u32) {}

/// the condition has to hold; `kind` names the obligation
#[inline(never)]
pub fn check(_c: bool, _kind: u32) {}

/// no allocation may be live any more and every element has to be destroyed
#[inline(never)]
pub fn end() {}

/// memory snapshots around the creation of one more owner
#[inline(never)]
pub fn before() {}
#[inline(never)]
pub fn after() {}
/// from here on an arbitrary number k >= 1 of owners exists; true iff k == 1 (the
/// specification side of the comparison)
#[inline(never)]
pub fn havoc_owners() {}
#[inline(never)]
pub fn only_owner() -> bool {
    true
}
/// the state has to be the one with k + d owners
#[inline(never)]
pub fn owners(_d: i32) {}
/// number of live bytes allocated
#[inline(never)]
pub fn live_bytes() -> usize {
    0
}
/// may unwind
#[inline(never)]
pub fn may_panic() {}
/// fresh unknown numbers
#[inline(never)]
pub fn any_u64() -> u64 {
    0
}
#[inline(never)]
pub fn any_usize() -> usize {
    0
}
#[inline(never)]
pub fn any_f64() -> f64 {
    0.0
}
/// s has to be n * size plus at most the given overhead
#[inline(never)]
pub fn holds_exactly(_s: usize, _n: usize, _size: usize, _over: usize) {}
/// the block allocated last has to hold n elements of the given size
#[inline(never)]
pub fn fits(_n: usize, _size: usize) {}
/// ends the path
#[inline(never)]
pub fn stop() {}
/// the contents of a new array with this header
#[inline(never)]
pub fn flex_new<H, T, R>(_h: H, _v: Vec<T>) -> R {
    unreachable!()
}
