use nanvm_lib::big_numbers::{big_int::BigInt, big_uint::BigUint};
use nanvm_lib::js::js_bigint as j;
use nanvm_lib::js::js_bigint::{JsBigint, JsBigintMutRef, Sign};
use nanvm_lib::mem::global::{Global, GLOBAL};
use std::cmp::Ordering;

type R = JsBigintMutRef<Global>;

pub fn root_j_add(a: &JsBigint, b: &JsBigint) -> R {
    j::add(GLOBAL, a, b)
}
pub fn root_j_sub(a: &JsBigint, b: &JsBigint) -> R {
    j::sub(GLOBAL, a, b)
}
pub fn root_j_mul(a: &JsBigint, b: &JsBigint) -> R {
    j::mul(GLOBAL, a, b)
}
pub fn root_j_and(a: &JsBigint, b: &JsBigint) -> R {
    j::and(GLOBAL, a, b)
}
pub fn root_j_or(a: &JsBigint, b: &JsBigint) -> R {
    j::or(GLOBAL, a, b)
}
pub fn root_j_xor(a: &JsBigint, b: &JsBigint) -> R {
    j::xor(GLOBAL, a, b)
}
pub fn root_j_shl(a: &JsBigint, b: &JsBigint) -> R {
    j::shl(GLOBAL, a, b)
}
pub fn root_j_shr(a: &JsBigint, b: &JsBigint) -> R {
    j::shr(GLOBAL, a, b)
}
pub fn root_j_pow(a: &JsBigint, b: &JsBigint) -> R {
    j::pow(GLOBAL, a, b)
}
pub fn root_j_neg(a: &JsBigint) -> R {
    j::negative(GLOBAL, a)
}
pub fn root_j_not(a: &JsBigint) -> R {
    j::not(GLOBAL, a)
}
pub fn root_j_divmod(a: &JsBigint, b: &JsBigint) -> (R, R) {
    j::div_mod(GLOBAL, a, b)
}
pub fn root_j_cmp(a: &JsBigint, b: &JsBigint) -> Ordering {
    a.compare(b)
}
pub fn root_j_eq(a: &JsBigint, b: &JsBigint) -> bool {
    j::equals(a, b)
}
pub fn root_j_zero(a: &JsBigint) -> bool {
    j::is_zero(a)
}
pub fn root_j_bit(a: &JsBigint) -> u64 {
    a.get_last_bit()
}
pub fn root_j_from(neg: bool, n: u64) -> R {
    j::from_u64(GLOBAL, if neg { Sign::Negative } else { Sign::Positive }, n)
}

pub fn root_u_add(a: BigUint, b: BigUint) -> BigUint {
    &a + &b
}
pub fn root_u_sub(a: BigUint, b: BigUint) -> BigUint {
    &a - &b
}
pub fn root_u_mul(a: BigUint, b: BigUint) -> BigUint {
    &a * &b
}
pub fn root_u_div(a: BigUint, b: BigUint) -> BigUint {
    &a / &b
}
pub fn root_u_divmod(a: BigUint, b: BigUint) -> (BigUint, BigUint) {
    a.div_mod(&b)
}
pub fn root_u_shl(a: BigUint, b: BigUint) -> BigUint {
    &a << &b
}
pub fn root_u_shr(a: BigUint, b: BigUint) -> BigUint {
    &a >> &b
}
pub fn root_u_pow(a: BigUint, b: BigUint) -> BigUint {
    a.pow(&b)
}
pub fn root_u_cmp(a: BigUint, b: BigUint) -> Ordering {
    a.cmp(&b)
}
pub fn root_u_pcmp(a: BigUint, b: BigUint) -> Option<Ordering> {
    a.partial_cmp(&b)
}
pub fn root_u_eq(a: BigUint, b: BigUint) -> bool {
    a == b
}
pub fn root_u_zero(a: BigUint) -> bool {
    a.is_zero()
}
pub fn root_u_bit(a: BigUint) -> u64 {
    a.get_last_bit()
}
pub fn root_u_from(n: u64) -> BigUint {
    BigUint::from_u64(n)
}

pub fn root_i_add(a: BigInt, b: BigInt) -> BigInt {
    &a + &b
}
pub fn root_i_sub(a: BigInt, b: BigInt) -> BigInt {
    a - b
}
pub fn root_i_mul(a: BigInt, b: BigInt) -> BigInt {
    &a * &b
}
pub fn root_i_div(a: BigInt, b: BigInt) -> BigInt {
    &a / &b
}
pub fn root_i_divmod(a: BigInt, b: BigInt) -> (BigInt, BigInt) {
    a.div_mod(&b)
}
pub fn root_i_neg(a: BigInt) -> BigInt {
    -a
}
pub fn root_i_abs(a: BigInt) -> BigInt {
    a.abs()
}
pub fn root_i_cmp(a: BigInt, b: BigInt) -> Ordering {
    a.cmp(&b)
}
pub fn root_i_pcmp(a: BigInt, b: BigInt) -> Option<Ordering> {
    a.partial_cmp(&b)
}
pub fn root_i_eq(a: BigInt, b: BigInt) -> bool {
    a == b
}
pub fn root_i_zero(a: BigInt) -> bool {
    a.is_zero()
}
pub fn root_i_from(n: u64) -> BigInt {
    BigInt::from_u64(n)
}
pub fn root_i_fromi(n: i64) -> BigInt {
    BigInt::from_i64(n)
}
