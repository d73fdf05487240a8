use nanvm_lib::big_numbers::big_float::BigFloat;
use nanvm_lib::js::js_bigint::{JsBigintMutRef, Sign};
use nanvm_lib::mem::global::{Global, GLOBAL};
use nanvm_lib::tokenizer::bigfloat_to_f64;

type R = JsBigintMutRef<Global>;

fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}

fn float<const B: u32>(significand: R, neg: bool, exp: i64, rem: bool) -> BigFloat<B, Global> {
    BigFloat { manager: GLOBAL, significand, sign: sign(neg), exp, non_zero_reminder: rem }
}

pub fn root_f_dec(sig: R, neg: bool, exp: i64) -> u64 {
    bigfloat_to_f64(float::<10>(sig, neg, exp, false)).to_bits()
}
pub fn root_f_bin(sig: R, neg: bool, exp: i64, rem: bool) -> u64 {
    float::<2>(sig, neg, exp, rem).to_f64().to_bits()
}
pub fn root_f_tobin(sig: R, neg: bool, exp: i64, rem: bool, p: u8) -> (R, bool, i64, bool) {
    let b = float::<10>(sig, neg, exp, rem).to_bin(p);
    (b.significand, b.sign == Sign::Negative, b.exp, b.non_zero_reminder)
}
