From 515945964490aadc7ed03f3d5d5cd8157791fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 01/37] fix: an exponent without digits is an invalid number

---
 nanvm-lib/src/tokenizer/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..62eb28a 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
-            }
+            TokenizerState::ParseExpSign(s) => get_next_state(manager, s, c, &maps.exp_sign, maps),
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -438,6 +437,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -461,6 +461,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -842,21 +843,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From 098e81b969ca73c14b972ca2bb2e8f0ff0e59473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 02/37] fix: keep the sign of negative zero literals

---
 nanvm-lib/src/big_numbers/big_float.rs |  5 ++++-
 nanvm-lib/src/tokenizer/mod.rs         | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..68bedde 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,10 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 62eb28a..b32dd4c 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -157,7 +157,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [JsonToken::Number(signed_zero(s))].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -257,6 +257,13 @@ impl<D: Dealloc> IntState<D> {
     }
 }
 
+const fn signed_zero(s: Sign) -> f64 {
+    match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    }
+}
+
 fn int_state_into_number_token<M: Manager>(
     manager: M,
     state: IntState<M::Dealloc>,
@@ -695,10 +702,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [JsonToken::Number(signed_zero(s))].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From f6d323e60339dc4d4e1d9bc7ce12b32f053aa874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 03/37] fix: huge exponents must not overflow or be expanded

---
 nanvm-lib/src/tokenizer/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index b32dd4c..000b89a 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -206,7 +206,11 @@ impl ParseUnicodeCharState {
     }
 }
 
-pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
+pub fn bigfloat_to_f64<M: Manager>(mut bf_10: BigFloat<10, M>) -> f64 {
+    // A value with an exponent outside of these bounds is an infinity or a zero, don't expand it.
+    // Every item of the significand adds less than 20 decimal digits.
+    let max_digits = 20 * bf_10.significand.items().len() as i64;
+    bf_10.exp = bf_10.exp.clamp(-400 - max_digits, 400);
     let bf_2 = bf_10.to_bin(54);
     bf_2.to_f64()
 }
@@ -324,7 +328,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -333,11 +340,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From d73ea7b840877513780a0b0e9156bfd68ec50000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 04/37] fix: decode surrogate pair escapes in strings

---
 nanvm-lib/src/tokenizer/mod.rs | 87 ++++++++++++++++++++++++++++++++--
 1 file changed, 84 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 000b89a..f8ebd2b 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -64,6 +64,8 @@ pub enum TokenizerState<D: Dealloc> {
     ParseString(String),
     ParseEscapeChar(String),
     ParseUnicodeChar(ParseUnicodeCharState),
+    ParseLowSurrogate(LowSurrogateState),
+    ParseLowSurrogateEscape(LowSurrogateState),
     ParseMinus,
     ParseZero(Sign),
     ParseInt(IntState<D>),
@@ -98,6 +100,12 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseUnicodeChar(s) => {
                 get_next_state(manager, s, c, &maps.unicode_char, maps)
             }
+            TokenizerState::ParseLowSurrogate(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate, maps)
+            }
+            TokenizerState::ParseLowSurrogateEscape(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate_escape, maps)
+            }
             TokenizerState::ParseZero(s) => get_next_state(manager, s, c, &maps.zero, maps),
             TokenizerState::ParseInt(s) => get_next_state(manager, s, c, &maps.int, maps),
             TokenizerState::ParseMinus => get_next_state(manager, (), c, &maps.minus, maps),
@@ -147,7 +155,9 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseId(s) => [JsonToken::Id(s)].cast(),
             TokenizerState::ParseString(_)
             | TokenizerState::ParseEscapeChar(_)
-            | TokenizerState::ParseUnicodeChar(_) => {
+            | TokenizerState::ParseUnicodeChar(_)
+            | TokenizerState::ParseLowSurrogate(_)
+            | TokenizerState::ParseLowSurrogateEscape(_) => {
                 [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast()
             }
             TokenizerState::ParseCommentStart => {
@@ -175,10 +185,17 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
 
 pub struct ParseUnicodeCharState {
     s: String,
+    high: Option<u32>,
     unicode: u32,
     index: u8,
 }
 
+/// A string with a high surrogate that waits for its low surrogate.
+pub struct LowSurrogateState {
+    s: String,
+    high: u32,
+}
+
 impl ParseUnicodeCharState {
     fn push<M: Manager>(
         mut self,
@@ -187,8 +204,23 @@ impl ParseUnicodeCharState {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
             3 => {
-                let c = char::from_u32(new_unicode);
-                match c {
+                let code_point = match (self.high, new_unicode) {
+                    (None, 0xD800..=0xDBFF) => {
+                        return (
+                            default(),
+                            TokenizerState::ParseLowSurrogate(LowSurrogateState {
+                                s: self.s,
+                                high: new_unicode,
+                            }),
+                        )
+                    }
+                    (None, c) => Some(c),
+                    (Some(high), 0xDC00..=0xDFFF) => {
+                        Some(0x10000 + (high - 0xD800) * 0x400 + (new_unicode - 0xDC00))
+                    }
+                    (Some(_), _) => None,
+                };
+                match code_point.and_then(char::from_u32) {
                     Some(c) => continue_string_state::<M>(self.s, c),
                     None => (
                         [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
@@ -444,6 +476,8 @@ pub struct TransitionMaps<M: Manager> {
     string: TransitionMap<String, M>,
     escape_char: TransitionMap<String, M>,
     unicode_char: TransitionMap<ParseUnicodeCharState, M>,
+    low_surrogate: TransitionMap<LowSurrogateState, M>,
+    low_surrogate_escape: TransitionMap<LowSurrogateState, M>,
     zero: TransitionMap<Sign, M>,
     int: TransitionMap<IntState<M::Dealloc>, M>,
     minus: TransitionMap<(), M>,
@@ -468,6 +502,8 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         string: create_string_transactions(),
         escape_char: create_escape_char_transactions(),
         unicode_char: create_unicode_char_transactions(),
+        low_surrogate: create_low_surrogate_transactions(),
+        low_surrogate_escape: create_low_surrogate_escape_transactions(),
         zero: create_zero_transactions(),
         int: create_int_transactions(),
         minus: create_minus_transactions(),
@@ -625,6 +661,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                         default(),
                         TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
                             s,
+                            high: None,
                             unicode: 0,
                             index: 0,
                         }),
@@ -669,6 +706,50 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
     }
 }
 
+fn create_low_surrogate_transactions<M: Manager + 'static>() -> TransitionMap<LowSurrogateState, M>
+{
+    TransitionMap {
+        def: |manager, state, c, maps| {
+            transfer_state(
+                manager,
+                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+                TokenizerState::ParseString(state.s),
+                c,
+                maps,
+            )
+        },
+        rm: from_one('\\', |_, state, _, _| {
+            (default(), TokenizerState::ParseLowSurrogateEscape(state))
+        }),
+    }
+}
+
+fn create_low_surrogate_escape_transactions<M: Manager + 'static>(
+) -> TransitionMap<LowSurrogateState, M> {
+    TransitionMap {
+        def: |manager, state, c, maps| {
+            transfer_state(
+                manager,
+                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+                TokenizerState::ParseEscapeChar(state.s),
+                c,
+                maps,
+            )
+        },
+        rm: from_one('u', |_, state, _, _| {
+            (
+                default(),
+                TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
+                    s: state.s,
+                    high: Some(state.high),
+                    unicode: 0,
+                    index: 0,
+                }),
+            )
+        }),
+    }
+}
+
 fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
     type Func<M> = TransitionFunc<M, Sign>;
     TransitionMap {
-- 
2.43.0


From 10277afc01affdd14453f302156e0ad464c44261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 05/37] fix: dropping the last reference to a bigint value must
 free it, not panic

---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 3aada24bef0b214ce38ed83738f067436f1fdc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 06/37] fix: a NaN with a payload must stay a number when
 stored in Any

---
 nanvm-lib/src/js/number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..6a1559b 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -9,6 +9,10 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
+        // A NaN can carry any sign and payload, and most of these bit patterns belong to `EXTENSION`.
+        if self.is_nan() {
+            return f64::NAN.to_bits();
+        }
         self.to_bits()
     }
     #[inline(always)]
-- 
2.43.0


From 6bb1f073012946a7f24e48d2d2eb1d671f0edbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 07/37] fix: report an allocation failure instead of writing
 through a null pointer

---
 nanvm-lib/src/mem/global.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 289a234..ad31212 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,5 +1,5 @@
 use core::{alloc::Layout, cell::Cell};
-use std::alloc::{alloc, dealloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
 
@@ -20,7 +20,11 @@ impl Manager for Global {
     type Dealloc = Global;
     #[inline(always)]
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        alloc(layout)
+        let p = alloc(layout);
+        if p.is_null() {
+            handle_alloc_error(layout);
+        }
+        p
     }
 }
 
-- 
2.43.0


From 4e9c8a271f5ddf0405f4e11ff2344545d987b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 08/37] fix: Any must not be Send or Sync because its reference
 counter is not atomic

---
 nanvm-lib/src/js/any_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index 44b553d..42ddda3 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -20,7 +20,9 @@ use super::{
 
 #[repr(transparent)]
 #[derive(Debug)]
-pub struct AnyInternal<D: Dealloc = Global>(pub u64, PhantomData<D>);
+// `*const D`: the value can hold a pointer to a block with a non-atomic reference counter,
+// so it must be neither `Send` nor `Sync`, even if `D` is.
+pub struct AnyInternal<D: Dealloc = Global>(pub u64, PhantomData<*const D>);
 
 impl<D: Dealloc> PartialEq for AnyInternal<D> {
     #[inline(always)]
-- 
2.43.0


From 58f8b84b7c956edf228cda405dec5d542f1ca5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 09/37] fix: safe code must not overwrite the reference counter
 of a block or the length of an array

---
 nanvm-lib/src/mem/block.rs              | 2 +-
 nanvm-lib/src/mem/flexible_array/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/block.rs b/nanvm-lib/src/mem/block.rs
index 1b683f8..20605ac 100644
--- a/nanvm-lib/src/mem/block.rs
+++ b/nanvm-lib/src/mem/block.rs
@@ -4,7 +4,7 @@ use super::{field_layout::FieldLayout, manager::Dealloc, object::Object};
 
 #[repr(transparent)]
 pub struct Block<T: Object, D: Dealloc> {
-    pub header: D::BlockHeader,
+    pub(crate) header: D::BlockHeader,
     _0: PhantomData<T>,
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..f119e2d 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -14,7 +14,7 @@ use super::{field_layout::FieldLayout, object::Object};
 #[repr(transparent)]
 #[derive(Debug)]
 pub struct FlexibleArray<I, T: FlexibleArrayHeader = usize> {
-    pub header: T,
+    pub(crate) header: T,
     _0: PhantomData<I>,
 }
 
-- 
2.43.0


From 890e8e120b06f2f84530214669fe5a7086372812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 10/37] fix: a panic inside RefMut::modify must not drop the
 value twice

---
 nanvm-lib/src/common/ref_mut.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nanvm-lib/src/common/ref_mut.rs b/nanvm-lib/src/common/ref_mut.rs
index 78699ba..4d9c8a4 100644
--- a/nanvm-lib/src/common/ref_mut.rs
+++ b/nanvm-lib/src/common/ref_mut.rs
@@ -1,3 +1,14 @@
+use core::mem::forget;
+use std::process::abort;
+
+struct AbortOnDrop();
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        abort()
+    }
+}
+
 pub trait RefMut {
     // a better name is `as_mut_ptr` but it's already used by `Slice`.
     unsafe fn to_mut_ptr(&mut self) -> *mut Self {
@@ -9,7 +20,10 @@ pub trait RefMut {
     {
         unsafe {
             let p = self.to_mut_ptr();
+            // If `f` panics, the value is already consumed, and `self` must not be dropped again.
+            let guard = AbortOnDrop();
             p.write(f(p.read()));
+            forget(guard);
         };
     }
 }
-- 
2.43.0


From bb12a4f926ecb8cadb862bef5179c2688a4798e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 11/37] fix: an array size overflow must panic instead of
 allocating a block that is too small

---
 nanvm-lib/src/mem/field_layout.rs       | 8 +++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..5d9a4cd 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -42,7 +42,13 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        let Some(size) = self.size.checked_add(a_size) else {
+            panic!("object size overflow");
+        };
+        match Layout::from_size_align(size, self.align) {
+            Ok(layout) => layout,
+            Err(_) => panic!("object size overflow"),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index f119e2d..9661887 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -40,7 +40,13 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        let Some(items_size) = len.checked_mul(size_of::<I>()) else {
+            panic!("array size overflow");
+        };
+        let Some(size) = items_size.checked_add(Self::FLEXIBLE_HEADER_LAYOUT.size) else {
+            panic!("array size overflow");
+        };
+        size
     }
 }
 
-- 
2.43.0


From 6a31be0f3ae4ba80d5a33bb267d0b43c2686e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 12/37] fix: a semicolon inside a const value must be a parse
 error, not a panic

---
 nanvm-lib/src/parser/const_state.rs | 3 ++-
 nanvm-lib/src/parser/parser.rs      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..ff44c2f 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -2,6 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     json_state::JsonState,
     root_state::{RootState, RootStatus},
+    shared::ParseError,
 };
 use crate::{mem::manager::Manager, tokenizer::JsonToken};
 
@@ -13,7 +14,7 @@ pub struct ConstState<M: Manager> {
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
         match token {
-            JsonToken::Semicolon => todo!(),
+            JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
             _ => {
                 // TODO: use import_path in place of _ below to track possible errors -
                 // or provide an explanation on why it's not necessary.
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..198f993 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -42,7 +42,7 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
     match token {
-        JsonToken::Semicolon => todo!(),
+        JsonToken::Semicolon => JsonState::Error(ParseError::UnexpectedToken),
         _ => {
             let result = any_state_parse(const_state.state, context, token);
             match result {
-- 
2.43.0


From d698bebc4aee703764deddb69712da88a034d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 13/37] fix: require without a module loader must be a parse
 error, not a panic

---
 nanvm-lib/src/parser/any_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..500d00b 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -185,7 +185,8 @@ impl<M: Manager> AnyState<M> {
                 };
                 new_state.push_value(any)
             }
-            _ => unreachable!(),
+            // the module wasn't provided.
+            _ => AnyResult::Error(ParseError::WrongRequireStatement),
         }
     }
 
-- 
2.43.0


From b7d50e37b0f9c8cfe4bad1fe9d1444da6a7beb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 14/37] fix: accept an identifier as any key of a DJS object,
 not only as the first one

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 500d00b..15a4945 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -353,6 +353,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From 501056ebbf035d821f5827b7878f6a9c436c4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 15/37] fix: accept require as any element of an array

---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 15a4945..6a49b19 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -263,7 +263,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -282,6 +282,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From 5e770208ebdd55aed0c514bcf1e43c544c0e3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 16/37] fix: resolve an import path relative to the module that
 contains it

---
 nanvm-lib/src/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 198f993..6252851 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -11,6 +11,7 @@ use crate::{
     mem::manager::Manager,
     tokenizer::{tokenize, JsonToken},
 };
+use core::mem::replace;
 use io_trait::Io;
 
 pub struct Context<'a, M: Manager, I: Io> {
@@ -103,7 +104,9 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
+                    let parent_path = replace(&mut context.path, current_path.clone());
                     let res = parse_with_tokens(context, tokens.into_iter());
+                    context.path = parent_path;
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -176,7 +179,9 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
+                        let parent_path = replace(&mut context.path, current_path.clone());
                         let res = parse_with_tokens(context, tokens.into_iter());
+                        context.path = parent_path;
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
-- 
2.43.0


From cef0c53285904e32175d2cd4bc04ba2633903e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 17/37] fix: drop . from a normalized path so that a module has
 only one path

---
 nanvm-lib/src/parser/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..19f40e3 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -5,7 +5,7 @@ pub fn normalize(path: &str) -> String {
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
-- 
2.43.0


From 6bda6f1b3b1e43b0296aa29c2eeadbae511cd5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 18/37] fix: keep an absolute path absolute when resolving an
 import

---
 nanvm-lib/src/parser/path.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 19f40e3..cfac4fc 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -1,6 +1,7 @@
 use crate::common::default::default;
 
 pub fn normalize(path: &str) -> String {
+    let root = if path.starts_with('/') { "/" } else { "" };
     let path_split: Vec<_> = path.split('/').collect();
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
@@ -12,6 +13,8 @@ pub fn normalize(path: &str) -> String {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    // there is nothing above the root directory.
+                    None if root == "/" => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,10 +25,13 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    root.to_string() + result_split.join("/").as_str()
 }
 
 pub fn concat(a: &str, b: &str) -> String {
+    if a.is_empty() {
+        return normalize(b);
+    }
     let mut concat = a.to_string();
     concat.push('/');
     concat.push_str(b);
@@ -35,6 +41,7 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        Some(("", name)) => ("/", name),
         Some(t) => t,
     }
 }
-- 
2.43.0


From 524ea1293d625509a61fa5a0e946bfac2b9b2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 19/37] fix: detect an import of the root module when its path
 is not normalized

---
 nanvm-lib/src/parser/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 6252851..b5f07bc 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -230,7 +230,10 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    context
+        .module_cache
+        .progress
+        .insert(normalize(&context.path));
     let read_result = context.io.read_to_string(context.path.as_str());
     match read_result {
         Ok(s) => {
-- 
2.43.0


From 0ea1943d3b3e042e7bbb0a09ea6e23d6191af446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 20/37] fix: accept a semicolon after a const so that the
 output of the DJS serializer can be parsed

---
 nanvm-lib/src/parser/root_state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..a220200 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,14 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                // a semicolon ends a statement the same way as a new line.
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From b57d1d2efa6798f3b5b09a2ec616b0bfb338374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 21/37] fix: write a number that is not finite as null, inf and
 NaN are not valid JSON

---
 nanvm-lib/src/serializer/to_json.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..5a51402 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -75,7 +75,9 @@ pub trait WriteJson: Write {
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
             // TODO: replace with proper JSON number serializer.
-            Visitor::Number(n) => self.write_str(n.to_string().as_str()),
+            Visitor::Number(n) if n.is_finite() => self.write_str(n.to_string().as_str()),
+            // the same as `JSON.stringify`.
+            Visitor::Number(_) => self.write_str("null"),
             Visitor::Null => self.write_str("null"),
             Visitor::Bool(b) => self.write_str(if b { "true" } else { "false" }),
             Visitor::String(s) => self.write_js_string(&s),
-- 
2.43.0


From eb8e5d937b32c339f18925988d086e8f41018db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 22/37] fix: a bigint in JSON output must be an error, not a
 panic

---
 nanvm-lib/src/serializer/to_json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index 5a51402..e1c762e 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -87,7 +87,8 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            // the same as `JSON.stringify`: JSON can't represent a bigint.
+            Visitor::Bigint(_) => Err(fmt::Error),
         }
     }
 }
-- 
2.43.0


From b33c41639ade2bf5eb4b01ad1b2e7786b8b32756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 23/37] fix: write a bigint to DJS output as a literal

---
 nanvm-lib/src/serializer/to_djs.rs | 34 +++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..a486404 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -1,5 +1,11 @@
 use crate::{
-    js::{any::Any, js_array::JsArrayRef, js_object::JsObjectRef, type_::Type},
+    js::{
+        any::Any,
+        js_array::JsArrayRef,
+        js_bigint::{JsBigint, JsBigintRef, Sign},
+        js_object::JsObjectRef,
+        type_::Type,
+    },
     mem::manager::Dealloc,
 };
 
@@ -120,6 +126,31 @@ fn write_consts<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
+/// Writes a bigint literal, for example `-42n`.
+fn write_bigint(write_json: &mut (impl WriteJson + ?Sized), value: &JsBigint) -> fmt::Result {
+    if value.sign() == Sign::Negative {
+        write_json.write_char('-')?;
+    }
+    let mut rest = value.items().to_vec();
+    let mut digits = Vec::new();
+    loop {
+        let mut digit = 0;
+        for i in rest.iter_mut().rev() {
+            let v = (digit << 64) | *i as u128;
+            *i = (v / 10) as u64;
+            digit = v % 10;
+        }
+        digits.push((b'0' + digit as u8) as char);
+        if rest.iter().all(|i| *i == 0) {
+            break;
+        }
+    }
+    for d in digits.iter().rev() {
+        write_json.write_char(*d)?;
+    }
+    write_json.write_char('n')
+}
+
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -157,6 +188,7 @@ fn write_with_const_refs<D: Dealloc>(
                 )
             }
         }
+        Type::Bigint => write_bigint(write_json, &any.try_move::<JsBigintRef<D>>().unwrap()),
         _ => write_json.write_json(any),
     }
 }
-- 
2.43.0


From a2456f785cd6a5aa118fae3c511eae0b49f277e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 24/37] fix: writing a DAG to DJS must not visit every path of
 the DAG

---
 nanvm-lib/src/serializer/to_djs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index a486404..04d3761 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -76,6 +76,10 @@ fn write_compound_const<D: Dealloc>(
     to_be_consts: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
+    if const_refs.contains_key(any) {
+        // it's already written with all its dependencies.
+        return fmt::Result::Ok(());
+    }
     any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
     if to_be_consts.remove(any).is_some() {
         let id = const_refs.len();
-- 
2.43.0


From f221f6ac7a2aab07e4849998830eafd7419d318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 25/37] fix: a missing argument must be an error, not a panic

---
 nanvm-lib/src/app/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/app/mod.rs b/nanvm-lib/src/app/mod.rs
index b574a57..ad7791c 100644
--- a/nanvm-lib/src/app/mod.rs
+++ b/nanvm-lib/src/app/mod.rs
@@ -13,9 +13,13 @@ use crate::{
 
 pub fn run(io: &impl Io) -> io::Result<()> {
     let mut a = io.args();
-    a.next().unwrap();
-    let input = a.next().unwrap();
-    let output = a.next().unwrap();
+    a.next();
+    let input = a
+        .next()
+        .ok_or_else(|| Error::other("the input file is not specified"))?;
+    let output = a
+        .next()
+        .ok_or_else(|| Error::other("the output file is not specified"))?;
 
     let mc = &mut default();
     let mut context = Context::new(GLOBAL, io, input, mc);
-- 
2.43.0


From 9e4846aa63038655a1a4994789f4dd95f2057aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 26/37] fix: report an error of the application instead of
 dropping it

---
 nanvm/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..6aa0383 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,7 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
+use std::io;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From 9a9651f3440f533982330bd4b0eab66f66419e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 27/37] fix: a const must not turn an ES or CommonJS module
 back into plain DJS

---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 6a49b19..1eac738 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -48,7 +48,7 @@ impl<M: Manager> Default for AnyState<M> {
 impl<M: Manager> AnyState<M> {
     pub fn set_djs(self) -> Self {
         AnyState {
-            data_type: DataType::Djs,
+            data_type: self.data_type.to_djs(),
             ..self
         }
     }
-- 
2.43.0


From 56f3f265588fed7c06fe98b10df7b45aba632692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 28/37] fix: never overestimate a quotient digit in a division
 of big integers

---
 nanvm-lib/src/big_numbers/big_uint.rs | 32 ++++++++++-----------------
 nanvm-lib/src/js/js_bigint.rs         | 31 ++++++++++----------------
 2 files changed, 24 insertions(+), 39 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..9fb0f04 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -116,30 +116,22 @@ impl BigUint {
                     }
                     let a_high_digit = a.len() - 1;
                     let b_high_digit = b.len() - 1;
-                    let a_high = a.value[a_high_digit];
-                    let b_high = b.value[b_high_digit];
-                    let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                        Ordering::Less | Ordering::Equal => {
-                            (a_high_digit - b_high_digit, a_high / b_high)
-                        }
-                        Ordering::Greater => {
-                            let a_high_2 =
-                                ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
-                            (
-                                a_high_digit - b_high_digit - 1,
-                                (a_high_2 / b_high as u128) as u64,
-                            )
-                        }
+                    let a_high = a.value[a_high_digit] as u128;
+                    // the lower digits of `b` are rounded up: `b * q` never exceeds `a`
+                    let b_high = b.value[b_high_digit] as u128 + (b_high_digit > 0) as u128;
+                    let (q_index, q_digit) = if b_high <= a_high {
+                        (a_high_digit - b_high_digit, a_high / b_high)
+                    } else if a_high_digit == b_high_digit {
+                        (0, 1)
+                    } else {
+                        let a_high_2 = (a_high << 64) + a.value[a_high_digit - 1] as u128;
+                        (a_high_digit - b_high_digit - 1, a_high_2 / b_high)
                     };
                     let mut q = BigUint {
                         value: new_resize(q_index + 1),
                     };
-                    q.value[q_index] = q_digit;
-                    let mut m = b * &q;
-                    if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
-                        m = b * &q;
-                    }
+                    q.value[q_index] = q_digit as u64;
+                    let m = b * &q;
                     a = &a - &m;
                     result = &result + &q;
                 }
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..ef81e0a 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -232,27 +232,20 @@ pub fn div_mod<M: Manager>(
                 }
                 let a_high_digit = a.len() - 1;
                 let b_high_digit = b.len() - 1;
-                let a_high = a[a_high_digit];
-                let b_high = b[b_high_digit];
-                let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
-                        let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
-                        (
-                            a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
-                        )
-                    }
+                let a_high = a[a_high_digit] as u128;
+                // the lower digits of `b` are rounded up: `b * q` never exceeds `a`
+                let b_high = b[b_high_digit] as u128 + (b_high_digit > 0) as u128;
+                let (q_index, q_digit) = if b_high <= a_high {
+                    (a_high_digit - b_high_digit, a_high / b_high)
+                } else if a_high_digit == b_high_digit {
+                    (0, 1)
+                } else {
+                    let a_high_2 = (a_high << 64) + a[a_high_digit - 1] as u128;
+                    (a_high_digit - b_high_digit - 1, a_high_2 / b_high)
                 };
                 let mut q = new_resize(q_index + 1);
-                q[q_index] = q_digit;
-                let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
-                    m = mul_vec(b, &q);
-                }
+                q[q_index] = q_digit as u64;
+                let m = mul_vec(b, &q);
                 a = sub_vec(&a, &m);
                 a = normalize_vec(a);
                 result = add_vec(&result, &q);
-- 
2.43.0


From 9cffb01fe2fbae96b3bd0ac703add7e054e9b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 29/37] fix: round numbers above half of the smallest double up

---
 nanvm-lib/src/big_numbers/big_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 68bedde..e37fdae 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -213,7 +213,7 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From b62c05a39443e57159df6b9af2b219a798ac2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 30/37] fix: order negative big integers by their values

---
 nanvm-lib/src/big_numbers/big_int.rs | 5 ++++-
 nanvm-lib/src/js/js_bigint.rs        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..f78b4be 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -164,7 +164,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index ef81e0a..235a542 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From fb7333bb3418baebb72559fd3e60a306e7a0498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:07 +0000
Subject: [PATCH 31/37] fix: keep every bit that crosses a digit in a right
 shift

---
 nanvm-lib/src/big_numbers/big_uint.rs | 6 +++++-
 nanvm-lib/src/js/js_bigint.rs         | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 9fb0f04..cf431d5 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -315,6 +315,10 @@ impl Shr for &BigUint {
             return self.clone();
         }
 
+        if rhs.len() != 1 {
+            return BigUint::ZERO;
+        }
+
         let number_to_remove = (rhs.value[0] / 64) as usize;
         if number_to_remove >= self.len() {
             return BigUint::ZERO;
@@ -325,7 +329,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 235a542..bab0e54 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -579,7 +579,7 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
+        let mask = (1 << shift_mod) - 1;
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
-- 
2.43.0


From 6f18b4aa1231ee1e203ed250a76082fe42469c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 32/37] fix: round a shifted negative bigint down

---
 nanvm-lib/src/js/js_bigint.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index bab0e54..54f34b7 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -575,8 +575,10 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     let mut vec = lhs.items().to_vec();
-    vec = vec.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
+    let low_bits = vec[number_to_remove] & ((1 << shift_mod) - 1);
+    let inexact = low_bits != 0 || vec[..number_to_remove].iter().any(|d| *d != 0);
+    vec = vec.split_off(number_to_remove);
     if shift_mod > 0 {
         let len = vec.len();
         let mask = (1 << shift_mod) - 1;
@@ -592,8 +594,8 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    if inexact && lhs.sign() == Sign::Negative {
+        vec = add_vec(&vec, &[1]);
     }
     new_bigint(m, lhs.sign(), vec)
 }
-- 
2.43.0


From ab47a39e74795795a8121d394d204e9515227120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 33/37] fix: convert zero and i64::MIN to big integers

---
 nanvm-lib/src/big_numbers/big_int.rs  | 8 ++------
 nanvm-lib/src/big_numbers/big_uint.rs | 3 +++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index f78b4be..8c4138a 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
@@ -49,7 +47,7 @@ impl BigInt {
     pub fn from_u64(n: u64) -> Self {
         BigInt {
             sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
+            value: BigUint::from_u64(n),
         }
     }
 
@@ -71,9 +69,7 @@ impl BigInt {
         };
         BigInt {
             sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
+            value: BigUint::from_u64(n.unsigned_abs()),
         }
     }
 
diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index cf431d5..dbe65a0 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,6 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
+        if n == 0 {
+            return BigUint::ZERO;
+        }
         BigUint { value: [n].cast() }
     }
 
-- 
2.43.0


From 85f8f0afb4e68550614a3ff7783e0b881c32fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:14 +0000
Subject: [PATCH 34/37] fix: keep leading zero digits of two's complements in
 bitwise operations

---
 nanvm-lib/src/js/js_bigint.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 54f34b7..4e156a2 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -396,17 +396,13 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
             let mut res: Vec<u64> = default();
-            for d in sub {
+            for d in value.vec {
                 res.push(!d);
             }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
+            res = add_vec(&normalize_vec(res), &[1]);
             new_bigint(m, Sign::Negative, res)
         }
     }
@@ -421,7 +417,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -434,7 +429,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -447,7 +441,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From c0754baeca4372b53d9a131fed288775ceb120d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 35/37] fix: an odd power of -1n is -1n

---
 nanvm-lib/src/js/js_bigint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 4e156a2..5ab4f0d 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -263,7 +263,9 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let odd = rhs.get_last_bit() == 1;
+        let sign = if odd { lhs.sign() } else { Sign::Positive };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
-- 
2.43.0


From 331e6e72bb6eba313ae4da194f6ea460216fc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 36/37] fix: signs of quotients and remainders of BigInt

---
 nanvm-lib/src/big_numbers/big_int.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 8c4138a..03933c5 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -84,7 +84,14 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        let mut q = BigInt { sign, value: q };
+        let mut r = BigInt {
+            sign: self.sign,
+            value: r,
+        };
+        q.normalize();
+        r.normalize();
+        (q, r)
     }
 }
 
@@ -199,7 +206,9 @@ impl Div for &BigInt {
         };
 
         let value = &self.value / &d.value;
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 }
 
-- 
2.43.0


From e1c1926cbea6544450e6207f4a97e2e9f429e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 37/37] fix: range maps of ranges that start at U+0000 or
 U+E000

The character before the start of the range was computed by subtracting
one: this overflowed (panicked) for U+0000 and hit a surrogate for U+E000,
so that from_one mapped every smaller character too and from_range lost
the first character of the range.
---
 nanvm-lib/src/range_map.rs | 45 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..707e595 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -162,45 +162,38 @@ where
     res
 }
 
-pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
-    RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
-                key: *range.end(),
-                value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
+/// The character before `c`, if any. There are no characters between U+D7FF and U+E000.
+fn previous(c: char) -> Option<char> {
+    match c {
+        '\u{E000}' => Some('\u{D7FF}'),
+        _ => char::from_u32((c as u32).checked_sub(1)?),
     }
 }
 
-pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
+pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
+    let last = Entry {
+        key: *range.end(),
+        value: State { value: Some(value) },
+    };
     RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
-            Some(p) => [
+        list: match previous(*range.start()) {
+            Some(key) => [
                 Entry {
-                    key: p,
+                    key,
                     value: State { value: None },
                 },
-                Entry {
-                    key: c,
-                    value: State { value: Some(value) },
-                },
+                last,
             ]
             .cast(),
-            None => [Entry {
-                key: c,
-                value: State { value: Some(value) },
-            }]
-            .cast(),
+            None => [last].cast(),
         },
     }
 }
 
+pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
+    from_range(c..=c, value)
+}
+
 #[cfg(test)]
 mod test {
 
-- 
2.43.0

