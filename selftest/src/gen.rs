use super::*;
use std::collections::*;
use std::fmt::Write;
pub fn root_opt_0() { 
 assert!(opt(1).map(|x| x + 1) == Some(2)); }
#[cfg(test)] #[test] fn t_root_opt_0() { root_opt_0() }
pub fn root_opt_1() { 
 assert!(opt(-1).map_or(5, |x| x + 1) == 5); }
#[cfg(test)] #[test] fn t_root_opt_1() { root_opt_1() }
pub fn root_opt_2() { 
 assert!(opt(1).map_or_else(|| 7, |x| x) == 1); }
#[cfg(test)] #[test] fn t_root_opt_2() { root_opt_2() }
pub fn root_opt_3() { 
 assert!(opt(1).and_then(|x| opt(x - 1)).is_none()); }
#[cfg(test)] #[test] fn t_root_opt_3() { root_opt_3() }
pub fn root_opt_4() { 
 assert!(opt(1).filter(|x| *x > 3).is_none()); }
#[cfg(test)] #[test] fn t_root_opt_4() { root_opt_4() }
pub fn root_opt_5() { 
 assert!(opt(1).or(Some(3)) == Some(1)); }
#[cfg(test)] #[test] fn t_root_opt_5() { root_opt_5() }
pub fn root_opt_6() { 
 assert!(opt(0).or_else(|| Some(3)) == Some(3)); }
#[cfg(test)] #[test] fn t_root_opt_6() { root_opt_6() }
pub fn root_opt_7() { 
 assert!(opt(0).unwrap_or(4) == 4); }
#[cfg(test)] #[test] fn t_root_opt_7() { root_opt_7() }
pub fn root_opt_8() { 
 assert!(opt(0).unwrap_or_default() == 0); }
#[cfg(test)] #[test] fn t_root_opt_8() { root_opt_8() }
pub fn root_opt_9() { 
 assert!(opt(0).unwrap_or_else(|| 9) == 9); }
#[cfg(test)] #[test] fn t_root_opt_9() { root_opt_9() }
pub fn root_opt_10() { 
 assert!(opt(2).ok_or("e") == Ok(2)); }
#[cfg(test)] #[test] fn t_root_opt_10() { root_opt_10() }
pub fn root_opt_11() { 
 assert!(opt(0).ok_or_else(|| "e") == Err("e")); }
#[cfg(test)] #[test] fn t_root_opt_11() { root_opt_11() }
pub fn root_opt_12() { 
 assert!(opt(2).is_some_and(|x| x == 2)); }
#[cfg(test)] #[test] fn t_root_opt_12() { root_opt_12() }
pub fn root_opt_13() { 
 assert!(opt(0).is_none_or(|x| x == 2)); }
#[cfg(test)] #[test] fn t_root_opt_13() { root_opt_13() }
pub fn root_opt_14() { 
 assert!(opt(2).xor(None) == Some(2)); }
#[cfg(test)] #[test] fn t_root_opt_14() { root_opt_14() }
pub fn root_opt_15() { 
 assert!(opt(2).zip(opt(3)) == Some((2, 3))); }
#[cfg(test)] #[test] fn t_root_opt_15() { root_opt_15() }
pub fn root_opt_16() { let mut o = opt(2); }
#[cfg(test)] #[test] fn t_root_opt_16() { root_opt_16() }
pub fn root_opt_17() { let mut o = opt(2);
 assert!(o.take() == Some(2)); }
#[cfg(test)] #[test] fn t_root_opt_17() { root_opt_17() }
pub fn root_opt_23() { let mut o = opt(2);
 assert!(*o.insert(1) == 1); }
#[cfg(test)] #[test] fn t_root_opt_23() { root_opt_23() }
pub fn root_opt_24() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } }
#[cfg(test)] #[test] fn t_root_opt_24() { root_opt_24() }
pub fn root_opt_26() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; }
 assert!(o.iter().count() == 1); }
#[cfg(test)] #[test] fn t_root_opt_26() { root_opt_26() }
pub fn root_opt_27() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; }
 assert!(Some(Some(1)).flatten() == Some(1)); }
#[cfg(test)] #[test] fn t_root_opt_27() { root_opt_27() }
pub fn root_opt_28() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; }
 assert!(Some(&1).cloned() == Some(1)); }
#[cfg(test)] #[test] fn t_root_opt_28() { root_opt_28() }
pub fn root_opt_29() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string()); }
#[cfg(test)] #[test] fn t_root_opt_29() { root_opt_29() }
pub fn root_opt_30() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string());
 assert!(s.as_deref() == Some("ab")); }
#[cfg(test)] #[test] fn t_root_opt_30() { root_opt_30() }
pub fn root_opt_31() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string());
 assert!(s.clone().unwrap() == "ab"); }
#[cfg(test)] #[test] fn t_root_opt_31() { root_opt_31() }
pub fn root_opt_32() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string());
 assert!(s.expect("x").len() == 2); }
#[cfg(test)] #[test] fn t_root_opt_32() { root_opt_32() }
pub fn root_opt_33() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string()); let t: Result<Option<i32>, String> = Some(res(1)).transpose(); }
#[cfg(test)] #[test] fn t_root_opt_33() { root_opt_33() }
pub fn root_opt_34() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string()); let t: Result<Option<i32>, String> = Some(res(1)).transpose();
 assert!(t == Ok(Some(1))); }
#[cfg(test)] #[test] fn t_root_opt_34() { root_opt_34() }
pub fn root_opt_36() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string()); let t: Result<Option<i32>, String> = Some(res(1)).transpose();
 assert!(Some(1) < Some(2)); }
#[cfg(test)] #[test] fn t_root_opt_36() { root_opt_36() }
pub fn root_opt_37() { let mut o = opt(2); if let Some(x) = o.as_mut() { *x += 1; } let s = Some("ab".to_string()); let t: Result<Option<i32>, String> = Some(res(1)).transpose();
 assert!(None < Some(1)); }
#[cfg(test)] #[test] fn t_root_opt_37() { root_opt_37() }
pub fn root_res_0() { 
 assert!(res(1).map(|x| x + 1) == Ok(2)); }
#[cfg(test)] #[test] fn t_root_res_0() { root_res_0() }
pub fn root_res_1() { 
 assert!(res(0).map_err(|x| x.len()) == Err(3)); }
#[cfg(test)] #[test] fn t_root_res_1() { root_res_1() }
pub fn root_res_2() { 
 assert!(res(1).and_then(|x| res(x - 1)).is_err()); }
#[cfg(test)] #[test] fn t_root_res_2() { root_res_2() }
pub fn root_res_3() { 
 assert!(res(1).ok() == Some(1)); }
#[cfg(test)] #[test] fn t_root_res_3() { root_res_3() }
pub fn root_res_4() { 
 assert!(res(0).err() == Some("neg".to_string())); }
#[cfg(test)] #[test] fn t_root_res_4() { root_res_4() }
pub fn root_res_5() { 
 assert!(res(0).unwrap_or(3) == 3); }
#[cfg(test)] #[test] fn t_root_res_5() { root_res_5() }
pub fn root_res_6() { 
 assert!(res(0).unwrap_or_else(|e| e.len() as i32) == 3); }
#[cfg(test)] #[test] fn t_root_res_6() { root_res_6() }
pub fn root_res_7() { 
 assert!(res(0).unwrap_or_default() == 0); }
#[cfg(test)] #[test] fn t_root_res_7() { root_res_7() }
pub fn root_res_8() { 
 assert!(res(0).or_else(|_| res(1)) == Ok(1)); }
#[cfg(test)] #[test] fn t_root_res_8() { root_res_8() }
pub fn root_res_9() { 
 assert!(res(1).is_ok_and(|x| x == 1)); }
#[cfg(test)] #[test] fn t_root_res_9() { root_res_9() }
pub fn root_res_10() { 
 assert!(res(0).is_err_and(|x| x == "neg")); }
#[cfg(test)] #[test] fn t_root_res_10() { root_res_10() }
pub fn root_res_11() { 
 assert!(res(1).iter().count() == 1); }
#[cfg(test)] #[test] fn t_root_res_11() { root_res_11() }
pub fn root_res_12() { 
 assert!(res(1).map_or(3, |x| x) == 1); }
#[cfg(test)] #[test] fn t_root_res_12() { root_res_12() }
pub fn root_res_13() { 
 assert!(res(0).map_or_else(|e| e.len() as i32, |x| x) == 3); }
#[cfg(test)] #[test] fn t_root_res_13() { root_res_13() }
pub fn root_res_14() { 
 assert!(res(1).and(res(2)) == Ok(2)); }
#[cfg(test)] #[test] fn t_root_res_14() { root_res_14() }
pub fn root_res_15() { 
 assert!(res(1).as_ref().unwrap() == &1); }
#[cfg(test)] #[test] fn t_root_res_15() { root_res_15() }
pub fn root_res_16() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); }
#[cfg(test)] #[test] fn t_root_res_16() { root_res_16() }
pub fn root_res_17() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose();
 assert!(r == Some(Ok(1))); }
#[cfg(test)] #[test] fn t_root_res_17() { root_res_17() }
pub fn root_res_18() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } }
#[cfg(test)] #[test] fn t_root_res_18() { root_res_18() }
pub fn root_res_19() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) }
 assert!(q() == Ok(3)); }
#[cfg(test)] #[test] fn t_root_res_19() { root_res_19() }
pub fn root_res_20() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } }
#[cfg(test)] #[test] fn t_root_res_20() { root_res_20() }
pub fn root_res_21() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) }
 assert!(w().is_none()); }
#[cfg(test)] #[test] fn t_root_res_21() { root_res_21() }
pub fn root_res_22() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect(); }
#[cfg(test)] #[test] fn t_root_res_22() { root_res_22() }
pub fn root_res_23() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect();
 assert!(v == Err("neg".to_string())); }
#[cfg(test)] #[test] fn t_root_res_23() { root_res_23() }
pub fn root_res_24() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect(); let v: Result<Vec<i32>, String> = vec![res(1), res(2)].into_iter().collect(); }
#[cfg(test)] #[test] fn t_root_res_24() { root_res_24() }
pub fn root_res_25() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect(); let v: Result<Vec<i32>, String> = vec![res(1), res(2)].into_iter().collect();
 assert!(v == Ok(vec![1, 2])); }
#[cfg(test)] #[test] fn t_root_res_25() { root_res_25() }
pub fn root_res_26() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect(); let v: Result<Vec<i32>, String> = vec![res(1), res(2)].into_iter().collect(); let v: Option<Vec<i32>> = [1, 2].iter().map(|x| opt(*x)).collect(); }
#[cfg(test)] #[test] fn t_root_res_26() { root_res_26() }
pub fn root_res_27() { let r: Option<Result<i32, String>> = Ok(Some(1)).transpose(); fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) } fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) } let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect(); let v: Result<Vec<i32>, String> = vec![res(1), res(2)].into_iter().collect(); let v: Option<Vec<i32>> = [1, 2].iter().map(|x| opt(*x)).collect();
 assert!(v == Some(vec![1, 2])); }
#[cfg(test)] #[test] fn t_root_res_27() { root_res_27() }
pub fn root_vec1_0() { let mut v = vec![1u32, 2, 3]; }
#[cfg(test)] #[test] fn t_root_vec1_0() { root_vec1_0() }
pub fn root_vec1_1() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); }
#[cfg(test)] #[test] fn t_root_vec1_1() { root_vec1_1() }
pub fn root_vec1_2() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); }
#[cfg(test)] #[test] fn t_root_vec1_2() { root_vec1_2() }
pub fn root_vec1_3() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); }
#[cfg(test)] #[test] fn t_root_vec1_3() { root_vec1_3() }
pub fn root_vec1_4() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.len() == 7); }
#[cfg(test)] #[test] fn t_root_vec1_4() { root_vec1_4() }
pub fn root_vec1_5() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v == [1, 2, 3, 4, 5, 6, 7]); }
#[cfg(test)] #[test] fn t_root_vec1_5() { root_vec1_5() }
pub fn root_vec1_6() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().sum::<u32>() == 28); }
#[cfg(test)] #[test] fn t_root_vec1_6() { root_vec1_6() }
pub fn root_vec1_7() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().map(|x| x * 2).max() == Some(14)); }
#[cfg(test)] #[test] fn t_root_vec1_7() { root_vec1_7() }
pub fn root_vec1_8() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().min_by_key(|x| 10 - **x) == Some(&7)); }
#[cfg(test)] #[test] fn t_root_vec1_8() { root_vec1_8() }
pub fn root_vec1_9() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().copied().filter(|x| x % 2 == 0).collect::<Vec<_>>() == vec![2, 4, 6]); }
#[cfg(test)] #[test] fn t_root_vec1_9() { root_vec1_9() }
pub fn root_vec1_10() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().rev().take(2).cloned().collect::<Vec<_>>() == [7, 6]); }
#[cfg(test)] #[test] fn t_root_vec1_10() { root_vec1_10() }
pub fn root_vec1_11() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().skip(5).count() == 2); }
#[cfg(test)] #[test] fn t_root_vec1_11() { root_vec1_11() }
pub fn root_vec1_12() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().enumerate().map(|(i, x)| i as u32 * x).fold(0, |a, b| a + b) == 2 + 6 + 12 + 20 + 30 + 42); }
#[cfg(test)] #[test] fn t_root_vec1_12() { root_vec1_12() }
pub fn root_vec1_13() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().zip(v.iter().skip(1)).all(|(a, b)| a + 1 == *b)); }
#[cfg(test)] #[test] fn t_root_vec1_13() { root_vec1_13() }
pub fn root_vec1_14() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().any(|x| *x == 3)); }
#[cfg(test)] #[test] fn t_root_vec1_14() { root_vec1_14() }
pub fn root_vec1_15() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.contains(&3)); }
#[cfg(test)] #[test] fn t_root_vec1_15() { root_vec1_15() }
pub fn root_vec1_16() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().position(|x| *x == 3) == Some(2)); }
#[cfg(test)] #[test] fn t_root_vec1_16() { root_vec1_16() }
pub fn root_vec1_17() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().rposition(|x| *x == 3) == Some(2)); }
#[cfg(test)] #[test] fn t_root_vec1_17() { root_vec1_17() }
pub fn root_vec1_18() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().take_while(|x| **x < 3).count() == 2); }
#[cfg(test)] #[test] fn t_root_vec1_18() { root_vec1_18() }
pub fn root_vec1_19() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().skip_while(|x| **x < 3).next() == Some(&3)); }
#[cfg(test)] #[test] fn t_root_vec1_19() { root_vec1_19() }
pub fn root_vec1_20() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().chain([9].iter()).last() == Some(&9)); }
#[cfg(test)] #[test] fn t_root_vec1_20() { root_vec1_20() }
pub fn root_vec1_21() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().step_by(3).copied().collect::<Vec<_>>() == [1, 4, 7]); }
#[cfg(test)] #[test] fn t_root_vec1_21() { root_vec1_21() }
pub fn root_vec1_22() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().flat_map(|x| vec![*x; (*x % 3) as usize]).count() == 1 + 2 + 0 + 1 + 2 + 0 + 1); }
#[cfg(test)] #[test] fn t_root_vec1_22() { root_vec1_22() }
pub fn root_vec1_23() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().filter_map(|x| if *x > 5 { Some(x + 1) } else { None }).product::<u32>() == 56); }
#[cfg(test)] #[test] fn t_root_vec1_23() { root_vec1_23() }
pub fn root_vec1_24() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().scan(0, |a, x| { *a += x; Some(*a) }).last() == Some(28)); }
#[cfg(test)] #[test] fn t_root_vec1_24() { root_vec1_24() }
pub fn root_vec1_25() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().try_fold(0u32, |a, x| a.checked_add(*x)) == Some(28)); }
#[cfg(test)] #[test] fn t_root_vec1_25() { root_vec1_25() }
pub fn root_vec1_26() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().nth(2) == Some(&3)); }
#[cfg(test)] #[test] fn t_root_vec1_26() { root_vec1_26() }
pub fn root_vec1_27() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.get(9).is_none()); }
#[cfg(test)] #[test] fn t_root_vec1_27() { root_vec1_27() }
pub fn root_vec1_28() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.first() == Some(&1)); }
#[cfg(test)] #[test] fn t_root_vec1_28() { root_vec1_28() }
pub fn root_vec1_29() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.last() == Some(&7)); }
#[cfg(test)] #[test] fn t_root_vec1_29() { root_vec1_29() }
pub fn root_vec1_30() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().partition::<Vec<u32>, _>(|x| **x > 3).0.len() == 4); }
#[cfg(test)] #[test] fn t_root_vec1_30() { root_vec1_30() }
pub fn root_vec1_31() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().cmp([1, 2].iter()) == std::cmp::Ordering::Greater); }
#[cfg(test)] #[test] fn t_root_vec1_31() { root_vec1_31() }
pub fn root_vec1_32() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]);
 assert!(v.iter().eq(v.clone().iter())); }
#[cfg(test)] #[test] fn t_root_vec1_32() { root_vec1_32() }
pub fn root_vec1_33() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); }
#[cfg(test)] #[test] fn t_root_vec1_33() { root_vec1_33() }
pub fn root_vec1_34() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip();
 assert!(a.len() == b.len()); }
#[cfg(test)] #[test] fn t_root_vec1_34() { root_vec1_34() }
pub fn root_vec1_35() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip();
 assert!(b[0] == 2); }
#[cfg(test)] #[test] fn t_root_vec1_35() { root_vec1_35() }
pub fn root_vec1_36() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); }
#[cfg(test)] #[test] fn t_root_vec1_36() { root_vec1_36() }
pub fn root_vec1_37() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } }
#[cfg(test)] #[test] fn t_root_vec1_37() { root_vec1_37() }
pub fn root_vec1_38() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable(); }
#[cfg(test)] #[test] fn t_root_vec1_38() { root_vec1_38() }
pub fn root_vec1_39() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable();
 assert!(it.next_if(|x| **x == 1).is_some()); }
#[cfg(test)] #[test] fn t_root_vec1_39() { root_vec1_39() }
pub fn root_vec1_40() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable();
 assert!(it.next_if_eq(&&3).is_none()); }
#[cfg(test)] #[test] fn t_root_vec1_40() { root_vec1_40() }
pub fn root_vec1_41() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable();
 assert!(v.iter().inspect(|_| ()).size_hint().0 <= 7); }
#[cfg(test)] #[test] fn t_root_vec1_41() { root_vec1_41() }
pub fn root_vec1_42() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable();
 assert!(v.iter().reduce(|a, b| if a > b { a } else { b }) == Some(&7)); }
#[cfg(test)] #[test] fn t_root_vec1_42() { root_vec1_42() }
pub fn root_vec1_43() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable();
 assert!(v.iter().max_by(|a, b| a.cmp(b)) == Some(&7)); }
#[cfg(test)] #[test] fn t_root_vec1_43() { root_vec1_43() }
pub fn root_vec1_44() { let mut v = vec![1u32, 2, 3]; v.extend([4, 5]); v.extend_from_slice(&[6]); v.extend(&[7]); let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip(); let mut it = v.iter().peekable(); while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } } let mut it = v.iter().peekable();
 assert!(v.iter().find_map(|x| if *x == 2 { Some("x") } else { None }) == Some("x")); }
#[cfg(test)] #[test] fn t_root_vec1_44() { root_vec1_44() }
pub fn root_vec2_0() { let mut v = vec![3u32, 1, 2]; }
#[cfg(test)] #[test] fn t_root_vec2_0() { root_vec2_0() }
pub fn root_vec2_1() { let mut v = vec![3u32, 1, 2]; v.sort(); }
#[cfg(test)] #[test] fn t_root_vec2_1() { root_vec2_1() }
pub fn root_vec2_2() { let mut v = vec![3u32, 1, 2]; v.sort();
 assert!(v == [1, 2, 3]); }
#[cfg(test)] #[test] fn t_root_vec2_2() { root_vec2_2() }
pub fn root_vec2_3() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); }
#[cfg(test)] #[test] fn t_root_vec2_3() { root_vec2_3() }
pub fn root_vec2_4() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a));
 assert!(v == [3, 2, 1]); }
#[cfg(test)] #[test] fn t_root_vec2_4() { root_vec2_4() }
pub fn root_vec2_5() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); }
#[cfg(test)] #[test] fn t_root_vec2_5() { root_vec2_5() }
pub fn root_vec2_6() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); }
#[cfg(test)] #[test] fn t_root_vec2_6() { root_vec2_6() }
pub fn root_vec2_7() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); }
#[cfg(test)] #[test] fn t_root_vec2_7() { root_vec2_7() }
pub fn root_vec2_8() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); }
#[cfg(test)] #[test] fn t_root_vec2_8() { root_vec2_8() }
pub fn root_vec2_9() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2);
 assert!(v == [3, 1]); }
#[cfg(test)] #[test] fn t_root_vec2_9() { root_vec2_9() }
pub fn root_vec2_10() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); }
#[cfg(test)] #[test] fn t_root_vec2_10() { root_vec2_10() }
pub fn root_vec2_11() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7);
 assert!(v.remove(0) == 3); }
#[cfg(test)] #[test] fn t_root_vec2_11() { root_vec2_11() }
pub fn root_vec2_14() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); }
#[cfg(test)] #[test] fn t_root_vec2_14() { root_vec2_14() }
pub fn root_vec2_17() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); }
#[cfg(test)] #[test] fn t_root_vec2_17() { root_vec2_17() }
pub fn root_vec2_18() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); }
#[cfg(test)] #[test] fn t_root_vec2_18() { root_vec2_18() }
pub fn root_vec2_20() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); }
#[cfg(test)] #[test] fn t_root_vec2_20() { root_vec2_20() }
pub fn root_vec2_21() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); }
#[cfg(test)] #[test] fn t_root_vec2_21() { root_vec2_21() }
pub fn root_vec2_24() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1);
 assert!(v[..1].len() == 1); }
#[cfg(test)] #[test] fn t_root_vec2_24() { root_vec2_24() }
pub fn root_vec2_25() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); }
#[cfg(test)] #[test] fn t_root_vec2_25() { root_vec2_25() }
pub fn root_vec2_29() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!(vec![1, 2, 3, 4].chunks(2).map(|c| c.len()).sum::<usize>() == 4); }
#[cfg(test)] #[test] fn t_root_vec2_29() { root_vec2_29() }
pub fn root_vec2_30() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!(vec![1, 2, 3, 4].windows(2).count() == 3); }
#[cfg(test)] #[test] fn t_root_vec2_30() { root_vec2_30() }
pub fn root_vec2_31() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2, 3].binary_search(&2) == Ok(1)); }
#[cfg(test)] #[test] fn t_root_vec2_31() { root_vec2_31() }
pub fn root_vec2_32() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2, 4].binary_search(&3) == Err(2)); }
#[cfg(test)] #[test] fn t_root_vec2_32() { root_vec2_32() }
pub fn root_vec2_33() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2, 3].partition_point(|x| *x < 3) == 2); }
#[cfg(test)] #[test] fn t_root_vec2_33() { root_vec2_33() }
pub fn root_vec2_34() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2, 3].starts_with(&[1])); }
#[cfg(test)] #[test] fn t_root_vec2_34() { root_vec2_34() }
pub fn root_vec2_35() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2, 3].ends_with(&[3])); }
#[cfg(test)] #[test] fn t_root_vec2_35() { root_vec2_35() }
pub fn root_vec2_36() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2, 3].split_first() == Some((&1, &[2, 3][..]))); }
#[cfg(test)] #[test] fn t_root_vec2_36() { root_vec2_36() }
pub fn root_vec2_37() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1);
 assert!([1, 2].split_last() == Some((&2, &[1][..]))); }
#[cfg(test)] #[test] fn t_root_vec2_37() { root_vec2_37() }
pub fn root_vec2_38() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); }
#[cfg(test)] #[test] fn t_root_vec2_38() { root_vec2_38() }
pub fn root_vec2_39() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1);
 assert!(a == [1]); }
#[cfg(test)] #[test] fn t_root_vec2_39() { root_vec2_39() }
pub fn root_vec2_40() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1);
 assert!(b.len() == 2); }
#[cfg(test)] #[test] fn t_root_vec2_40() { root_vec2_40() }
pub fn root_vec2_41() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } }
#[cfg(test)] #[test] fn t_root_vec2_41() { root_vec2_41() }
pub fn root_vec2_42() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } }
#[cfg(test)] #[test] fn t_root_vec2_42() { root_vec2_42() }
pub fn root_vec2_44() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } }
#[cfg(test)] #[test] fn t_root_vec2_44() { root_vec2_44() }
pub fn root_vec2_45() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } }
#[cfg(test)] #[test] fn t_root_vec2_45() { root_vec2_45() }
pub fn root_vec2_46() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } }
#[cfg(test)] #[test] fn t_root_vec2_46() { root_vec2_46() }
pub fn root_vec2_47() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; }
 assert!(v == vec![4]); }
#[cfg(test)] #[test] fn t_root_vec2_47() { root_vec2_47() }
pub fn root_vec2_48() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); }
#[cfg(test)] #[test] fn t_root_vec2_48() { root_vec2_48() }
pub fn root_vec2_49() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice();
 assert!(b.len() == 1); }
#[cfg(test)] #[test] fn t_root_vec2_49() { root_vec2_49() }
pub fn root_vec2_50() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice();
 assert!(b.iter().count() == 1); }
#[cfg(test)] #[test] fn t_root_vec2_50() { root_vec2_50() }
pub fn root_vec2_51() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice();
 assert!(b.to_vec() == vec![4]); }
#[cfg(test)] #[test] fn t_root_vec2_51() { root_vec2_51() }
pub fn root_vec2_52() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } }
#[cfg(test)] #[test] fn t_root_vec2_52() { root_vec2_52() }
pub fn root_vec2_53() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } }
#[cfg(test)] #[test] fn t_root_vec2_53() { root_vec2_53() }
pub fn root_vec2_54() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() }
 assert!([[1, 2], [3, 4]].concat() == [1, 2, 3, 4]); }
#[cfg(test)] #[test] fn t_root_vec2_54() { root_vec2_54() }
pub fn root_vec2_55() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() }
 assert!([[1], [3]].iter().flatten().count() == 2); }
#[cfg(test)] #[test] fn t_root_vec2_55() { root_vec2_55() }
pub fn root_vec2_56() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() }
 assert!([1, 2, 3].map(|x| x + 1) == [2, 3, 4]); }
#[cfg(test)] #[test] fn t_root_vec2_56() { root_vec2_56() }
pub fn root_vec2_57() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() }
 assert!(std::array::from_fn::<usize, 3, _>(|i| i * 2) == [0, 2, 4]); }
#[cfg(test)] #[test] fn t_root_vec2_57() { root_vec2_57() }
pub fn root_vec2_58() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; }
#[cfg(test)] #[test] fn t_root_vec2_58() { root_vec2_58() }
pub fn root_vec2_59() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); }
#[cfg(test)] #[test] fn t_root_vec2_59() { root_vec2_59() }
pub fn root_vec2_60() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]);
 assert!(f == [0, 1, 2, 0]); }
#[cfg(test)] #[test] fn t_root_vec2_60() { root_vec2_60() }
pub fn root_vec2_61() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); }
#[cfg(test)] #[test] fn t_root_vec2_61() { root_vec2_61() }
pub fn root_vec2_62() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7);
 assert!(f == [7; 4]); }
#[cfg(test)] #[test] fn t_root_vec2_62() { root_vec2_62() }
pub fn root_vec2_63() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); }
#[cfg(test)] #[test] fn t_root_vec2_63() { root_vec2_63() }
pub fn root_vec2_64() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1);
 assert!(vec![0; 3].iter().all(|x| *x == 0)); }
#[cfg(test)] #[test] fn t_root_vec2_64() { root_vec2_64() }
pub fn root_vec2_65() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1);
 assert!(vec![P::default(); 2].len() == 2); }
#[cfg(test)] #[test] fn t_root_vec2_65() { root_vec2_65() }
pub fn root_vec2_66() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); let mut s = vec![1, 2, 3, 4]; }
#[cfg(test)] #[test] fn t_root_vec2_66() { root_vec2_66() }
pub fn root_vec2_67() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); let mut s = vec![1, 2, 3, 4]; s.splice(1..2, [9, 9]); }
#[cfg(test)] #[test] fn t_root_vec2_67() { root_vec2_67() }
pub fn root_vec2_68() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); let mut s = vec![1, 2, 3, 4]; s.splice(1..2, [9, 9]);
 assert!(s == [1, 9, 9, 3, 4]); }
#[cfg(test)] #[test] fn t_root_vec2_68() { root_vec2_68() }
pub fn root_vec2_69() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); let mut s = vec![1, 2, 3, 4]; s.splice(1..2, [9, 9]);
 assert!(s.drain(1..3).count() == 2); }
#[cfg(test)] #[test] fn t_root_vec2_69() { root_vec2_69() }
pub fn root_vec2_72() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); let mut s = vec![1, 2, 3, 4]; s.splice(1..2, [9, 9]);
 assert!(!s.is_empty()); }
#[cfg(test)] #[test] fn t_root_vec2_72() { root_vec2_72() }
pub fn root_vec2_75() { let mut v = vec![3u32, 1, 2]; v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_unstable_by_key(|x| *x); v.reverse(); v.dedup(); v.retain(|x| *x != 2); v.insert(1, 7); v.append(&mut vec![5, 6]); v.resize(3, 9); v.truncate(2); v.push(4); v.swap(0, 1); let w = v.split_off(1); let (a, b) = [1, 2, 3].split_at(1); for x in v.iter_mut() { *x += 1; } for x in &mut v { *x += 1; } if let Some(x) = v.last_mut() { *x = 0; } if let Some(x) = v.first_mut() { *x += 2; } if let Some(x) = v.get_mut(0) { *x += 2; } let b = v.into_boxed_slice(); match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() } match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() } let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); f.fill(7); f.rotate_left(1); let mut s = vec![1, 2, 3, 4]; s.splice(1..2, [9, 9]);
 assert!(s > vec![1]); }
#[cfg(test)] #[test] fn t_root_vec2_75() { root_vec2_75() }
pub fn root_iter_0() { 
 assert!((0..4).map(|x| x * x).collect::<Vec<_>>() == [0, 1, 4, 9]); }
#[cfg(test)] #[test] fn t_root_iter_0() { root_iter_0() }
pub fn root_iter_1() { 
 assert!((0..=4).rev().collect::<Vec<_>>() == [4, 3, 2, 1, 0]); }
#[cfg(test)] #[test] fn t_root_iter_1() { root_iter_1() }
pub fn root_iter_2() { 
 assert!((0..4).contains(&3)); }
#[cfg(test)] #[test] fn t_root_iter_2() { root_iter_2() }
pub fn root_iter_3() { 
 assert!(!(0..=4).contains(&5)); }
#[cfg(test)] #[test] fn t_root_iter_3() { root_iter_3() }
pub fn root_iter_4() { 
 assert!((1..).take(3).sum::<i32>() == 6); }
#[cfg(test)] #[test] fn t_root_iter_4() { root_iter_4() }
pub fn root_iter_5() { 
 assert!(std::iter::repeat(1).take(3).count() == 3); }
#[cfg(test)] #[test] fn t_root_iter_5() { root_iter_5() }
pub fn root_iter_6() { 
 assert!(std::iter::once(1).chain(std::iter::empty()).count() == 1); }
#[cfg(test)] #[test] fn t_root_iter_6() { root_iter_6() }
pub fn root_iter_7() { 
 assert!(std::iter::successors(Some(1), |x| if *x < 8 { Some(x * 2) } else { None }).last() == Some(8)); }
#[cfg(test)] #[test] fn t_root_iter_7() { root_iter_7() }
pub fn root_iter_8() { 
 assert!(std::iter::from_fn({ let mut n = 0; move || { n += 1; if n < 4 { Some(n) } else { None } } }).sum::<i32>() == 6); }
#[cfg(test)] #[test] fn t_root_iter_8() { root_iter_8() }
pub fn root_iter_9() { 
 assert!(std::iter::repeat_with(|| 2).take(2).product::<i32>() == 4); }
#[cfg(test)] #[test] fn t_root_iter_9() { root_iter_9() }
pub fn root_iter_10() { 
 assert!(std::iter::zip([1, 2], [3, 4]).map(|(a, b)| a * b).sum::<i32>() == 11); }
#[cfg(test)] #[test] fn t_root_iter_10() { root_iter_10() }
pub fn root_iter_11() { let mut i = 0; }
#[cfg(test)] #[test] fn t_root_iter_11() { root_iter_11() }
pub fn root_iter_12() { let mut i = 0; while i < 3 { i += 1; } }
#[cfg(test)] #[test] fn t_root_iter_12() { root_iter_12() }
pub fn root_iter_13() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } }
#[cfg(test)] #[test] fn t_root_iter_13() { root_iter_13() }
pub fn root_iter_14() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); }
#[cfg(test)] #[test] fn t_root_iter_14() { root_iter_14() }
pub fn root_iter_15() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); }
#[cfg(test)] #[test] fn t_root_iter_15() { root_iter_15() }
pub fn root_iter_16() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!(t == [1, 2]); }
#[cfg(test)] #[test] fn t_root_iter_16() { root_iter_16() }
pub fn root_iter_17() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!(it.next() == Some(3)); }
#[cfg(test)] #[test] fn t_root_iter_17() { root_iter_17() }
pub fn root_iter_18() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!([3, 1, 2].into_iter().min() == Some(1)); }
#[cfg(test)] #[test] fn t_root_iter_18() { root_iter_18() }
pub fn root_iter_19() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!(["a", "b"].iter().map(|s| s.to_string()).collect::<Vec<String>>().join("-") == "a-b"); }
#[cfg(test)] #[test] fn t_root_iter_19() { root_iter_19() }
pub fn root_iter_20() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!([Some(1), None, Some(3)].into_iter().flatten().sum::<i32>() == 4); }
#[cfg(test)] #[test] fn t_root_iter_20() { root_iter_20() }
pub fn root_iter_21() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..10).step_by(4).collect::<Vec<_>>() == [0, 4, 8]); }
#[cfg(test)] #[test] fn t_root_iter_21() { root_iter_21() }
pub fn root_iter_22() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..3).cycle().take(5).last() == Some(1)); }
#[cfg(test)] #[test] fn t_root_iter_22() { root_iter_22() }
pub fn root_iter_23() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((1..=3).try_for_each(|x| if x < 5 { Ok(()) } else { Err(x) }).is_ok()); }
#[cfg(test)] #[test] fn t_root_iter_23() { root_iter_23() }
pub fn root_iter_24() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((1..=3).map_while(|x| if x < 3 { Some(x) } else { None }).count() == 2); }
#[cfg(test)] #[test] fn t_root_iter_24() { root_iter_24() }
pub fn root_iter_25() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((1..=3).min_by(|a, b| b.cmp(a)) == Some(3)); }
#[cfg(test)] #[test] fn t_root_iter_25() { root_iter_25() }
pub fn root_iter_26() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..5).filter(|x| x % 2 == 1).nth(1) == Some(3)); }
#[cfg(test)] #[test] fn t_root_iter_26() { root_iter_26() }
pub fn root_iter_27() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..0).next().is_none()); }
#[cfg(test)] #[test] fn t_root_iter_27() { root_iter_27() }
pub fn root_iter_28() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..3).len() == 3); }
#[cfg(test)] #[test] fn t_root_iter_28() { root_iter_28() }
pub fn root_iter_29() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..3).is_empty() == false); }
#[cfg(test)] #[test] fn t_root_iter_29() { root_iter_29() }
pub fn root_iter_30() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect();
 assert!((0..5).skip(1).step_by(2).collect::<VecDeque<_>>().len() == 2); }
#[cfg(test)] #[test] fn t_root_iter_30() { root_iter_30() }
pub fn root_iter_31() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; }
#[cfg(test)] #[test] fn t_root_iter_31() { root_iter_31() }
pub fn root_iter_32() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5;
 assert!(r.start == 3); }
#[cfg(test)] #[test] fn t_root_iter_32() { root_iter_32() }
pub fn root_iter_33() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5;
 assert!(r.end == 5); }
#[cfg(test)] #[test] fn t_root_iter_33() { root_iter_33() }
pub fn root_iter_34() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3; }
#[cfg(test)] #[test] fn t_root_iter_34() { root_iter_34() }
pub fn root_iter_35() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!(r.next_back() == Some(2)); }
#[cfg(test)] #[test] fn t_root_iter_35() { root_iter_35() }
pub fn root_iter_36() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!(r.nth(1) == Some(1)); }
#[cfg(test)] #[test] fn t_root_iter_36() { root_iter_36() }
pub fn root_iter_37() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!([1, 2, 3].iter().copied().rev().enumerate().last() == Some((2, 1))); }
#[cfg(test)] #[test] fn t_root_iter_37() { root_iter_37() }
pub fn root_iter_38() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!([1, 2, 3].iter().rev().skip_while(|x| **x > 2).map(|x| *x).collect::<Vec<i32>>() == [2, 1]); }
#[cfg(test)] #[test] fn t_root_iter_38() { root_iter_38() }
pub fn root_iter_39() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!([1, 5, 2].iter().rfind(|x| **x > 1) == Some(&2)); }
#[cfg(test)] #[test] fn t_root_iter_39() { root_iter_39() }
pub fn root_iter_40() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!([1, 5, 2].iter().rfold(0, |a, x| a * 10 + x) == 251); }
#[cfg(test)] #[test] fn t_root_iter_40() { root_iter_40() }
pub fn root_iter_41() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!([(1, 'a'), (2, 'b')].iter().find(|(k, _)| *k == 2).map(|(_, v)| *v) == Some('b')); }
#[cfg(test)] #[test] fn t_root_iter_41() { root_iter_41() }
pub fn root_iter_42() { let mut i = 0; while i < 3 { i += 1; } for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); } let mut it = [1, 2, 3].into_iter(); let t: Vec<_> = it.by_ref().take(2).collect(); let r = 3..5; let mut r = 0..3;
 assert!([1, 2, 3, 4].into_iter().filter(|x| x % 2 == 0).map(|x| x * 10).rev().collect::<Vec<_>>() == [40, 20]); }
#[cfg(test)] #[test] fn t_root_iter_42() { root_iter_42() }
pub fn root_str1_0() { let mut s = String::new(); }
#[cfg(test)] #[test] fn t_root_str1_0() { root_str1_0() }
pub fn root_str1_1() { let mut s = String::new(); s.push('a'); }
#[cfg(test)] #[test] fn t_root_str1_1() { root_str1_1() }
pub fn root_str1_2() { let mut s = String::new(); s.push('a'); s.push_str("bc"); }
#[cfg(test)] #[test] fn t_root_str1_2() { root_str1_2() }
pub fn root_str1_3() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; }
#[cfg(test)] #[test] fn t_root_str1_3() { root_str1_3() }
pub fn root_str1_4() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; }
#[cfg(test)] #[test] fn t_root_str1_4() { root_str1_4() }
pub fn root_str1_5() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); }
#[cfg(test)] #[test] fn t_root_str1_5() { root_str1_5() }
pub fn root_str1_6() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); }
#[cfg(test)] #[test] fn t_root_str1_6() { root_str1_6() }
pub fn root_str1_7() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s == "abcdefgh"); }
#[cfg(test)] #[test] fn t_root_str1_7() { root_str1_7() }
pub fn root_str1_8() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.len() == 8); }
#[cfg(test)] #[test] fn t_root_str1_8() { root_str1_8() }
pub fn root_str1_9() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(!s.is_empty()); }
#[cfg(test)] #[test] fn t_root_str1_9() { root_str1_9() }
pub fn root_str1_10() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!("abcdefgh" == s); }
#[cfg(test)] #[test] fn t_root_str1_10() { root_str1_10() }
pub fn root_str1_11() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.starts_with("ab")); }
#[cfg(test)] #[test] fn t_root_str1_11() { root_str1_11() }
pub fn root_str1_12() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.starts_with('a')); }
#[cfg(test)] #[test] fn t_root_str1_12() { root_str1_12() }
pub fn root_str1_13() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.ends_with("gh")); }
#[cfg(test)] #[test] fn t_root_str1_13() { root_str1_13() }
pub fn root_str1_14() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.contains("cd")); }
#[cfg(test)] #[test] fn t_root_str1_14() { root_str1_14() }
pub fn root_str1_15() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.contains('e')); }
#[cfg(test)] #[test] fn t_root_str1_15() { root_str1_15() }
pub fn root_str1_16() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.find('c') == Some(2)); }
#[cfg(test)] #[test] fn t_root_str1_16() { root_str1_16() }
pub fn root_str1_17() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.find("zz").is_none()); }
#[cfg(test)] #[test] fn t_root_str1_17() { root_str1_17() }
pub fn root_str1_18() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.rfind('c') == Some(2)); }
#[cfg(test)] #[test] fn t_root_str1_18() { root_str1_18() }
pub fn root_str1_19() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.find(|c: char| c > 'd') == Some(4)); }
#[cfg(test)] #[test] fn t_root_str1_19() { root_str1_19() }
pub fn root_str1_20() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(&s[1..3] == "bc"); }
#[cfg(test)] #[test] fn t_root_str1_20() { root_str1_20() }
pub fn root_str1_21() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(&s[..2] == "ab"); }
#[cfg(test)] #[test] fn t_root_str1_21() { root_str1_21() }
pub fn root_str1_22() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(&s[6..] == "gh"); }
#[cfg(test)] #[test] fn t_root_str1_22() { root_str1_22() }
pub fn root_str1_23() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.get(0..2) == Some("ab")); }
#[cfg(test)] #[test] fn t_root_str1_23() { root_str1_23() }
pub fn root_str1_24() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.get(7..10).is_none()); }
#[cfg(test)] #[test] fn t_root_str1_24() { root_str1_24() }
pub fn root_str1_25() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().rev().collect::<String>() == "hgfedcba"); }
#[cfg(test)] #[test] fn t_root_str1_25() { root_str1_25() }
pub fn root_str1_26() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().nth(1) == Some('b')); }
#[cfg(test)] #[test] fn t_root_str1_26() { root_str1_26() }
pub fn root_str1_27() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().last() == Some('h')); }
#[cfg(test)] #[test] fn t_root_str1_27() { root_str1_27() }
pub fn root_str1_28() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().count() == 8); }
#[cfg(test)] #[test] fn t_root_str1_28() { root_str1_28() }
pub fn root_str1_29() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().next() == Some('a')); }
#[cfg(test)] #[test] fn t_root_str1_29() { root_str1_29() }
pub fn root_str1_30() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().all(|c| c.is_ascii_lowercase())); }
#[cfg(test)] #[test] fn t_root_str1_30() { root_str1_30() }
pub fn root_str1_31() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().any(|c| c == 'c')); }
#[cfg(test)] #[test] fn t_root_str1_31() { root_str1_31() }
pub fn root_str1_32() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.chars().position(|c| c == 'c') == Some(2)); }
#[cfg(test)] #[test] fn t_root_str1_32() { root_str1_32() }
pub fn root_str1_33() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.char_indices().map(|(i, _)| i).sum::<usize>() == 28); }
#[cfg(test)] #[test] fn t_root_str1_33() { root_str1_33() }
pub fn root_str1_34() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.bytes().map(|b| b as u32).sum::<u32>() > 0); }
#[cfg(test)] #[test] fn t_root_str1_34() { root_str1_34() }
pub fn root_str1_35() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.as_bytes()[0] == b'a'); }
#[cfg(test)] #[test] fn t_root_str1_35() { root_str1_35() }
pub fn root_str1_36() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.bytes().next() == Some(97)); }
#[cfg(test)] #[test] fn t_root_str1_36() { root_str1_36() }
pub fn root_str1_37() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.pop() == Some('h')); }
#[cfg(test)] #[test] fn t_root_str1_37() { root_str1_37() }
pub fn root_str1_38() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
 assert!(s.remove(0) == 'a'); }
#[cfg(test)] #[test] fn t_root_str1_38() { root_str1_38() }
pub fn root_str1_40() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); }
#[cfg(test)] #[test] fn t_root_str1_40() { root_str1_40() }
pub fn root_str1_41() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); }
#[cfg(test)] #[test] fn t_root_str1_41() { root_str1_41() }
pub fn root_str1_43() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); }
#[cfg(test)] #[test] fn t_root_str1_43() { root_str1_43() }
pub fn root_str1_44() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3);
 assert!(s == "xyz"); }
#[cfg(test)] #[test] fn t_root_str1_44() { root_str1_44() }
pub fn root_str1_45() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); }
#[cfg(test)] #[test] fn t_root_str1_45() { root_str1_45() }
pub fn root_str1_46() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(s.is_empty()); }
#[cfg(test)] #[test] fn t_root_str1_46() { root_str1_46() }
pub fn root_str1_47() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!("a".to_string() == String::from("a")); }
#[cfg(test)] #[test] fn t_root_str1_47() { root_str1_47() }
pub fn root_str1_48() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!("a".to_owned() == "a"); }
#[cfg(test)] #[test] fn t_root_str1_48() { root_str1_48() }
pub fn root_str1_49() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(Into::<String>::into("a") == "a"); }
#[cfg(test)] #[test] fn t_root_str1_49() { root_str1_49() }
pub fn root_str1_50() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(String::from('a') == "a"); }
#[cfg(test)] #[test] fn t_root_str1_50() { root_str1_50() }
pub fn root_str1_51() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!('a'.to_string() == "a"); }
#[cfg(test)] #[test] fn t_root_str1_51() { root_str1_51() }
pub fn root_str1_52() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(12.to_string() == "12"); }
#[cfg(test)] #[test] fn t_root_str1_52() { root_str1_52() }
pub fn root_str1_53() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(format!("{}-{}", "a", 'b') == "a-b"); }
#[cfg(test)] #[test] fn t_root_str1_53() { root_str1_53() }
pub fn root_str1_54() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(format!("x{}y", 3) == "x3y"); }
#[cfg(test)] #[test] fn t_root_str1_54() { root_str1_54() }
pub fn root_str1_55() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(format!("{:02x}", 5) == "05"); }
#[cfg(test)] #[test] fn t_root_str1_55() { root_str1_55() }
pub fn root_str1_56() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear();
 assert!(format!("{:04X}", 0xab) == "00AB"); }
#[cfg(test)] #[test] fn t_root_str1_56() { root_str1_56() }
pub fn root_str1_57() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; }
#[cfg(test)] #[test] fn t_root_str1_57() { root_str1_57() }
pub fn root_str1_58() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!(format!("{n}{n}") == "qq"); }
#[cfg(test)] #[test] fn t_root_str1_58() { root_str1_58() }
pub fn root_str1_59() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!(format!("lit") == "lit"); }
#[cfg(test)] #[test] fn t_root_str1_59() { root_str1_59() }
pub fn root_str1_60() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!(["a", "b"].concat() == "ab"); }
#[cfg(test)] #[test] fn t_root_str1_60() { root_str1_60() }
pub fn root_str1_61() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!(["a", "b"].join(",") == "a,b"); }
#[cfg(test)] #[test] fn t_root_str1_61() { root_str1_61() }
pub fn root_str1_62() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!(vec!["a".to_string(), "b".to_string()].join("") == "ab"); }
#[cfg(test)] #[test] fn t_root_str1_62() { root_str1_62() }
pub fn root_str1_63() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("ab".repeat(2) == "abab"); }
#[cfg(test)] #[test] fn t_root_str1_63() { root_str1_63() }
pub fn root_str1_64() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("a".cmp("b") == std::cmp::Ordering::Less); }
#[cfg(test)] #[test] fn t_root_str1_64() { root_str1_64() }
pub fn root_str1_65() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("a" < "b"); }
#[cfg(test)] #[test] fn t_root_str1_65() { root_str1_65() }
pub fn root_str1_66() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("a".eq("a")); }
#[cfg(test)] #[test] fn t_root_str1_66() { root_str1_66() }
pub fn root_str1_67() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("a" != "b"); }
#[cfg(test)] #[test] fn t_root_str1_67() { root_str1_67() }
pub fn root_str1_68() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!(String::from("b") > String::from("a")); }
#[cfg(test)] #[test] fn t_root_str1_68() { root_str1_68() }
pub fn root_str1_69() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("aBc".to_uppercase() == "ABC"); }
#[cfg(test)] #[test] fn t_root_str1_69() { root_str1_69() }
pub fn root_str1_70() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("aBc".to_ascii_lowercase() == "abc"); }
#[cfg(test)] #[test] fn t_root_str1_70() { root_str1_70() }
pub fn root_str1_71() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q";
 assert!("a".eq_ignore_ascii_case("A")); }
#[cfg(test)] #[test] fn t_root_str1_71() { root_str1_71() }
pub fn root_str1_72() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); }
#[cfg(test)] #[test] fn t_root_str1_72() { root_str1_72() }
pub fn root_str1_73() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into();
 assert!(cow == "a"); }
#[cfg(test)] #[test] fn t_root_str1_73() { root_str1_73() }
pub fn root_str1_74() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into();
 assert!(cow.into_owned() == "a"); }
#[cfg(test)] #[test] fn t_root_str1_74() { root_str1_74() }
pub fn root_str1_75() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); }
#[cfg(test)] #[test] fn t_root_str1_75() { root_str1_75() }
pub fn root_str1_76() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into();
 assert!(&*b == "ab"); }
#[cfg(test)] #[test] fn t_root_str1_76() { root_str1_76() }
pub fn root_str1_77() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into();
 assert!(b.len() == 2); }
#[cfg(test)] #[test] fn t_root_str1_77() { root_str1_77() }
pub fn root_str1_78() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into();
 assert!(String::from(b) == "ab"); }
#[cfg(test)] #[test] fn t_root_str1_78() { root_str1_78() }
pub fn root_str1_79() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } }
#[cfg(test)] #[test] fn t_root_str1_79() { root_str1_79() }
pub fn root_str1_80() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() }
 assert!("5".parse::<u32>() == Ok(5)); }
#[cfg(test)] #[test] fn t_root_str1_80() { root_str1_80() }
pub fn root_str1_81() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() }
 assert!("x".parse::<i64>().is_err()); }
#[cfg(test)] #[test] fn t_root_str1_81() { root_str1_81() }
pub fn root_str1_82() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); }
#[cfg(test)] #[test] fn t_root_str1_82() { root_str1_82() }
pub fn root_str1_83() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); }
#[cfg(test)] #[test] fn t_root_str1_83() { root_str1_83() }
pub fn root_str1_84() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); }
#[cfg(test)] #[test] fn t_root_str1_84() { root_str1_84() }
pub fn root_str1_85() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); }
#[cfg(test)] #[test] fn t_root_str1_85() { root_str1_85() }
pub fn root_str1_86() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap();
 assert!(w == "1cd"); }
#[cfg(test)] #[test] fn t_root_str1_86() { root_str1_86() }
pub fn root_str1_87() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); }
#[cfg(test)] #[test] fn t_root_str1_87() { root_str1_87() }
pub fn root_str1_88() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); t.replace_range(0..1, "zz"); }
#[cfg(test)] #[test] fn t_root_str1_88() { root_str1_88() }
pub fn root_str1_89() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); t.replace_range(0..1, "zz");
 assert!(t == "zzbc"); }
#[cfg(test)] #[test] fn t_root_str1_89() { root_str1_89() }
pub fn root_str1_90() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); t.replace_range(0..1, "zz"); t.retain(|c| c != 'z'); }
#[cfg(test)] #[test] fn t_root_str1_90() { root_str1_90() }
pub fn root_str1_91() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); t.replace_range(0..1, "zz"); t.retain(|c| c != 'z');
 assert!(t == "bc"); }
#[cfg(test)] #[test] fn t_root_str1_91() { root_str1_91() }
pub fn root_str1_92() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); t.replace_range(0..1, "zz"); t.retain(|c| c != 'z');
 assert!(t.drain(..1).collect::<String>() == "b"); }
#[cfg(test)] #[test] fn t_root_str1_92() { root_str1_92() }
pub fn root_str1_96() { let mut s = String::new(); s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]); s.insert(0, 'x'); s.insert_str(1, "yz"); s.truncate(3); s.clear(); let n = "q"; let cow: std::borrow::Cow<str> = "a".into(); let b: Box<str> = "ab".into(); match "x" { "y" => panic!(), "x" => (), _ => panic!() } let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); let mut t = "abc".to_string(); t.replace_range(0..1, "zz"); t.retain(|c| c != 'z');
 assert!(t.is_char_boundary(0)); }
#[cfg(test)] #[test] fn t_root_str1_96() { root_str1_96() }
pub fn root_str2_0() { let p = "a/b/c"; }
#[cfg(test)] #[test] fn t_root_str2_0() { root_str2_0() }
pub fn root_str2_1() { let p = "a/b/c";
 assert!(p.split('/').collect::<Vec<_>>() == ["a", "b", "c"]); }
#[cfg(test)] #[test] fn t_root_str2_1() { root_str2_1() }
pub fn root_str2_2() { let p = "a/b/c";
 assert!(p.split("/").count() == 3); }
#[cfg(test)] #[test] fn t_root_str2_2() { root_str2_2() }
pub fn root_str2_3() { let p = "a/b/c";
 assert!(p.split(|c| c == '/').last() == Some("c")); }
#[cfg(test)] #[test] fn t_root_str2_3() { root_str2_3() }
pub fn root_str2_4() { let p = "a/b/c";
 assert!(p.rsplit('/').next() == Some("c")); }
#[cfg(test)] #[test] fn t_root_str2_4() { root_str2_4() }
pub fn root_str2_5() { let p = "a/b/c";
 assert!(p.split_once('/') == Some(("a", "b/c"))); }
#[cfg(test)] #[test] fn t_root_str2_5() { root_str2_5() }
pub fn root_str2_6() { let p = "a/b/c";
 assert!(p.rsplit_once('/') == Some(("a/b", "c"))); }
#[cfg(test)] #[test] fn t_root_str2_6() { root_str2_6() }
pub fn root_str2_7() { let p = "a/b/c";
 assert!(p.split_at(1) == ("a", "/b/c")); }
#[cfg(test)] #[test] fn t_root_str2_7() { root_str2_7() }
pub fn root_str2_8() { let p = "a/b/c";
 assert!(p.strip_prefix("a/") == Some("b/c")); }
#[cfg(test)] #[test] fn t_root_str2_8() { root_str2_8() }
pub fn root_str2_9() { let p = "a/b/c";
 assert!(p.strip_suffix('c') == Some("a/b/")); }
#[cfg(test)] #[test] fn t_root_str2_9() { root_str2_9() }
pub fn root_str2_10() { let p = "a/b/c";
 assert!(p.strip_prefix('z').is_none()); }
#[cfg(test)] #[test] fn t_root_str2_10() { root_str2_10() }
pub fn root_str2_11() { let p = "a/b/c";
 assert!(p.replace("/", "-") == "a-b-c"); }
#[cfg(test)] #[test] fn t_root_str2_11() { root_str2_11() }
pub fn root_str2_12() { let p = "a/b/c";
 assert!(p.replacen('/', "", 1) == "ab/c"); }
#[cfg(test)] #[test] fn t_root_str2_12() { root_str2_12() }
pub fn root_str2_13() { let p = "a/b/c";
 assert!(p.matches('/').count() == 2); }
#[cfg(test)] #[test] fn t_root_str2_13() { root_str2_13() }
pub fn root_str2_14() { let p = "a/b/c";
 assert!(" a ".trim() == "a"); }
#[cfg(test)] #[test] fn t_root_str2_14() { root_str2_14() }
pub fn root_str2_15() { let p = "a/b/c";
 assert!("xxa".trim_start_matches('x') == "a"); }
#[cfg(test)] #[test] fn t_root_str2_15() { root_str2_15() }
pub fn root_str2_16() { let p = "a/b/c";
 assert!("axx".trim_end_matches("x") == "a"); }
#[cfg(test)] #[test] fn t_root_str2_16() { root_str2_16() }
pub fn root_str2_17() { let p = "a/b/c";
 assert!(" a".trim_start() == "a"); }
#[cfg(test)] #[test] fn t_root_str2_17() { root_str2_17() }
pub fn root_str2_18() { let p = "a/b/c";
 assert!("a ".trim_end() == "a"); }
#[cfg(test)] #[test] fn t_root_str2_18() { root_str2_18() }
pub fn root_str2_19() { let p = "a/b/c";
 assert!(p.splitn(2, '/').nth(1) == Some("b/c")); }
#[cfg(test)] #[test] fn t_root_str2_19() { root_str2_19() }
pub fn root_str2_20() { let p = "a/b/c";
 assert!(p.rsplitn(2, '/').nth(1) == Some("a/b")); }
#[cfg(test)] #[test] fn t_root_str2_20() { root_str2_20() }
pub fn root_str2_21() { let p = "a/b/c";
 assert!("a/".split_terminator('/').count() == 1); }
#[cfg(test)] #[test] fn t_root_str2_21() { root_str2_21() }
pub fn root_str2_22() { let p = "a/b/c";
 assert!("a b  c".split_whitespace().count() == 3); }
#[cfg(test)] #[test] fn t_root_str2_22() { root_str2_22() }
pub fn root_str2_23() { let p = "a/b/c";
 assert!("a\nb\r\n".lines().count() == 2); }
#[cfg(test)] #[test] fn t_root_str2_23() { root_str2_23() }
pub fn root_str2_24() { let p = "a/b/c";
 assert!(p.split_inclusive('/').next() == Some("a/")); }
#[cfg(test)] #[test] fn t_root_str2_24() { root_str2_24() }
pub fn root_str2_25() { let p = "a/b/c";
 assert!(p.split('/').rev().next() == Some("c")); }
#[cfg(test)] #[test] fn t_root_str2_25() { root_str2_25() }
pub fn root_str2_26() { let p = "a/b/c";
 assert!("".split('/').count() == 1); }
#[cfg(test)] #[test] fn t_root_str2_26() { root_str2_26() }
pub fn root_str2_27() { let p = "a/b/c";
 assert!(p.split('/').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<String>>().concat() == "abc"); }
#[cfg(test)] #[test] fn t_root_str2_27() { root_str2_27() }
pub fn root_str2_28() { let p = "a/b/c";
 assert!(p.rfind('/') == Some(3)); }
#[cfg(test)] #[test] fn t_root_str2_28() { root_str2_28() }
pub fn root_str2_29() { let p = "a/b/c";
 assert!(&p[p.rfind('/').unwrap() + 1..] == "c"); }
#[cfg(test)] #[test] fn t_root_str2_29() { root_str2_29() }
pub fn root_str2_30() { let p = "a/b/c";
 assert!(p.rfind('/').map(|i| &p[..i]).unwrap_or("") == "a/b"); }
#[cfg(test)] #[test] fn t_root_str2_30() { root_str2_30() }
pub fn root_str2_31() { let p = "a/b/c";
 assert!("a-b_c".split(['-', '_']).count() == 3); }
#[cfg(test)] #[test] fn t_root_str2_31() { root_str2_31() }
pub fn root_str2_32() { let p = "a/b/c";
 assert!("a-b_c".split(&['-', '_'][..]).count() == 3); }
#[cfg(test)] #[test] fn t_root_str2_32() { root_str2_32() }
pub fn root_str2_33() { let p = "a/b/c";
 assert!(p.char_indices().rev().find(|(_, c)| *c == '/').map(|(i, _)| i) == Some(3)); }
#[cfg(test)] #[test] fn t_root_str2_33() { root_str2_33() }
pub fn root_str2_34() { let p = "a/b/c";
 assert!("aé".len() == 3); }
#[cfg(test)] #[test] fn t_root_str2_34() { root_str2_34() }
pub fn root_str2_35() { let p = "a/b/c";
 assert!("aé".chars().count() == 2); }
#[cfg(test)] #[test] fn t_root_str2_35() { root_str2_35() }
pub fn root_str2_36() { let p = "a/b/c";
 assert!("é".encode_utf16().count() == 1); }
#[cfg(test)] #[test] fn t_root_str2_36() { root_str2_36() }
pub fn root_str2_37() { let p = "a/b/c";
 assert!("\u{1F600}".encode_utf16().collect::<Vec<u16>>() == [0xd83d, 0xde00]); }
#[cfg(test)] #[test] fn t_root_str2_37() { root_str2_37() }
pub fn root_str2_38() { let p = "a/b/c";
 assert!(String::from_utf8(vec![97]).unwrap() == "a"); }
#[cfg(test)] #[test] fn t_root_str2_38() { root_str2_38() }
pub fn root_str2_39() { let p = "a/b/c";
 assert!(std::str::from_utf8(b"a").unwrap() == "a"); }
#[cfg(test)] #[test] fn t_root_str2_39() { root_str2_39() }
pub fn root_str2_40() { let p = "a/b/c";
 assert!(String::from_utf16(&[97, 98]).unwrap() == "ab"); }
#[cfg(test)] #[test] fn t_root_str2_40() { root_str2_40() }
pub fn root_str2_41() { let p = "a/b/c";
 assert!(String::from_utf16_lossy(&[97]) == "a"); }
#[cfg(test)] #[test] fn t_root_str2_41() { root_str2_41() }
pub fn root_str2_42() { let p = "a/b/c";
 assert!(String::from_utf8_lossy(&[97]) == "a"); }
#[cfg(test)] #[test] fn t_root_str2_42() { root_str2_42() }
pub fn root_str2_43() { let p = "a/b/c";
 assert!(char::decode_utf16([97u16, 98]).map(|r| r.unwrap()).collect::<String>() == "ab"); }
#[cfg(test)] #[test] fn t_root_str2_43() { root_str2_43() }
pub fn root_str2_44() { let p = "a/b/c";
 assert!("ab".chars().map(|c| c.to_string()).collect::<Vec<_>>().len() == 2); }
#[cfg(test)] #[test] fn t_root_str2_44() { root_str2_44() }
pub fn root_str2_45() { let p = "a/b/c";
 assert!("ab".chars().flat_map(|c| c.to_uppercase()).collect::<String>() == "AB"); }
#[cfg(test)] #[test] fn t_root_str2_45() { root_str2_45() }
pub fn root_str2_46() { let p = "a/b/c";
 assert!("abc".chars().skip(1).take(1).collect::<String>() == "b"); }
#[cfg(test)] #[test] fn t_root_str2_46() { root_str2_46() }
pub fn root_str2_47() { let p = "a/b/c";
 assert!("abc".chars().filter(|c| *c != 'b').collect::<String>() == "ac"); }
#[cfg(test)] #[test] fn t_root_str2_47() { root_str2_47() }
pub fn root_str2_48() { let p = "a/b/c";
 assert!("abc".chars().map(|c| if c == 'a' { 'x' } else { c }).collect::<String>() == "xbc"); }
#[cfg(test)] #[test] fn t_root_str2_48() { root_str2_48() }
pub fn root_str2_49() { let p = "a/b/c";
 assert!("abc".chars().fold(String::new(), |mut a, c| { a.push(c); a }) == "abc"); }
#[cfg(test)] #[test] fn t_root_str2_49() { root_str2_49() }
pub fn root_str2_50() { let p = "a/b/c";
 assert!("abc".chars().zip("abd".chars()).filter(|(a, b)| a != b).count() == 1); }
#[cfg(test)] #[test] fn t_root_str2_50() { root_str2_50() }
pub fn root_str2_51() { let p = "a/b/c";
 assert!("abc".chars().enumerate().last() == Some((2, 'c'))); }
#[cfg(test)] #[test] fn t_root_str2_51() { root_str2_51() }
pub fn root_str2_52() { let p = "a/b/c";
 assert!("abc".chars().peekable().peek() == Some(&'a')); }
#[cfg(test)] #[test] fn t_root_str2_52() { root_str2_52() }
pub fn root_str2_53() { let p = "a/b/c"; let mut it = "abc".chars(); }
#[cfg(test)] #[test] fn t_root_str2_53() { root_str2_53() }
pub fn root_str2_54() { let p = "a/b/c"; let mut it = "abc".chars(); it.next(); }
#[cfg(test)] #[test] fn t_root_str2_54() { root_str2_54() }
pub fn root_str2_55() { let p = "a/b/c"; let mut it = "abc".chars(); it.next();
 assert!(it.as_str() == "bc"); }
#[cfg(test)] #[test] fn t_root_str2_55() { root_str2_55() }
pub fn root_str2_56() { let p = "a/b/c"; let mut it = "abc".chars(); it.next(); let mut cs: Vec<char> = "ba".chars().collect(); }
#[cfg(test)] #[test] fn t_root_str2_56() { root_str2_56() }
pub fn root_str2_57() { let p = "a/b/c"; let mut it = "abc".chars(); it.next(); let mut cs: Vec<char> = "ba".chars().collect(); cs.sort(); }
#[cfg(test)] #[test] fn t_root_str2_57() { root_str2_57() }
pub fn root_str2_58() { let p = "a/b/c"; let mut it = "abc".chars(); it.next(); let mut cs: Vec<char> = "ba".chars().collect(); cs.sort();
 assert!(cs.iter().collect::<String>() == "ab"); }
#[cfg(test)] #[test] fn t_root_str2_58() { root_str2_58() }
pub fn root_str2_59() { let p = "a/b/c"; let mut it = "abc".chars(); it.next(); let mut cs: Vec<char> = "ba".chars().collect(); cs.sort();
 assert!(cs.into_iter().rev().collect::<String>() == "ba"); }
#[cfg(test)] #[test] fn t_root_str2_59() { root_str2_59() }
pub fn root_char_0() { let c = 'a'; }
#[cfg(test)] #[test] fn t_root_char_0() { root_char_0() }
pub fn root_char_1() { let c = 'a';
 assert!(c.is_alphabetic()); }
#[cfg(test)] #[test] fn t_root_char_1() { root_char_1() }
pub fn root_char_2() { let c = 'a';
 assert!(c.is_alphanumeric()); }
#[cfg(test)] #[test] fn t_root_char_2() { root_char_2() }
pub fn root_char_3() { let c = 'a';
 assert!(!c.is_numeric()); }
#[cfg(test)] #[test] fn t_root_char_3() { root_char_3() }
pub fn root_char_4() { let c = 'a';
 assert!(!c.is_whitespace()); }
#[cfg(test)] #[test] fn t_root_char_4() { root_char_4() }
pub fn root_char_5() { let c = 'a';
 assert!(!c.is_control()); }
#[cfg(test)] #[test] fn t_root_char_5() { root_char_5() }
pub fn root_char_6() { let c = 'a';
 assert!(c.is_ascii()); }
#[cfg(test)] #[test] fn t_root_char_6() { root_char_6() }
pub fn root_char_7() { let c = 'a';
 assert!(c.is_ascii_alphabetic()); }
#[cfg(test)] #[test] fn t_root_char_7() { root_char_7() }
pub fn root_char_8() { let c = 'a';
 assert!(c.is_lowercase()); }
#[cfg(test)] #[test] fn t_root_char_8() { root_char_8() }
pub fn root_char_9() { let c = 'a';
 assert!('1'.is_ascii_digit()); }
#[cfg(test)] #[test] fn t_root_char_9() { root_char_9() }
pub fn root_char_10() { let c = 'a';
 assert!('1'.is_digit(10)); }
#[cfg(test)] #[test] fn t_root_char_10() { root_char_10() }
pub fn root_char_11() { let c = 'a';
 assert!('f'.is_digit(16)); }
#[cfg(test)] #[test] fn t_root_char_11() { root_char_11() }
pub fn root_char_12() { let c = 'a';
 assert!('f'.is_ascii_hexdigit()); }
#[cfg(test)] #[test] fn t_root_char_12() { root_char_12() }
pub fn root_char_13() { let c = 'a';
 assert!('1'.to_digit(10) == Some(1)); }
#[cfg(test)] #[test] fn t_root_char_13() { root_char_13() }
pub fn root_char_14() { let c = 'a';
 assert!('f'.to_digit(16) == Some(15)); }
#[cfg(test)] #[test] fn t_root_char_14() { root_char_14() }
pub fn root_char_15() { let c = 'a';
 assert!('.'.is_ascii_punctuation()); }
#[cfg(test)] #[test] fn t_root_char_15() { root_char_15() }
pub fn root_char_16() { let c = 'a';
 assert!(char::from_u32(97) == Some('a')); }
#[cfg(test)] #[test] fn t_root_char_16() { root_char_16() }
pub fn root_char_17() { let c = 'a';
 assert!(char::from(97u8) == 'a'); }
#[cfg(test)] #[test] fn t_root_char_17() { root_char_17() }
pub fn root_char_18() { let c = 'a';
 assert!(char::from_digit(3, 10) == Some('3')); }
#[cfg(test)] #[test] fn t_root_char_18() { root_char_18() }
pub fn root_char_19() { let c = 'a';
 assert!('a' as u32 == 97); }
#[cfg(test)] #[test] fn t_root_char_19() { root_char_19() }
pub fn root_char_20() { let c = 'a';
 assert!(u32::from('a') == 97); }
#[cfg(test)] #[test] fn t_root_char_20() { root_char_20() }
pub fn root_char_21() { let c = 'a';
 assert!(97u8 as char == 'a'); }
#[cfg(test)] #[test] fn t_root_char_21() { root_char_21() }
pub fn root_char_22() { let c = 'a';
 assert!(u8::try_from('a') == Ok(97)); }
#[cfg(test)] #[test] fn t_root_char_22() { root_char_22() }
pub fn root_char_23() { let c = 'a';
 assert!(char::try_from(97u32) == Ok('a')); }
#[cfg(test)] #[test] fn t_root_char_23() { root_char_23() }
pub fn root_char_24() { let c = 'a';
 assert!('a'.to_ascii_uppercase() == 'A'); }
#[cfg(test)] #[test] fn t_root_char_24() { root_char_24() }
pub fn root_char_25() { let c = 'a';
 assert!('A'.to_ascii_lowercase() == 'a'); }
#[cfg(test)] #[test] fn t_root_char_25() { root_char_25() }
pub fn root_char_26() { let c = 'a';
 assert!('a'.to_uppercase().next() == Some('A')); }
#[cfg(test)] #[test] fn t_root_char_26() { root_char_26() }
pub fn root_char_27() { let c = 'a';
 assert!('a'.len_utf8() == 1); }
#[cfg(test)] #[test] fn t_root_char_27() { root_char_27() }
pub fn root_char_28() { let c = 'a';
 assert!('😀'.len_utf16() == 2); }
#[cfg(test)] #[test] fn t_root_char_28() { root_char_28() }
pub fn root_char_29() { let c = 'a';
 assert!('a'.eq_ignore_ascii_case(&'A')); }
#[cfg(test)] #[test] fn t_root_char_29() { root_char_29() }
pub fn root_char_30() { let c = 'a';
 assert!(('a'..='z').contains(&c)); }
#[cfg(test)] #[test] fn t_root_char_30() { root_char_30() }
pub fn root_char_31() { let c = 'a';
 assert!(matches!(c, 'a'..='c')); }
#[cfg(test)] #[test] fn t_root_char_31() { root_char_31() }
pub fn root_char_32() { let c = 'a';
 assert!(c < 'b'); }
#[cfg(test)] #[test] fn t_root_char_32() { root_char_32() }
pub fn root_char_33() { let c = 'a';
 assert!(('a'..'d').count() == 3); }
#[cfg(test)] #[test] fn t_root_char_33() { root_char_33() }
pub fn root_char_34() { let c = 'a';
 assert!(c.max('b') == 'b'); }
#[cfg(test)] #[test] fn t_root_char_34() { root_char_34() }
pub fn root_char_35() { let c = 'a';
 assert!("{}".contains('{')); }
#[cfg(test)] #[test] fn t_root_char_35() { root_char_35() }
pub fn root_char_36() { let c = 'a';
 assert!(['a', 'b'].contains(&c)); }
#[cfg(test)] #[test] fn t_root_char_36() { root_char_36() }
pub fn root_char_37() { let c = 'a'; let mut b = [0; 4]; }
#[cfg(test)] #[test] fn t_root_char_37() { root_char_37() }
pub fn root_char_38() { let c = 'a'; let mut b = [0; 4];
 assert!('a'.encode_utf8(&mut b) == "a"); }
#[cfg(test)] #[test] fn t_root_char_38() { root_char_38() }
pub fn root_char_39() { let c = 'a'; let mut b = [0; 4]; let mut w = [0; 2]; }
#[cfg(test)] #[test] fn t_root_char_39() { root_char_39() }
pub fn root_char_40() { let c = 'a'; let mut b = [0; 4]; let mut w = [0; 2];
 assert!('a'.encode_utf16(&mut w).len() == 1); }
#[cfg(test)] #[test] fn t_root_char_40() { root_char_40() }
pub fn root_char_41() { let c = 'a'; let mut b = [0; 4]; let mut w = [0; 2];
 assert!(c.escape_default().to_string() == "a"); }
#[cfg(test)] #[test] fn t_root_char_41() { root_char_41() }
pub fn root_char_42() { let c = 'a'; let mut b = [0; 4]; let mut w = [0; 2];
 assert!('"'.escape_debug().count() == 2); }
#[cfg(test)] #[test] fn t_root_char_42() { root_char_42() }
pub fn root_char_43() { let c = 'a'; let mut b = [0; 4]; let mut w = [0; 2];
 assert!('a'.cmp(&'b') == std::cmp::Ordering::Less); }
#[cfg(test)] #[test] fn t_root_char_43() { root_char_43() }
pub fn root_num_0() { let x = id(5u64); }
#[cfg(test)] #[test] fn t_root_num_0() { root_num_0() }
pub fn root_num_1() { let x = id(5u64);
 assert!(x.checked_add(1) == Some(6)); }
#[cfg(test)] #[test] fn t_root_num_1() { root_num_1() }
pub fn root_num_2() { let x = id(5u64);
 assert!(x.checked_sub(6).is_none()); }
#[cfg(test)] #[test] fn t_root_num_2() { root_num_2() }
pub fn root_num_3() { let x = id(5u64);
 assert!(x.checked_mul(2) == Some(10)); }
#[cfg(test)] #[test] fn t_root_num_3() { root_num_3() }
pub fn root_num_4() { let x = id(5u64);
 assert!(x.checked_div(0).is_none()); }
#[cfg(test)] #[test] fn t_root_num_4() { root_num_4() }
pub fn root_num_5() { let x = id(5u64);
 assert!(x.wrapping_sub(6) == u64::MAX); }
#[cfg(test)] #[test] fn t_root_num_5() { root_num_5() }
pub fn root_num_6() { let x = id(5u64);
 assert!(x.saturating_sub(6) == 0); }
#[cfg(test)] #[test] fn t_root_num_6() { root_num_6() }
pub fn root_num_7() { let x = id(5u64);
 assert!(x.overflowing_add(u64::MAX) == (4, true)); }
#[cfg(test)] #[test] fn t_root_num_7() { root_num_7() }
pub fn root_num_8() { let x = id(5u64);
 assert!(x.pow(2) == 25); }
#[cfg(test)] #[test] fn t_root_num_8() { root_num_8() }
pub fn root_num_9() { let x = id(5u64);
 assert!(x.leading_zeros() == 61); }
#[cfg(test)] #[test] fn t_root_num_9() { root_num_9() }
pub fn root_num_10() { let x = id(5u64);
 assert!(x.trailing_zeros() == 0); }
#[cfg(test)] #[test] fn t_root_num_10() { root_num_10() }
pub fn root_num_11() { let x = id(5u64);
 assert!(x.count_ones() == 2); }
#[cfg(test)] #[test] fn t_root_num_11() { root_num_11() }
pub fn root_num_12() { let x = id(5u64);
 assert!(x.min(3) == 3); }
#[cfg(test)] #[test] fn t_root_num_12() { root_num_12() }
pub fn root_num_13() { let x = id(5u64);
 assert!(x.max(9) == 9); }
#[cfg(test)] #[test] fn t_root_num_13() { root_num_13() }
pub fn root_num_14() { let x = id(5u64);
 assert!(x.clamp(1, 3) == 3); }
#[cfg(test)] #[test] fn t_root_num_14() { root_num_14() }
pub fn root_num_15() { let x = id(5u64);
 assert!(x.abs_diff(7) == 2); }
#[cfg(test)] #[test] fn t_root_num_15() { root_num_15() }
pub fn root_num_16() { let x = id(5u64);
 assert!(x.is_power_of_two() == false); }
#[cfg(test)] #[test] fn t_root_num_16() { root_num_16() }
pub fn root_num_17() { let x = id(5u64);
 assert!(x.next_power_of_two() == 8); }
#[cfg(test)] #[test] fn t_root_num_17() { root_num_17() }
pub fn root_num_18() { let x = id(5u64);
 assert!(x.div_ceil(2) == 3); }
#[cfg(test)] #[test] fn t_root_num_18() { root_num_18() }
pub fn root_num_19() { let x = id(5u64);
 assert!(x.rem_euclid(3) == 2); }
#[cfg(test)] #[test] fn t_root_num_19() { root_num_19() }
pub fn root_num_20() { let x = id(5u64);
 assert!(7i32.div_euclid(-2) == -3); }
#[cfg(test)] #[test] fn t_root_num_20() { root_num_20() }
pub fn root_num_21() { let x = id(5u64);
 assert!(x.ilog2() == 2); }
#[cfg(test)] #[test] fn t_root_num_21() { root_num_21() }
pub fn root_num_22() { let x = id(5u64); let i = id(-5i64); }
#[cfg(test)] #[test] fn t_root_num_22() { root_num_22() }
pub fn root_num_23() { let x = id(5u64); let i = id(-5i64);
 assert!(i.abs() == 5); }
#[cfg(test)] #[test] fn t_root_num_23() { root_num_23() }
pub fn root_num_24() { let x = id(5u64); let i = id(-5i64);
 assert!(i.signum() == -1); }
#[cfg(test)] #[test] fn t_root_num_24() { root_num_24() }
pub fn root_num_25() { let x = id(5u64); let i = id(-5i64);
 assert!(i.unsigned_abs() == 5); }
#[cfg(test)] #[test] fn t_root_num_25() { root_num_25() }
pub fn root_num_26() { let x = id(5u64); let i = id(-5i64);
 assert!(i.wrapping_neg() == 5); }
#[cfg(test)] #[test] fn t_root_num_26() { root_num_26() }
pub fn root_num_27() { let x = id(5u64); let i = id(-5i64);
 assert!(i.is_negative()); }
#[cfg(test)] #[test] fn t_root_num_27() { root_num_27() }
pub fn root_num_28() { let x = id(5u64); let i = id(-5i64);
 assert!(i.checked_neg() == Some(5)); }
#[cfg(test)] #[test] fn t_root_num_28() { root_num_28() }
pub fn root_num_29() { let x = id(5u64); let i = id(-5i64);
 assert!(i.saturating_mul(i64::MAX) == i64::MIN); }
#[cfg(test)] #[test] fn t_root_num_29() { root_num_29() }
pub fn root_num_30() { let x = id(5u64); let i = id(-5i64);
 assert!(i.checked_abs() == Some(5)); }
#[cfg(test)] #[test] fn t_root_num_30() { root_num_30() }
pub fn root_num_31() { let x = id(5u64); let i = id(-5i64);
 assert!(u32::try_from(x) == Ok(5)); }
#[cfg(test)] #[test] fn t_root_num_31() { root_num_31() }
pub fn root_num_32() { let x = id(5u64); let i = id(-5i64);
 assert!(u8::try_from(300u32).is_err()); }
#[cfg(test)] #[test] fn t_root_num_32() { root_num_32() }
pub fn root_num_33() { let x = id(5u64); let i = id(-5i64);
 assert!(i32::try_from(i).is_ok()); }
#[cfg(test)] #[test] fn t_root_num_33() { root_num_33() }
pub fn root_num_34() { let x = id(5u64); let i = id(-5i64);
 assert!(u64::from(3u32) == 3); }
#[cfg(test)] #[test] fn t_root_num_34() { root_num_34() }
pub fn root_num_35() { let x = id(5u64); let i = id(-5i64);
 assert!(i64::from(3u32) == 3); }
#[cfg(test)] #[test] fn t_root_num_35() { root_num_35() }
pub fn root_num_36() { let x = id(5u64); let i = id(-5i64);
 assert!(TryInto::<u8>::try_into(5i32) == Ok(5)); }
#[cfg(test)] #[test] fn t_root_num_36() { root_num_36() }
pub fn root_num_37() { let x = id(5u64); let i = id(-5i64);
 assert!(usize::try_from(3u64).is_ok()); }
#[cfg(test)] #[test] fn t_root_num_37() { root_num_37() }
pub fn root_num_38() { let x = id(5u64); let i = id(-5i64);
 assert!(x as u8 as char == '\u{5}'); }
#[cfg(test)] #[test] fn t_root_num_38() { root_num_38() }
pub fn root_num_39() { let x = id(5u64); let i = id(-5i64);
 assert!((1u64 << 63).rotate_left(1) == 1); }
#[cfg(test)] #[test] fn t_root_num_39() { root_num_39() }
pub fn root_num_40() { let x = id(5u64); let i = id(-5i64);
 assert!((x >> 1) == 2); }
#[cfg(test)] #[test] fn t_root_num_40() { root_num_40() }
pub fn root_num_41() { let x = id(5u64); let i = id(-5i64);
 assert!((x & 4) == 4); }
#[cfg(test)] #[test] fn t_root_num_41() { root_num_41() }
pub fn root_num_42() { let x = id(5u64); let i = id(-5i64);
 assert!((x | 2) == 7); }
#[cfg(test)] #[test] fn t_root_num_42() { root_num_42() }
pub fn root_num_43() { let x = id(5u64); let i = id(-5i64);
 assert!((x ^ 1) == 4); }
#[cfg(test)] #[test] fn t_root_num_43() { root_num_43() }
pub fn root_num_44() { let x = id(5u64); let i = id(-5i64);
 assert!(!x == u64::MAX - 5); }
#[cfg(test)] #[test] fn t_root_num_44() { root_num_44() }
pub fn root_num_45() { let x = id(5u64); let i = id(-5i64);
 assert!(x.swap_bytes().swap_bytes() == x); }
#[cfg(test)] #[test] fn t_root_num_45() { root_num_45() }
pub fn root_num_46() { let x = id(5u64); let i = id(-5i64);
 assert!(u64::from_le_bytes(x.to_le_bytes()) == x); }
#[cfg(test)] #[test] fn t_root_num_46() { root_num_46() }
pub fn root_num_47() { let x = id(5u64); let i = id(-5i64);
 assert!(u64::from_str_radix("ff", 16) == Ok(255)); }
#[cfg(test)] #[test] fn t_root_num_47() { root_num_47() }
pub fn root_num_48() { let x = id(5u64); let i = id(-5i64);
 assert!(x.cmp(&6) == std::cmp::Ordering::Less); }
#[cfg(test)] #[test] fn t_root_num_48() { root_num_48() }
pub fn root_num_49() { let x = id(5u64); let i = id(-5i64);
 assert!(x.partial_cmp(&5) == Some(std::cmp::Ordering::Equal)); }
#[cfg(test)] #[test] fn t_root_num_49() { root_num_49() }
pub fn root_num_50() { let x = id(5u64); let i = id(-5i64);
 assert!(std::cmp::max(1, 2) == 2); }
#[cfg(test)] #[test] fn t_root_num_50() { root_num_50() }
pub fn root_num_51() { let x = id(5u64); let i = id(-5i64);
 assert!(std::cmp::min(1, 2) == 1); }
#[cfg(test)] #[test] fn t_root_num_51() { root_num_51() }
pub fn root_num_52() { let x = id(5u64); let i = id(-5i64);
 assert!(1.cmp(&2).reverse() == std::cmp::Ordering::Greater); }
#[cfg(test)] #[test] fn t_root_num_52() { root_num_52() }
pub fn root_num_53() { let x = id(5u64); let i = id(-5i64);
 assert!(1.cmp(&1).then(2.cmp(&1)).is_gt()); }
#[cfg(test)] #[test] fn t_root_num_53() { root_num_53() }
pub fn root_num_54() { let x = id(5u64); let i = id(-5i64);
 assert!(1.cmp(&1).then_with(|| 2.cmp(&3)).is_lt()); }
#[cfg(test)] #[test] fn t_root_num_54() { root_num_54() }
pub fn root_num_55() { let x = id(5u64); let i = id(-5i64);
 assert!(1.cmp(&2).is_le()); }
#[cfg(test)] #[test] fn t_root_num_55() { root_num_55() }
pub fn root_num_56() { let x = id(5u64); let i = id(-5i64);
 assert!((1, 2) < (1, 3)); }
#[cfg(test)] #[test] fn t_root_num_56() { root_num_56() }
pub fn root_num_57() { let x = id(5u64); let i = id(-5i64);
 assert!((1, "a") == (1, "a")); }
#[cfg(test)] #[test] fn t_root_num_57() { root_num_57() }
pub fn root_num_58() { let x = id(5u64); let i = id(-5i64);
 assert!(true.then(|| 1) == Some(1)); }
#[cfg(test)] #[test] fn t_root_num_58() { root_num_58() }
pub fn root_num_59() { let x = id(5u64); let i = id(-5i64);
 assert!(false.then_some(1).is_none()); }
#[cfg(test)] #[test] fn t_root_num_59() { root_num_59() }
pub fn root_num_60() { let x = id(5u64); let i = id(-5i64);
 assert!(true as u8 == 1); }
#[cfg(test)] #[test] fn t_root_num_60() { root_num_60() }
pub fn root_num_61() { let x = id(5u64); let i = id(-5i64);
 assert!(bool::from(true)); }
#[cfg(test)] #[test] fn t_root_num_61() { root_num_61() }
pub fn root_num_62() { let x = id(5u64); let i = id(-5i64);
 assert!((true ^ false)); }
#[cfg(test)] #[test] fn t_root_num_62() { root_num_62() }
pub fn root_num_63() { let x = id(5u64); let i = id(-5i64);
 assert!(!false & true); }
#[cfg(test)] #[test] fn t_root_num_63() { root_num_63() }
pub fn root_num_64() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); }
#[cfg(test)] #[test] fn t_root_num_64() { root_num_64() }
pub fn root_num_65() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.to_bits() == 0x3ff8000000000000); }
#[cfg(test)] #[test] fn t_root_num_65() { root_num_65() }
pub fn root_num_66() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f64::from_bits(f.to_bits()) == 1.5); }
#[cfg(test)] #[test] fn t_root_num_66() { root_num_66() }
pub fn root_num_67() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.is_finite()); }
#[cfg(test)] #[test] fn t_root_num_67() { root_num_67() }
pub fn root_num_68() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(!f.is_nan()); }
#[cfg(test)] #[test] fn t_root_num_68() { root_num_68() }
pub fn root_num_69() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(!f.is_infinite()); }
#[cfg(test)] #[test] fn t_root_num_69() { root_num_69() }
pub fn root_num_70() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.is_sign_positive()); }
#[cfg(test)] #[test] fn t_root_num_70() { root_num_70() }
pub fn root_num_71() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.floor() == 1.0); }
#[cfg(test)] #[test] fn t_root_num_71() { root_num_71() }
pub fn root_num_72() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f as i64 == 1); }
#[cfg(test)] #[test] fn t_root_num_72() { root_num_72() }
pub fn root_num_73() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f64::NAN.is_nan()); }
#[cfg(test)] #[test] fn t_root_num_73() { root_num_73() }
pub fn root_num_74() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(3 as f64 == 3.0); }
#[cfg(test)] #[test] fn t_root_num_74() { root_num_74() }
pub fn root_num_75() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.abs() == 1.5); }
#[cfg(test)] #[test] fn t_root_num_75() { root_num_75() }
pub fn root_num_76() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(-f == -1.5); }
#[cfg(test)] #[test] fn t_root_num_76() { root_num_76() }
pub fn root_num_77() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.total_cmp(&2.0).is_lt()); }
#[cfg(test)] #[test] fn t_root_num_77() { root_num_77() }
pub fn root_num_78() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64);
 assert!(f.to_string() == "1.5"); }
#[cfg(test)] #[test] fn t_root_num_78() { root_num_78() }
pub fn root_num_79() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); }
#[cfg(test)] #[test] fn t_root_num_79() { root_num_79() }
pub fn root_num_80() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2));
 assert!(a + b == 3); }
#[cfg(test)] #[test] fn t_root_num_80() { root_num_80() }
pub fn root_num_81() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); }
#[cfg(test)] #[test] fn t_root_num_81() { root_num_81() }
pub fn root_num_82() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; }
#[cfg(test)] #[test] fn t_root_num_82() { root_num_82() }
pub fn root_num_83() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9); }
#[cfg(test)] #[test] fn t_root_num_83() { root_num_83() }
pub fn root_num_84() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9);
 assert!(t == (9, 2)); }
#[cfg(test)] #[test] fn t_root_num_84() { root_num_84() }
pub fn root_num_85() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9);
 assert!(std::mem::replace(&mut t.0, 1) == 9); }
#[cfg(test)] #[test] fn t_root_num_85() { root_num_85() }
pub fn root_num_86() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9);
 assert!(u128::from(x) * 3 == 15); }
#[cfg(test)] #[test] fn t_root_num_86() { root_num_86() }
pub fn root_num_87() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9);
 assert!((x as u128 >> 1) as u64 == 2); }
#[cfg(test)] #[test] fn t_root_num_87() { root_num_87() }
pub fn root_num_88() { let x = id(5u64); let i = id(-5i64); let f = id(1.5f64); let (a, b) = id((1, 2)); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9);
 assert!(x.widening_mulx() == 10); }
#[cfg(test)] #[test] fn t_root_num_88() { root_num_88() }
pub fn root_map_0() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); }
#[cfg(test)] #[test] fn t_root_map_0() { root_map_0() }
pub fn root_map_1() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); }
#[cfg(test)] #[test] fn t_root_map_1() { root_map_1() }
pub fn root_map_2() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); }
#[cfg(test)] #[test] fn t_root_map_2() { root_map_2() }
pub fn root_map_3() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.insert("c".to_string(), 1).is_none()); }
#[cfg(test)] #[test] fn t_root_map_3() { root_map_3() }
pub fn root_map_4() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.insert("b".to_string(), 2) == Some(3)); }
#[cfg(test)] #[test] fn t_root_map_4() { root_map_4() }
pub fn root_map_5() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.get("a") == Some(&2)); }
#[cfg(test)] #[test] fn t_root_map_5() { root_map_5() }
pub fn root_map_6() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.contains_key("b")); }
#[cfg(test)] #[test] fn t_root_map_6() { root_map_6() }
pub fn root_map_7() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.len() == 2); }
#[cfg(test)] #[test] fn t_root_map_7() { root_map_7() }
pub fn root_map_8() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(!m.is_empty()); }
#[cfg(test)] #[test] fn t_root_map_8() { root_map_8() }
pub fn root_map_9() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m["a"] == 2); }
#[cfg(test)] #[test] fn t_root_map_9() { root_map_9() }
pub fn root_map_10() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.iter().map(|(k, v)| format!("{k}{v}")).collect::<String>() == "a2b3"); }
#[cfg(test)] #[test] fn t_root_map_10() { root_map_10() }
pub fn root_map_11() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.keys().cloned().collect::<Vec<_>>() == ["a", "b"]); }
#[cfg(test)] #[test] fn t_root_map_11() { root_map_11() }
pub fn root_map_12() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
 assert!(m.values().sum::<i32>() == 5); }
#[cfg(test)] #[test] fn t_root_map_12() { root_map_12() }
pub fn root_map_13() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; }
#[cfg(test)] #[test] fn t_root_map_13() { root_map_13() }
pub fn root_map_14() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7;
 assert!(m["c"] == 7); }
#[cfg(test)] #[test] fn t_root_map_14() { root_map_14() }
pub fn root_map_15() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7;
 assert!(*m.entry("c".into()).or_default() == 7); }
#[cfg(test)] #[test] fn t_root_map_15() { root_map_15() }
pub fn root_map_16() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7;
 assert!(m.entry("a".into()).and_modify(|x| *x += 1).or_insert_with(|| 0) == &3); }
#[cfg(test)] #[test] fn t_root_map_16() { root_map_16() }
pub fn root_map_17() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } }
#[cfg(test)] #[test] fn t_root_map_17() { root_map_17() }
pub fn root_map_18() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } }
#[cfg(test)] #[test] fn t_root_map_18() { root_map_18() }
pub fn root_map_19() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } }
#[cfg(test)] #[test] fn t_root_map_19() { root_map_19() }
pub fn root_map_20() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); }
 assert!(m.remove("c") == Some(8)); }
#[cfg(test)] #[test] fn t_root_map_20() { root_map_20() }
pub fn root_map_21() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); }
 assert!(m.remove("zz").is_none()); }
#[cfg(test)] #[test] fn t_root_map_21() { root_map_21() }
pub fn root_map_22() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); }
 assert!(m.first_key_value().unwrap().0 == "a"); }
#[cfg(test)] #[test] fn t_root_map_22() { root_map_22() }
pub fn root_map_24() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); }
 assert!(m.get_key_value("a").is_some()); }
#[cfg(test)] #[test] fn t_root_map_24() { root_map_24() }
pub fn root_map_25() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); }
#[cfg(test)] #[test] fn t_root_map_25() { root_map_25() }
pub fn root_map_27() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect();
 assert!(v[0].0 == "a"); }
#[cfg(test)] #[test] fn t_root_map_27() { root_map_27() }
pub fn root_map_28() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); }
#[cfg(test)] #[test] fn t_root_map_28() { root_map_28() }
pub fn root_map_29() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect();
 assert!(m == m2); }
#[cfg(test)] #[test] fn t_root_map_29() { root_map_29() }
pub fn root_map_30() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); }
#[cfg(test)] #[test] fn t_root_map_30() { root_map_30() }
pub fn root_map_31() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]);
 assert!(m3.get(&1).copied() == Some(2)); }
#[cfg(test)] #[test] fn t_root_map_31() { root_map_31() }
pub fn root_map_32() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]);
 assert!(m3.range(0..).count() == 1); }
#[cfg(test)] #[test] fn t_root_map_32() { root_map_32() }
pub fn root_map_33() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); }
#[cfg(test)] #[test] fn t_root_map_33() { root_map_33() }
pub fn root_map_34() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); }
#[cfg(test)] #[test] fn t_root_map_34() { root_map_34() }
pub fn root_map_35() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); }
#[cfg(test)] #[test] fn t_root_map_35() { root_map_35() }
pub fn root_map_36() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } }
#[cfg(test)] #[test] fn t_root_map_36() { root_map_36() }
pub fn root_map_37() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } }
#[cfg(test)] #[test] fn t_root_map_37() { root_map_37() }
pub fn root_map_38() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); }
#[cfg(test)] #[test] fn t_root_map_38() { root_map_38() }
pub fn root_map_39() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); }
#[cfg(test)] #[test] fn t_root_map_39() { root_map_39() }
pub fn root_map_40() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(s.insert(2)); }
#[cfg(test)] #[test] fn t_root_map_40() { root_map_40() }
pub fn root_map_41() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(!s.insert(7)); }
#[cfg(test)] #[test] fn t_root_map_41() { root_map_41() }
pub fn root_map_42() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(s.contains(&7)); }
#[cfg(test)] #[test] fn t_root_map_42() { root_map_42() }
pub fn root_map_43() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(s.len() == 1); }
#[cfg(test)] #[test] fn t_root_map_43() { root_map_43() }
pub fn root_map_44() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(s.iter().count() == 1); }
#[cfg(test)] #[test] fn t_root_map_44() { root_map_44() }
pub fn root_map_45() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(s.remove(&7)); }
#[cfg(test)] #[test] fn t_root_map_45() { root_map_45() }
pub fn root_map_46() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(!s.remove(&2)); }
#[cfg(test)] #[test] fn t_root_map_46() { root_map_46() }
pub fn root_map_47() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7);
 assert!(!s.is_empty()); }
#[cfg(test)] #[test] fn t_root_map_47() { root_map_47() }
pub fn root_map_48() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); }
#[cfg(test)] #[test] fn t_root_map_48() { root_map_48() }
pub fn root_map_49() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect();
 assert!(s.into_iter().collect::<Vec<_>>() == [1, 3]); }
#[cfg(test)] #[test] fn t_root_map_49() { root_map_49() }
pub fn root_map_50() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); }
#[cfg(test)] #[test] fn t_root_map_50() { root_map_50() }
pub fn root_map_51() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); }
#[cfg(test)] #[test] fn t_root_map_51() { root_map_51() }
pub fn root_map_52() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1);
 assert!(h.insert("c".into(), 1).is_none()); }
#[cfg(test)] #[test] fn t_root_map_52() { root_map_52() }
pub fn root_map_53() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1);
 assert!(h.get("a") == Some(&1)); }
#[cfg(test)] #[test] fn t_root_map_53() { root_map_53() }
pub fn root_map_54() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1);
 assert!(h.contains_key("a")); }
#[cfg(test)] #[test] fn t_root_map_54() { root_map_54() }
pub fn root_map_55() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1);
 assert!(h.len() == 1); }
#[cfg(test)] #[test] fn t_root_map_55() { root_map_55() }
pub fn root_map_56() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1);
 assert!(h.remove("a") == Some(1)); }
#[cfg(test)] #[test] fn t_root_map_56() { root_map_56() }
pub fn root_map_58() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; }
#[cfg(test)] #[test] fn t_root_map_58() { root_map_58() }
pub fn root_map_59() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1;
 assert!(h["z"] == 2); }
#[cfg(test)] #[test] fn t_root_map_59() { root_map_59() }
pub fn root_map_60() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1;
 assert!(h.iter().count() == 2); }
#[cfg(test)] #[test] fn t_root_map_60() { root_map_60() }
pub fn root_map_63() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); }
#[cfg(test)] #[test] fn t_root_map_63() { root_map_63() }
pub fn root_map_64() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); }
#[cfg(test)] #[test] fn t_root_map_64() { root_map_64() }
pub fn root_map_65() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a");
 assert!(hs.insert("b")); }
#[cfg(test)] #[test] fn t_root_map_65() { root_map_65() }
pub fn root_map_66() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a");
 assert!(!hs.insert("a")); }
#[cfg(test)] #[test] fn t_root_map_66() { root_map_66() }
pub fn root_map_67() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a");
 assert!(hs.contains("a")); }
#[cfg(test)] #[test] fn t_root_map_67() { root_map_67() }
pub fn root_map_68() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a");
 assert!(hs.len() == 1); }
#[cfg(test)] #[test] fn t_root_map_68() { root_map_68() }
pub fn root_map_69() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a");
 assert!(hs.remove("a")); }
#[cfg(test)] #[test] fn t_root_map_69() { root_map_69() }
pub fn root_map_70() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); }
#[cfg(test)] #[test] fn t_root_map_70() { root_map_70() }
pub fn root_map_71() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); }
#[cfg(test)] #[test] fn t_root_map_71() { root_map_71() }
pub fn root_map_72() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); }
#[cfg(test)] #[test] fn t_root_map_72() { root_map_72() }
pub fn root_map_73() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]); }
#[cfg(test)] #[test] fn t_root_map_73() { root_map_73() }
pub fn root_map_74() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d.len() == 3); }
#[cfg(test)] #[test] fn t_root_map_74() { root_map_74() }
pub fn root_map_75() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d[0] == 0); }
#[cfg(test)] #[test] fn t_root_map_75() { root_map_75() }
pub fn root_map_76() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d.front() == Some(&0)); }
#[cfg(test)] #[test] fn t_root_map_76() { root_map_76() }
pub fn root_map_77() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d.back() == Some(&2)); }
#[cfg(test)] #[test] fn t_root_map_77() { root_map_77() }
pub fn root_map_78() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d.pop_front() == Some(0)); }
#[cfg(test)] #[test] fn t_root_map_78() { root_map_78() }
pub fn root_map_79() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d.pop_back() == Some(2)); }
#[cfg(test)] #[test] fn t_root_map_79() { root_map_79() }
pub fn root_map_81() { let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3); *m.entry("c".to_string()).or_insert(0) += 7; if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); } let v: Vec<(String, i32)> = m.clone().into_iter().collect(); let m2: BTreeMap<String, i32> = v.into_iter().collect(); let m3 = BTreeMap::from([(1, 2)]); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear(); match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() } let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); *h.entry("z".into()).or_insert(1) += 1; let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]);
 assert!(d.contains(&1)); }
#[cfg(test)] #[test] fn t_root_map_81() { root_map_81() }
pub fn root_own_0() { let b = Box::new(P { a: 1, b: "x".into() }); }
#[cfg(test)] #[test] fn t_root_own_0() { root_own_0() }
pub fn root_own_1() { let b = Box::new(P { a: 1, b: "x".into() });
 assert!(b.a == 1); }
#[cfg(test)] #[test] fn t_root_own_1() { root_own_1() }
pub fn root_own_2() { let b = Box::new(P { a: 1, b: "x".into() });
 assert!(b.b == "x"); }
#[cfg(test)] #[test] fn t_root_own_2() { root_own_2() }
pub fn root_own_3() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; }
#[cfg(test)] #[test] fn t_root_own_3() { root_own_3() }
pub fn root_own_4() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); }
#[cfg(test)] #[test] fn t_root_own_4() { root_own_4() }
pub fn root_own_5() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone();
 assert!(p == q); }
#[cfg(test)] #[test] fn t_root_own_5() { root_own_5() }
pub fn root_own_6() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone();
 assert!(p <= q); }
#[cfg(test)] #[test] fn t_root_own_6() { root_own_6() }
pub fn root_own_7() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; }
#[cfg(test)] #[test] fn t_root_own_7() { root_own_7() }
pub fn root_own_8() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p;
 assert!(a == 1); }
#[cfg(test)] #[test] fn t_root_own_8() { root_own_8() }
pub fn root_own_9() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p;
 assert!(b == "x"); }
#[cfg(test)] #[test] fn t_root_own_9() { root_own_9() }
pub fn root_own_10() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; }
#[cfg(test)] #[test] fn t_root_own_10() { root_own_10() }
pub fn root_own_11() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q };
 assert!(r.a == 2); }
#[cfg(test)] #[test] fn t_root_own_11() { root_own_11() }
pub fn root_own_12() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q };
 assert!(r.b == "x"); }
#[cfg(test)] #[test] fn t_root_own_12() { root_own_12() }
pub fn root_own_13() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q };
 assert!(r == P { a: 2, b: "x".to_string() }); }
#[cfg(test)] #[test] fn t_root_own_13() { root_own_13() }
pub fn root_own_14() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q };
 assert!(r > P::default()); }
#[cfg(test)] #[test] fn t_root_own_14() { root_own_14() }
pub fn root_own_15() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); }
#[cfg(test)] #[test] fn t_root_own_15() { root_own_15() }
pub fn root_own_16() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1);
 assert!(f(1) == 2); }
#[cfg(test)] #[test] fn t_root_own_16() { root_own_16() }
pub fn root_own_17() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; }
#[cfg(test)] #[test] fn t_root_own_17() { root_own_17() }
pub fn root_own_18() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2;
 assert!([f(1), g(2)] == [2, 4]); }
#[cfg(test)] #[test] fn t_root_own_18() { root_own_18() }
pub fn root_own_19() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; }
#[cfg(test)] #[test] fn t_root_own_19() { root_own_19() }
pub fn root_own_20() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; }
#[cfg(test)] #[test] fn t_root_own_20() { root_own_20() }
pub fn root_own_21() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n };
 assert!(h() == 1); }
#[cfg(test)] #[test] fn t_root_own_21() { root_own_21() }
pub fn root_own_23() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } }
#[cfg(test)] #[test] fn t_root_own_23() { root_own_23() }
pub fn root_own_24() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) }
 assert!(ap(|s| s.len()) == 3); }
#[cfg(test)] #[test] fn t_root_own_24() { root_own_24() }
pub fn root_own_25() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); }
#[cfg(test)] #[test] fn t_root_own_25() { root_own_25() }
pub fn root_own_26() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); }
#[cfg(test)] #[test] fn t_root_own_26() { root_own_26() }
pub fn root_own_27() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; }
#[cfg(test)] #[test] fn t_root_own_27() { root_own_27() }
pub fn root_own_28() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1;
 assert!(*r.borrow() == 2); }
#[cfg(test)] #[test] fn t_root_own_28() { root_own_28() }
pub fn root_own_29() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1;
 assert!(std::rc::Rc::strong_count(&r) == 2); }
#[cfg(test)] #[test] fn t_root_own_29() { root_own_29() }
pub fn root_own_30() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1;
 assert!(std::rc::Rc::ptr_eq(&r, &r2)); }
#[cfg(test)] #[test] fn t_root_own_30() { root_own_30() }
pub fn root_own_31() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); }
#[cfg(test)] #[test] fn t_root_own_31() { root_own_31() }
pub fn root_own_32() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); }
#[cfg(test)] #[test] fn t_root_own_32() { root_own_32() }
pub fn root_own_33() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1);
 assert!(c.get() == 2); }
#[cfg(test)] #[test] fn t_root_own_33() { root_own_33() }
pub fn root_own_34() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1);
 assert!(c.replace(5) == 2); }
#[cfg(test)] #[test] fn t_root_own_34() { root_own_34() }
pub fn root_own_36() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1);
 assert!(K::B(3) == K::B(3)); }
#[cfg(test)] #[test] fn t_root_own_36() { root_own_36() }
pub fn root_own_37() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1);
 assert!(K::A < K::B(0)); }
#[cfg(test)] #[test] fn t_root_own_37() { root_own_37() }
pub fn root_own_38() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1);
 assert!(K::C { x: 1 } > K::B(9)); }
#[cfg(test)] #[test] fn t_root_own_38() { root_own_38() }
pub fn root_own_39() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1);
 assert!(K::A != K::B(0)); }
#[cfg(test)] #[test] fn t_root_own_39() { root_own_39() }
pub fn root_own_40() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; }
#[cfg(test)] #[test] fn t_root_own_40() { root_own_40() }
pub fn root_own_42() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; }
#[cfg(test)] #[test] fn t_root_own_42() { root_own_42() }
pub fn root_own_43() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() };
 assert!(x == 2); }
#[cfg(test)] #[test] fn t_root_own_43() { root_own_43() }
pub fn root_own_44() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() };
 assert!(matches!(k, K::C { x: 1..=3 })); }
#[cfg(test)] #[test] fn t_root_own_44() { root_own_44() }
pub fn root_own_45() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() };
 assert!(format!("{:?}", K::A) == "A"); }
#[cfg(test)] #[test] fn t_root_own_45() { root_own_45() }
pub fn root_own_46() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); }
#[cfg(test)] #[test] fn t_root_own_46() { root_own_46() }
pub fn root_own_47() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } }
#[cfg(test)] #[test] fn t_root_own_47() { root_own_47() }
pub fn root_own_48() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); }
#[cfg(test)] #[test] fn t_root_own_48() { root_own_48() }
pub fn root_own_49() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } }
#[cfg(test)] #[test] fn t_root_own_49() { root_own_49() }
pub fn root_own_50() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); }
 assert!(c.get() == 5); }
#[cfg(test)] #[test] fn t_root_own_50() { root_own_50() }
pub fn root_own_51() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } }
#[cfg(test)] #[test] fn t_root_own_51() { root_own_51() }
pub fn root_own_52() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); }
#[cfg(test)] #[test] fn t_root_own_52() { root_own_52() }
pub fn root_own_53() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } }
#[cfg(test)] #[test] fn t_root_own_53() { root_own_53() }
pub fn root_own_54() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); }
#[cfg(test)] #[test] fn t_root_own_54() { root_own_54() }
pub fn root_own_55() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } }
#[cfg(test)] #[test] fn t_root_own_55() { root_own_55() }
pub fn root_own_56() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; }
#[cfg(test)] #[test] fn t_root_own_56() { root_own_56() }
pub fn root_own_57() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))];
 assert!(v.iter().map(|s| s.two()).sum::<u32>() == 20); }
#[cfg(test)] #[test] fn t_root_own_57() { root_own_57() }
pub fn root_own_58() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } }
#[cfg(test)] #[test] fn t_root_own_58() { root_own_58() }
pub fn root_own_59() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) }
 assert!(im(3).sum::<u32>() == 6); }
#[cfg(test)] #[test] fn t_root_own_59() { root_own_59() }
pub fn root_own_60() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } }
#[cfg(test)] #[test] fn t_root_own_60() { root_own_60() }
pub fn root_own_61() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) }
 assert!(dy(&[1, 2]).sum::<u32>() == 3); }
#[cfg(test)] #[test] fn t_root_own_61() { root_own_61() }
pub fn root_own_62() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; }
#[cfg(test)] #[test] fn t_root_own_62() { root_own_62() }
pub fn root_own_63() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } };
 assert!(l == 3); }
#[cfg(test)] #[test] fn t_root_own_63() { root_own_63() }
pub fn root_own_64() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 }; }
#[cfg(test)] #[test] fn t_root_own_64() { root_own_64() }
pub fn root_own_65() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 };
 assert!(x == 2); }
#[cfg(test)] #[test] fn t_root_own_65() { root_own_65() }
pub fn root_own_66() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 }; const Z: [&str; 2] = ["p", "q"]; }
#[cfg(test)] #[test] fn t_root_own_66() { root_own_66() }
pub fn root_own_67() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 }; const Z: [&str; 2] = ["p", "q"]; static W: &[(char, &str)] = &[('a', "x"), ('b', "y")]; }
#[cfg(test)] #[test] fn t_root_own_67() { root_own_67() }
pub fn root_own_68() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 }; const Z: [&str; 2] = ["p", "q"]; static W: &[(char, &str)] = &[('a', "x"), ('b', "y")];
 assert!(Z[1] == "q"); }
#[cfg(test)] #[test] fn t_root_own_68() { root_own_68() }
pub fn root_own_69() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 }; const Z: [&str; 2] = ["p", "q"]; static W: &[(char, &str)] = &[('a', "x"), ('b', "y")];
 assert!(W.iter().find(|(c, _)| *c == 'b').unwrap().1 == "y"); }
#[cfg(test)] #[test] fn t_root_own_69() { root_own_69() }
pub fn root_own_71() { let b = Box::new(P { a: 1, b: "x".into() }); let p = *b; let q = p.clone(); let P { a, b } = p; let r = P { a: 2, ..q }; let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); let g: fn(i32) -> i32 = |x| x * 2; let mut n = 0; let mut h = || { n += 1; n }; fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; let c = std::cell::Cell::new(1); c.set(c.get() + 1); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; let x = { let y = 1; y + 1 }; const Z: [&str; 2] = ["p", "q"]; static W: &[(char, &str)] = &[('a', "x"), ('b', "y")]; let lz = std::sync::OnceLock::new();
 assert!(*lz.get_or_init(|| 3) == 3); }
#[cfg(test)] #[test] fn t_root_own_71() { root_own_71() }
