// Programs over the standard library with known answers: run natively (cargo test) and
// through the abstract interpreter, they must agree.  Used only to validate the models.
#![allow(dead_code, clippy::all)]
pub mod env;
pub mod models;
use std::collections::*;

macro_rules! t {
    ($($n:ident $b:block)*) => {
        $(pub fn $n() $b)*
        #[cfg(test)] mod tests { $(#[test] fn $n() { super::$n() })* }
    };
}
fn id<T>(x: T) -> T { x }
fn opt(n: i32) -> Option<i32> { if n > 0 { Some(n) } else { None } }
fn res(n: i32) -> Result<i32, String> { if n > 0 { Ok(n) } else { Err("neg".to_string()) } }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
struct P { a: u32, b: String }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum K { A, B(u8), C { x: u8 } }

t! {
    root_opt {
        assert!(opt(1).map(|x| x + 1) == Some(2));
        assert!(opt(-1).map_or(5, |x| x + 1) == 5);
        assert!(opt(1).map_or_else(|| 7, |x| x) == 1);
        assert!(opt(1).and_then(|x| opt(x - 1)).is_none());
        assert!(opt(1).filter(|x| *x > 3).is_none());
        assert!(opt(1).or(Some(3)) == Some(1));
        assert!(opt(0).or_else(|| Some(3)) == Some(3));
        assert!(opt(0).unwrap_or(4) == 4);
        assert!(opt(0).unwrap_or_default() == 0);
        assert!(opt(0).unwrap_or_else(|| 9) == 9);
        assert!(opt(2).ok_or("e") == Ok(2));
        assert!(opt(0).ok_or_else(|| "e") == Err("e"));
        assert!(opt(2).is_some_and(|x| x == 2));
        assert!(opt(0).is_none_or(|x| x == 2));
        assert!(opt(2).xor(None) == Some(2));
        assert!(opt(2).zip(opt(3)) == Some((2, 3)));
        let mut o = opt(2);
        assert!(o.take() == Some(2) && o.is_none());
        assert!(*o.get_or_insert(4) == 4);
        assert!(*o.get_or_insert_with(|| 5) == 4);
        assert!(o.replace(8) == Some(4) && o == Some(8));
        assert!(*o.insert(1) == 1);
        if let Some(x) = o.as_mut() { *x += 1; }
        assert!(o.as_ref().copied() == Some(2));
        assert!(o.iter().count() == 1);
        assert!(Some(Some(1)).flatten() == Some(1));
        assert!(Some(&1).cloned() == Some(1));
        let s = Some("ab".to_string());
        assert!(s.as_deref() == Some("ab"));
        assert!(s.clone().unwrap() == "ab" && s.expect("x").len() == 2);
        let t: Result<Option<i32>, String> = Some(res(1)).transpose();
        assert!(t == Ok(Some(1)));
        assert!(o.inspect(|_| ()).into_iter().next() == Some(2));
        assert!(Some(1) < Some(2) && None < Some(1));
        assert!(o.take_if(|x| *x == 2) == Some(2));
    }
    root_res {
        assert!(res(1).map(|x| x + 1) == Ok(2));
        assert!(res(0).map_err(|x| x.len()) == Err(3));
        assert!(res(1).and_then(|x| res(x - 1)).is_err());
        assert!(res(1).ok() == Some(1) && res(0).err() == Some("neg".to_string()));
        assert!(res(0).unwrap_or(3) == 3 && res(0).unwrap_or_else(|e| e.len() as i32) == 3 && res(0).unwrap_or_default() == 0);
        assert!(res(0).or_else(|_| res(1)) == Ok(1));
        assert!(res(1).is_ok_and(|x| x == 1) && res(0).is_err_and(|x| x == "neg"));
        assert!(res(1).iter().count() == 1);
        assert!(res(1).map_or(3, |x| x) == 1 && res(0).map_or_else(|e| e.len() as i32, |x| x) == 3);
        assert!(res(1).and(res(2)) == Ok(2));
        assert!(res(1).as_ref().unwrap() == &1);
        let r: Option<Result<i32, String>> = Ok(Some(1)).transpose();
        assert!(r == Some(Ok(1)));
        fn q() -> Result<i32, String> { let a = res(1)?; let b = res(2)?; Ok(a + b) }
        assert!(q() == Ok(3));
        fn w() -> Option<i32> { let a = opt(1)?; let b = opt(0)?; Some(a + b) }
        assert!(w().is_none());
        let v: Result<Vec<i32>, String> = vec![res(1), res(0), res(2)].into_iter().collect();
        assert!(v == Err("neg".to_string()));
        let v: Result<Vec<i32>, String> = vec![res(1), res(2)].into_iter().collect();
        assert!(v == Ok(vec![1, 2]));
        let v: Option<Vec<i32>> = [1, 2].iter().map(|x| opt(*x)).collect();
        assert!(v == Some(vec![1, 2]));
    }
    root_vec1 {
        let mut v = vec![1u32, 2, 3];
        v.extend([4, 5]);
        v.extend_from_slice(&[6]);
        v.extend(&[7]);
        assert!(v.len() == 7 && v == [1, 2, 3, 4, 5, 6, 7]);
        assert!(v.iter().sum::<u32>() == 28);
        assert!(v.iter().map(|x| x * 2).max() == Some(14));
        assert!(v.iter().min_by_key(|x| 10 - **x) == Some(&7));
        assert!(v.iter().copied().filter(|x| x % 2 == 0).collect::<Vec<_>>() == vec![2, 4, 6]);
        assert!(v.iter().rev().take(2).cloned().collect::<Vec<_>>() == [7, 6]);
        assert!(v.iter().skip(5).count() == 2);
        assert!(v.iter().enumerate().map(|(i, x)| i as u32 * x).fold(0, |a, b| a + b) == 2 + 6 + 12 + 20 + 30 + 42);
        assert!(v.iter().zip(v.iter().skip(1)).all(|(a, b)| a + 1 == *b));
        assert!(v.iter().any(|x| *x == 3) && v.contains(&3));
        assert!(v.iter().position(|x| *x == 3) == Some(2));
        assert!(v.iter().rposition(|x| *x == 3) == Some(2));
        assert!(v.iter().take_while(|x| **x < 3).count() == 2);
        assert!(v.iter().skip_while(|x| **x < 3).next() == Some(&3));
        assert!(v.iter().chain([9].iter()).last() == Some(&9));
        assert!(v.iter().step_by(3).copied().collect::<Vec<_>>() == [1, 4, 7]);
        assert!(v.iter().flat_map(|x| vec![*x; (*x % 3) as usize]).count() == 1 + 2 + 0 + 1 + 2 + 0 + 1);
        assert!(v.iter().filter_map(|x| if *x > 5 { Some(x + 1) } else { None }).product::<u32>() == 56);
        assert!(v.iter().scan(0, |a, x| { *a += x; Some(*a) }).last() == Some(28));
        assert!(v.iter().try_fold(0u32, |a, x| a.checked_add(*x)) == Some(28));
        assert!(v.iter().nth(2) == Some(&3) && v.get(9).is_none() && v.first() == Some(&1) && v.last() == Some(&7));
        assert!(v.iter().partition::<Vec<u32>, _>(|x| **x > 3).0.len() == 4);
        assert!(v.iter().cmp([1, 2].iter()) == std::cmp::Ordering::Greater);
        assert!(v.iter().eq(v.clone().iter()));
        let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x + 1)).unzip();
        assert!(a.len() == b.len() && b[0] == 2);
        let mut it = v.iter().peekable();
        while let Some(x) = it.next() { if it.peek().is_none() { assert!(*x == 7); } }
        let mut it = v.iter().peekable();
        assert!(it.next_if(|x| **x == 1).is_some() && it.next_if_eq(&&3).is_none());
        assert!(v.iter().inspect(|_| ()).size_hint().0 <= 7);
        assert!(v.iter().reduce(|a, b| if a > b { a } else { b }) == Some(&7));
        assert!(v.iter().max_by(|a, b| a.cmp(b)) == Some(&7));
        assert!(v.iter().find_map(|x| if *x == 2 { Some("x") } else { None }) == Some("x"));
    }
    root_vec2 {
        let mut v = vec![3u32, 1, 2];
        v.sort();
        assert!(v == [1, 2, 3]);
        v.sort_by(|a, b| b.cmp(a));
        assert!(v == [3, 2, 1]);
        v.sort_unstable_by_key(|x| *x);
        v.reverse();
        v.dedup();
        v.retain(|x| *x != 2);
        assert!(v == [3, 1]);
        v.insert(1, 7);
        assert!(v.remove(0) == 3);
        assert!(v.swap_remove(0) == 7 && v == [1]);
        v.append(&mut vec![5, 6]);
        assert!(v.drain(..).collect::<Vec<_>>() == [1, 5, 6] && v.is_empty());
        v.resize(3, 9);
        v.truncate(2);
        assert!(v.pop() == Some(9));
        v.push(4);
        v.swap(0, 1);
        assert!(v[..] == [4, 9] && v[1..] == [9] && v[..1].len() == 1);
        let w = v.split_off(1);
        assert!(w == [9] && v == [4]);
        assert!([v.clone(), w.clone()].concat() == [4, 9]);
        assert!(vec![1, 2, 3, 4].chunks(2).map(|c| c.len()).sum::<usize>() == 4);
        assert!(vec![1, 2, 3, 4].windows(2).count() == 3);
        assert!([1, 2, 3].binary_search(&2) == Ok(1) && [1, 2, 4].binary_search(&3) == Err(2));
        assert!([1, 2, 3].partition_point(|x| *x < 3) == 2);
        assert!([1, 2, 3].starts_with(&[1]) && [1, 2, 3].ends_with(&[3]));
        assert!([1, 2, 3].split_first() == Some((&1, &[2, 3][..])) && [1, 2].split_last() == Some((&2, &[1][..])));
        let (a, b) = [1, 2, 3].split_at(1);
        assert!(a == [1] && b.len() == 2);
        for x in v.iter_mut() { *x += 1; }
        for x in &mut v { *x += 1; }
        assert!(v == [6]);
        if let Some(x) = v.last_mut() { *x = 0; }
        if let Some(x) = v.first_mut() { *x += 2; }
        if let Some(x) = v.get_mut(0) { *x += 2; }
        assert!(v == vec![4]);
        let b = v.into_boxed_slice();
        assert!(b.len() == 1 && b.iter().count() == 1 && b.to_vec() == vec![4]);
        match [1, 2, 3].as_slice() { [a, .., c] => assert!(*a == 1 && *c == 3), _ => panic!() }
        match &[1, 2, 3][..] { [a, rest @ ..] => assert!(*a == 1 && rest.len() == 2), _ => panic!() }
        assert!([[1, 2], [3, 4]].concat() == [1, 2, 3, 4] && [[1], [3]].iter().flatten().count() == 2);
        assert!([1, 2, 3].map(|x| x + 1) == [2, 3, 4]);
        assert!(std::array::from_fn::<usize, 3, _>(|i| i * 2) == [0, 2, 4]);
        let mut f = [0u8; 4]; f[1..3].copy_from_slice(&[1, 2]); assert!(f == [0, 1, 2, 0]);
        f.fill(7); assert!(f == [7; 4]);
        f.rotate_left(1);
        assert!(vec![0; 3].iter().all(|x| *x == 0));
        assert!(vec![P::default(); 2].len() == 2);
        let mut s = vec![1, 2, 3, 4]; s.splice(1..2, [9, 9]); assert!(s == [1, 9, 9, 3, 4]);
        assert!(s.drain(1..3).count() == 2 && s == [1, 3, 4]);
        assert!(s.iter().is_sorted() && !s.is_empty());
        assert!(s.repeat(2).len() == 6);
        assert!(s.extract_if(.., |x| *x > 3).count() == 1);
        assert!(s > vec![1] && s.cmp(&vec![1, 3]) == std::cmp::Ordering::Equal);
    }
    root_iter {
        assert!((0..4).map(|x| x * x).collect::<Vec<_>>() == [0, 1, 4, 9]);
        assert!((0..=4).rev().collect::<Vec<_>>() == [4, 3, 2, 1, 0]);
        assert!((0..4).contains(&3) && !(0..=4).contains(&5));
        assert!((1..).take(3).sum::<i32>() == 6);
        assert!(std::iter::repeat(1).take(3).count() == 3);
        assert!(std::iter::once(1).chain(std::iter::empty()).count() == 1);
        assert!(std::iter::successors(Some(1), |x| if *x < 8 { Some(x * 2) } else { None }).last() == Some(8));
        assert!(std::iter::from_fn({ let mut n = 0; move || { n += 1; if n < 4 { Some(n) } else { None } } }).sum::<i32>() == 6);
        assert!(std::iter::repeat_with(|| 2).take(2).product::<i32>() == 4);
        assert!(std::iter::zip([1, 2], [3, 4]).map(|(a, b)| a * b).sum::<i32>() == 11);
        let mut i = 0;
        while i < 3 { i += 1; }
        for (i, c) in ["a", "b"].into_iter().enumerate() { assert!(c.len() == 1 && i < 2); }
        let mut it = [1, 2, 3].into_iter();
        let t: Vec<_> = it.by_ref().take(2).collect();
        assert!(t == [1, 2] && it.next() == Some(3));
        assert!([3, 1, 2].into_iter().min() == Some(1));
        assert!(["a", "b"].iter().map(|s| s.to_string()).collect::<Vec<String>>().join("-") == "a-b");
        assert!([Some(1), None, Some(3)].into_iter().flatten().sum::<i32>() == 4);
        assert!((0..10).step_by(4).collect::<Vec<_>>() == [0, 4, 8]);
        assert!((0..3).cycle().take(5).last() == Some(1));
        assert!((1..=3).try_for_each(|x| if x < 5 { Ok(()) } else { Err(x) }).is_ok());
        assert!((1..=3).map_while(|x| if x < 3 { Some(x) } else { None }).count() == 2);
        assert!((1..=3).min_by(|a, b| b.cmp(a)) == Some(3));
        assert!((0..5).filter(|x| x % 2 == 1).nth(1) == Some(3));
        assert!((0..0).next().is_none() && (0..3).len() == 3 && (0..3).is_empty() == false);
        assert!((0..5).skip(1).step_by(2).collect::<VecDeque<_>>().len() == 2);
        let r = 3..5; assert!(r.start == 3 && r.end == 5);
        let mut r = 0..3; assert!(r.next_back() == Some(2) && r.nth(1) == Some(1));
        assert!([1, 2, 3].iter().copied().rev().enumerate().last() == Some((2, 1)));
        assert!([1, 2, 3].iter().rev().skip_while(|x| **x > 2).map(|x| *x).collect::<Vec<i32>>() == [2, 1]);
        assert!([1, 5, 2].iter().rfind(|x| **x > 1) == Some(&2));
        assert!([1, 5, 2].iter().rfold(0, |a, x| a * 10 + x) == 251);
        assert!([(1, 'a'), (2, 'b')].iter().find(|(k, _)| *k == 2).map(|(_, v)| *v) == Some('b'));
        assert!([1, 2, 3, 4].into_iter().filter(|x| x % 2 == 0).map(|x| x * 10).rev().collect::<Vec<_>>() == [40, 20]);
    }
}
pub mod s2;
