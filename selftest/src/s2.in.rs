use super::*;
t! {
    root_str1 {
        let mut s = String::new();
        s.push('a'); s.push_str("bc"); s += "d"; s = s + "e"; s.extend(['f', 'g']); s.extend(["h"]);
        assert!(s == "abcdefgh" && s.len() == 8 && !s.is_empty() && "abcdefgh" == s);
        assert!(s.starts_with("ab") && s.starts_with('a') && s.ends_with("gh") && s.contains("cd") && s.contains('e'));
        assert!(s.find('c') == Some(2) && s.find("zz").is_none() && s.rfind('c') == Some(2));
        assert!(s.find(|c: char| c > 'd') == Some(4));
        assert!(&s[1..3] == "bc" && &s[..2] == "ab" && &s[6..] == "gh" && s.get(0..2) == Some("ab") && s.get(7..10).is_none());
        assert!(s.chars().rev().collect::<String>() == "hgfedcba");
        assert!(s.chars().nth(1) == Some('b') && s.chars().last() == Some('h') && s.chars().count() == 8 && s.chars().next() == Some('a'));
        assert!(s.chars().all(|c| c.is_ascii_lowercase()) && s.chars().any(|c| c == 'c') && s.chars().position(|c| c == 'c') == Some(2));
        assert!(s.char_indices().map(|(i, _)| i).sum::<usize>() == 28 && s.bytes().map(|b| b as u32).sum::<u32>() > 0);
        assert!(s.as_bytes()[0] == b'a' && s.bytes().next() == Some(97));
        assert!(s.pop() == Some('h') && s.remove(0) == 'a' && s == "bcdefg");
        s.insert(0, 'x'); s.insert_str(1, "yz"); assert!(s == "xyzbcdefg");
        s.truncate(3); assert!(s == "xyz"); s.clear(); assert!(s.is_empty());
        assert!("a".to_string() == String::from("a") && "a".to_owned() == "a" && Into::<String>::into("a") == "a");
        assert!(String::from('a') == "a" && 'a'.to_string() == "a" && 12.to_string() == "12");
        assert!(format!("{}-{}", "a", 'b') == "a-b" && format!("x{}y", 3) == "x3y" && format!("{:02x}", 5) == "05" && format!("{:04X}", 0xab) == "00AB");
        let n = "q"; assert!(format!("{n}{n}") == "qq" && format!("lit") == "lit");
        assert!(["a", "b"].concat() == "ab" && ["a", "b"].join(",") == "a,b" && vec!["a".to_string(), "b".to_string()].join("") == "ab");
        assert!("ab".repeat(2) == "abab" && "a".cmp("b") == std::cmp::Ordering::Less && "a" < "b");
        assert!("a".eq("a") && "a" != "b" && String::from("b") > String::from("a"));
        assert!("aBc".to_uppercase() == "ABC" && "aBc".to_ascii_lowercase() == "abc" && "a".eq_ignore_ascii_case("A"));
        let cow: std::borrow::Cow<str> = "a".into(); assert!(cow == "a" && cow.into_owned() == "a");
        let b: Box<str> = "ab".into(); assert!(&*b == "ab" && b.len() == 2 && String::from(b) == "ab");
        match "x" { "y" => panic!(), "x" => (), _ => panic!() }
        assert!("5".parse::<u32>() == Ok(5) && "x".parse::<i64>().is_err());
        let mut w = String::with_capacity(4); write!(w, "{}", 1).unwrap(); w.write_char('c').unwrap(); w.write_str("d").unwrap(); assert!(w == "1cd");
        let mut t = "abc".to_string(); t.replace_range(0..1, "zz"); assert!(t == "zzbc"); t.retain(|c| c != 'z'); assert!(t == "bc");
        assert!(t.drain(..1).collect::<String>() == "b" && t == "c");
        assert!(std::mem::take(&mut t) == "c" && t == "" && t.is_char_boundary(0));
    }
    root_str2 {
        let p = "a/b/c";
        assert!(p.split('/').collect::<Vec<_>>() == ["a", "b", "c"] && p.split("/").count() == 3 && p.split(|c| c == '/').last() == Some("c"));
        assert!(p.rsplit('/').next() == Some("c") && p.split_once('/') == Some(("a", "b/c")) && p.rsplit_once('/') == Some(("a/b", "c")));
        assert!(p.split_at(1) == ("a", "/b/c") && p.strip_prefix("a/") == Some("b/c") && p.strip_suffix('c') == Some("a/b/") && p.strip_prefix('z').is_none());
        assert!(p.replace("/", "-") == "a-b-c" && p.replacen('/', "", 1) == "ab/c" && p.matches('/').count() == 2);
        assert!(" a ".trim() == "a" && "xxa".trim_start_matches('x') == "a" && "axx".trim_end_matches("x") == "a" && " a".trim_start() == "a" && "a ".trim_end() == "a");
        assert!(p.splitn(2, '/').nth(1) == Some("b/c") && p.rsplitn(2, '/').nth(1) == Some("a/b") && "a/".split_terminator('/').count() == 1);
        assert!("a b  c".split_whitespace().count() == 3 && "a\nb\r\n".lines().count() == 2 && p.split_inclusive('/').next() == Some("a/"));
        assert!(p.split('/').rev().next() == Some("c") && "".split('/').count() == 1 && p.split('/').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<String>>().concat() == "abc");
        assert!(p.rfind('/') == Some(3) && &p[p.rfind('/').unwrap() + 1..] == "c" && p.rfind('/').map(|i| &p[..i]).unwrap_or("") == "a/b");
        assert!("a-b_c".split(['-', '_']).count() == 3 && "a-b_c".split(&['-', '_'][..]).count() == 3 && p.char_indices().rev().find(|(_, c)| *c == '/').map(|(i, _)| i) == Some(3));
        assert!("aé".len() == 3 && "aé".chars().count() == 2 && "é".encode_utf16().count() == 1 && "\u{1F600}".encode_utf16().collect::<Vec<u16>>() == [0xd83d, 0xde00]);
        assert!(String::from_utf8(vec![97]).unwrap() == "a" && std::str::from_utf8(b"a").unwrap() == "a" && String::from_utf16(&[97, 98]).unwrap() == "ab" && String::from_utf16_lossy(&[97]) == "a" && String::from_utf8_lossy(&[97]) == "a");
        assert!(char::decode_utf16([97u16, 98]).map(|r| r.unwrap()).collect::<String>() == "ab");
        assert!("ab".chars().map(|c| c.to_string()).collect::<Vec<_>>().len() == 2 && "ab".chars().flat_map(|c| c.to_uppercase()).collect::<String>() == "AB");
        assert!("abc".chars().skip(1).take(1).collect::<String>() == "b" && "abc".chars().filter(|c| *c != 'b').collect::<String>() == "ac");
        assert!("abc".chars().map(|c| if c == 'a' { 'x' } else { c }).collect::<String>() == "xbc" && "abc".chars().fold(String::new(), |mut a, c| { a.push(c); a }) == "abc");
        assert!("abc".chars().zip("abd".chars()).filter(|(a, b)| a != b).count() == 1 && "abc".chars().enumerate().last() == Some((2, 'c')) && "abc".chars().peekable().peek() == Some(&'a'));
        let mut it = "abc".chars(); it.next(); assert!(it.as_str() == "bc"); let mut cs: Vec<char> = "ba".chars().collect(); cs.sort(); assert!(cs.iter().collect::<String>() == "ab" && cs.into_iter().rev().collect::<String>() == "ba");
    }
    root_char {
        let c = 'a';
        assert!(c.is_alphabetic() && c.is_alphanumeric() && !c.is_numeric() && !c.is_whitespace() && !c.is_control() && c.is_ascii() && c.is_ascii_alphabetic() && c.is_lowercase());
        assert!('1'.is_ascii_digit() && '1'.is_digit(10) && 'f'.is_digit(16) && 'f'.is_ascii_hexdigit() && '1'.to_digit(10) == Some(1) && 'f'.to_digit(16) == Some(15) && '.'.is_ascii_punctuation());
        assert!(char::from_u32(97) == Some('a') && char::from(97u8) == 'a' && char::from_digit(3, 10) == Some('3') && 'a' as u32 == 97 && u32::from('a') == 97 && 97u8 as char == 'a' && u8::try_from('a') == Ok(97) && char::try_from(97u32) == Ok('a'));
        assert!('a'.to_ascii_uppercase() == 'A' && 'A'.to_ascii_lowercase() == 'a' && 'a'.to_uppercase().next() == Some('A') && 'a'.len_utf8() == 1 && '😀'.len_utf16() == 2 && 'a'.eq_ignore_ascii_case(&'A'));
        assert!(('a'..='z').contains(&c) && matches!(c, 'a'..='c') && c < 'b' && ('a'..'d').count() == 3 && c.max('b') == 'b' && "{}".contains('{') && ['a', 'b'].contains(&c));
        let mut b = [0; 4]; assert!('a'.encode_utf8(&mut b) == "a"); let mut w = [0; 2]; assert!('a'.encode_utf16(&mut w).len() == 1);
        assert!(c.escape_default().to_string() == "a" && '"'.escape_debug().count() == 2 && 'a'.cmp(&'b') == std::cmp::Ordering::Less);
    }
    root_num {
        let x = id(5u64);
        assert!(x.checked_add(1) == Some(6) && x.checked_sub(6).is_none() && x.checked_mul(2) == Some(10) && x.checked_div(0).is_none() && x.wrapping_sub(6) == u64::MAX && x.saturating_sub(6) == 0);
        assert!(x.overflowing_add(u64::MAX) == (4, true) && x.pow(2) == 25 && x.leading_zeros() == 61 && x.trailing_zeros() == 0 && x.count_ones() == 2 && x.min(3) == 3 && x.max(9) == 9 && x.clamp(1, 3) == 3);
        assert!(x.abs_diff(7) == 2 && x.is_power_of_two() == false && x.next_power_of_two() == 8 && x.div_ceil(2) == 3 && x.rem_euclid(3) == 2 && 7i32.div_euclid(-2) == -3 && x.ilog2() == 2);
        let i = id(-5i64);
        assert!(i.abs() == 5 && i.signum() == -1 && i.unsigned_abs() == 5 && i.wrapping_neg() == 5 && i.is_negative() && i.checked_neg() == Some(5) && i.saturating_mul(i64::MAX) == i64::MIN && i.checked_abs() == Some(5));
        assert!(u32::try_from(x) == Ok(5) && u8::try_from(300u32).is_err() && i32::try_from(i).is_ok() && u64::from(3u32) == 3 && i64::from(3u32) == 3 && TryInto::<u8>::try_into(5i32) == Ok(5) && usize::try_from(3u64).is_ok() && x as u8 as char == '\u{5}');
        assert!((1u64 << 63).rotate_left(1) == 1 && (x >> 1) == 2 && (x & 4) == 4 && (x | 2) == 7 && (x ^ 1) == 4 && !x == u64::MAX - 5 && x.swap_bytes().swap_bytes() == x && u64::from_le_bytes(x.to_le_bytes()) == x);
        assert!(u64::from_str_radix("ff", 16) == Ok(255) && x.cmp(&6) == std::cmp::Ordering::Less && x.partial_cmp(&5) == Some(std::cmp::Ordering::Equal) && std::cmp::max(1, 2) == 2 && std::cmp::min(1, 2) == 1);
        assert!(1.cmp(&2).reverse() == std::cmp::Ordering::Greater && 1.cmp(&1).then(2.cmp(&1)).is_gt() && 1.cmp(&1).then_with(|| 2.cmp(&3)).is_lt() && 1.cmp(&2).is_le() && (1, 2) < (1, 3) && (1, "a") == (1, "a"));
        assert!(true.then(|| 1) == Some(1) && false.then_some(1).is_none() && true as u8 == 1 && bool::from(true) && (true ^ false) && !false & true);
        let f = id(1.5f64); assert!(f.to_bits() == 0x3ff8000000000000 && f64::from_bits(f.to_bits()) == 1.5 && f.is_finite() && !f.is_nan() && !f.is_infinite() && f.is_sign_positive() && f.floor() == 1.0 && f as i64 == 1 && f64::NAN.is_nan() && 3 as f64 == 3.0 && f.abs() == 1.5 && -f == -1.5 && f.total_cmp(&2.0).is_lt() && f.to_string() == "1.5");
        let (a, b) = id((1, 2)); assert!(a + b == 3); let mut t = (1, 2); t.0 += 1; std::mem::swap(&mut t.0, &mut 9); assert!(t == (9, 2)); assert!(std::mem::replace(&mut t.0, 1) == 9);
        assert!(u128::from(x) * 3 == 15 && (x as u128 >> 1) as u64 == 2 && x.widening_mulx() == 10);
    }
    root_map {
        let mut m: BTreeMap<String, i32> = BTreeMap::new(); m.insert("a".into(), 2); m.insert("b".into(), 3);
        assert!(m.insert("c".to_string(), 1).is_none() && m.insert("b".to_string(), 2) == Some(3));
        assert!(m.get("a") == Some(&2) && m.contains_key("b") && m.len() == 2 && !m.is_empty() && m["a"] == 2);
        assert!(m.iter().map(|(k, v)| format!("{k}{v}")).collect::<String>() == "a2b3" && m.keys().cloned().collect::<Vec<_>>() == ["a", "b"] && m.values().sum::<i32>() == 5);
        *m.entry("c".to_string()).or_insert(0) += 7; assert!(m["c"] == 7 && *m.entry("c".into()).or_default() == 7 && m.entry("a".into()).and_modify(|x| *x += 1).or_insert_with(|| 0) == &3);
        if let Some(x) = m.get_mut("a") { *x = 0; } for (_, v) in m.iter_mut() { *v += 1; } for (k, v) in &m { assert!(!k.is_empty() && *v > 0); }
        assert!(m.remove("c") == Some(8) && m.remove("zz").is_none() && m.first_key_value().unwrap().0 == "a" && m.last_key_value().unwrap().0 == "b" && m.get_key_value("a").is_some());
        let v: Vec<(String, i32)> = m.clone().into_iter().collect(); assert!(v.len() == 2 && v[0].0 == "a");
        let m2: BTreeMap<String, i32> = v.into_iter().collect(); assert!(m == m2); let m3 = BTreeMap::from([(1, 2)]); assert!(m3.get(&1).copied() == Some(2) && m3.range(0..).count() == 1); m.extend(m2.into_iter()); m.retain(|_, v| *v > 0); m.clear();
        match m.entry("q".into()) { btree_map::Entry::Vacant(e) => { e.insert(1); } btree_map::Entry::Occupied(_) => panic!() } match m.entry("q".into()) { btree_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; assert!(e.get() == &2); e.remove(); } _ => panic!() }
        let mut s: BTreeSet<i32> = BTreeSet::new(); s.insert(7); assert!(s.insert(2) && !s.insert(7) && s.contains(&7) && s.len() == 1 && s.iter().count() == 1 && s.remove(&7) && !s.remove(&2) && !s.is_empty()); let s: BTreeSet<i32> = [3, 1].into_iter().collect(); assert!(s.into_iter().collect::<Vec<_>>() == [1, 3]);
        let mut h: HashMap<String, i32> = HashMap::new(); h.insert("a".into(), 1); assert!(h.insert("c".into(), 1).is_none() && h.get("a") == Some(&1) && h.contains_key("a") && h.len() == 1 && h.remove("a") == Some(1) && h.is_empty()); *h.entry("z".into()).or_insert(1) += 1; assert!(h["z"] == 2 && h.iter().count() == 2 && h.values().count() == 1 && h.keys().count() == 1);
        let mut hs: HashSet<&str> = HashSet::new(); hs.insert("a"); assert!(hs.insert("b") && !hs.insert("a") && hs.contains("a") && hs.len() == 1 && hs.remove("a"));
        let mut d: VecDeque<i32> = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend([2]); assert!(d.len() == 3 && d[0] == 0 && d.front() == Some(&0) && d.back() == Some(&2) && d.pop_front() == Some(0) && d.pop_back() == Some(2) && d.iter().count() == 1 && d.contains(&1) && d.get(0) == Some(&1) && VecDeque::from(vec![1]) == d && d.drain(..).count() == 1 && Vec::from(d).is_empty());
    }
    root_own {
        let b = Box::new(P { a: 1, b: "x".into() }); assert!(b.a == 1 && b.b == "x"); let p = *b; let q = p.clone(); assert!(p == q && p <= q); let P { a, b } = p; assert!(a == 1 && b == "x"); let r = P { a: 2, ..q }; assert!(r.a == 2 && r.b == "x" && r == P { a: 2, b: "x".to_string() } && r > P::default());
        let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + 1); assert!(f(1) == 2); let g: fn(i32) -> i32 = |x| x * 2; assert!([f(1), g(2)] == [2, 4]); let mut n = 0; let mut h = || { n += 1; n }; assert!(h() == 1 && h() == 2); fn ap<F: FnOnce(String) -> usize>(f: F) -> usize { f("abc".into()) } assert!(ap(|s| s.len()) == 3);
        let r = std::rc::Rc::new(std::cell::RefCell::new(1)); let r2 = r.clone(); *r2.borrow_mut() += 1; assert!(*r.borrow() == 2 && std::rc::Rc::strong_count(&r) == 2 && std::rc::Rc::ptr_eq(&r, &r2)); let c = std::cell::Cell::new(1); c.set(c.get() + 1); assert!(c.get() == 2 && c.replace(5) == 2 && c.take() == 5);
        assert!(K::B(3) == K::B(3) && K::A < K::B(0) && K::C { x: 1 } > K::B(9) && K::A != K::B(0)); let k = K::C { x: 2 }; if let K::C { x } = k { assert!(x == 2); } let K::C { x } = k else { panic!() }; assert!(x == 2 && matches!(k, K::C { x: 1..=3 }) && format!("{:?}", K::A) == "A");
        struct D<'a>(&'a std::cell::Cell<u32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } let c = std::cell::Cell::new(0); { let _a = D(&c); drop(D(&c)); let v = vec![D(&c), D(&c)]; assert!(c.get() == 1); drop(v); let o = Some(D(&c)); drop(o); } assert!(c.get() == 5);
        trait Sh { fn area(&self) -> u32; fn two(&self) -> u32 { self.area() * 2 } } struct Sq(u32); impl Sh for Sq { fn area(&self) -> u32 { self.0 * self.0 } } struct Re(u32, u32); impl Sh for Re { fn area(&self) -> u32 { self.0 * self.1 } } let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(2)), Box::new(Re(2, 3))]; assert!(v.iter().map(|s| s.two()).sum::<u32>() == 20); fn im(n: u32) -> impl Iterator<Item = u32> { (0..n).map(|x| x + 1) } assert!(im(3).sum::<u32>() == 6); fn dy<'a>(v: &'a [u32]) -> Box<dyn Iterator<Item = u32> + 'a> { Box::new(v.iter().copied()) } assert!(dy(&[1, 2]).sum::<u32>() == 3);
        let l = 'o: loop { let mut i = 0; loop { i += 1; if i == 3 { break 'o i; } if i > 5 { break; } } }; assert!(l == 3); let x = { let y = 1; y + 1 }; assert!(x == 2); const Z: [&str; 2] = ["p", "q"]; static W: &[(char, &str)] = &[('a', "x"), ('b', "y")]; assert!(Z[1] == "q" && W.iter().find(|(c, _)| *c == 'b').unwrap().1 == "y"); let lz = std::sync::OnceLock::new(); assert!(*lz.get_or_init(|| 3) == 3); let a: std::borrow::Cow<str> = std::borrow::Cow::Borrowed("a"); assert!(a.len() == 1); let e: Result<(), Box<dyn std::error::Error>> = Err("x".into()); assert!(e.is_err()); assert!(<String as Default>::default() == "" && <Vec<u8>>::default().is_empty() && Option::<u8>::default().is_none());
        let s = "ab"; let v: &dyn AsRef<str> = &s; assert!(v.as_ref() == "ab"); let r: &str = s.as_ref(); assert!(r == s); let bs: &[u8] = s.as_ref(); assert!(bs.len() == 2); assert!(std::convert::identity(3) == 3 && std::iter::empty::<u8>().next().is_none()); let t: [u8; 2] = vec![1, 2].try_into().unwrap(); assert!(t == [1, 2]); let t: &[u8; 2] = (&[1u8, 2][..]).try_into().unwrap(); assert!(t[0] == 1); let cf: std::ops::ControlFlow<i32> = (0..5).try_for_each(|x| if x == 3 { std::ops::ControlFlow::Break(x) } else { std::ops::ControlFlow::Continue(()) }); assert!(cf.is_break());
    }
}
trait Wm { fn widening_mulx(self) -> u64; }
impl Wm for u64 { fn widening_mulx(self) -> u64 { ((self as u128) * 2) as u64 } }
