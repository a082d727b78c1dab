//! Uses of the standard library whose results the analyser must predict (selftest.py runs the
//! compiled functions and compares).
use std::collections::*;

fn h(v: &[i64]) -> i64 { let mut a = 7; for x in v { a = (a * 31 + x) % 1_000_003; } a }
fn hs(s: &str) -> i64 { let v: Vec<i64> = s.bytes().map(|b| b as i64).collect(); h(&v) }

macro_rules! tests { ($($n:ident $b:block)*) => { $(pub fn $n() -> i64 { $b })* } }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Copy)]
pub enum E3 { A, B(i32), C { x: i32, y: u8 } }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct P { pub a: i64, pub s: String, pub o: Option<Vec<i64>> }

tests! {
    t_dedup { let mut v = vec![1, 1, 2, 3, 3, 3, 1]; v.dedup(); h(&v) }
    t_retain { let mut v = vec![1, 2, 3, 4, 5]; v.retain(|x| x % 2 == 1); h(&v) }
    t_insert { let mut v = vec![1, 2, 3]; v.insert(1, 9); v.insert(4, 8); h(&v) }
    t_remove { let mut v = vec![1, 2, 3, 4]; let a = v.remove(1); let b = v.swap_remove(0); v.push(a); v.push(b); h(&v) }
    t_drain { let mut v = vec![1, 2, 3, 4, 5]; let d: Vec<i64> = v.drain(1..3).collect(); h(&v) * 3 + h(&d) }
    t_drain_all { let mut v = vec![1, 2, 3]; let mut s = 0; for x in v.drain(..) { s += x; } s * 10 + v.len() as i64 }
    t_split_off { let mut v = vec![1, 2, 3, 4]; let w = v.split_off(1); h(&v) + 5 * h(&w) }
    t_resize { let mut v = vec![1]; v.resize(4, 7); v.truncate(3); h(&v) }
    t_contains { let v = vec![1, 2, 3]; v.contains(&2) as i64 * 2 + v.contains(&5) as i64 }
    t_chunks { let v = [1, 2, 3, 4, 5]; let mut s = 0; for c in v.chunks(2) { s = s * 7 + c.len() as i64 + c[0]; } s }
    t_windows { let v = [1, 2, 3, 4]; v.windows(2).map(|w| w[0] * 10 + w[1]).fold(0, |a, b| a * 100 + b) }
    t_split_at { let v = [1, 2, 3, 4]; let (a, b) = v.split_at(1); h(a) + 3 * h(b) }
    t_split_first { let v = [4, 5, 6]; if let Some((a, r)) = v.split_first() { a * 100 + h(r) } else { 0 } }
    t_split_last { let v = [4, 5, 6]; match v.split_last() { Some((a, r)) => a * 100 + h(r), None => 0 } }
    t_slice_pat { let v = vec![4, 5, 6, 7]; match &v[..] { [a, b, rest @ ..] => a * b + h(rest), _ => 0 } }
    t_slice_pat2 { let v = vec![4, 5]; match v.as_slice() { [] => 0, [x] => *x, [first, .., last] => first * 10 + last } }
    t_zip { let a = [1, 2, 3]; let b = vec![4, 5]; a.iter().zip(b.iter()).map(|(x, y)| x * y).sum() }
    t_zip_skip { let a = vec![1, 2, 3, 4]; a.iter().zip(a.iter().skip(1)).map(|(x, y)| x * 10 + y).sum() }
    t_enumerate { let a = vec![5, 6, 7]; let mut s = 0; for (i, x) in a.iter().enumerate() { s += i as i64 * x; } s }
    t_rev { let a = vec![5, 6, 7]; let v: Vec<i64> = a.iter().rev().cloned().collect(); h(&v) }
    t_rev_range { let mut s = 0; for i in (0..5).rev() { s = s * 3 + i; } s }
    t_step_by { (1..10).step_by(3).map(|x| x as i64).sum() }
    t_incl { let mut s = 0; for i in 2..=5 { s = s * 2 + i; } s }
    t_chain { let a = [1, 2]; let b = [3]; let v: Vec<i64> = a.iter().chain(b.iter()).copied().collect(); h(&v) }
    t_take_while { let v: Vec<i64> = (1..100).take_while(|x| *x < 5).collect(); h(&v) }
    t_skip_while { let v: Vec<i64> = vec![1, 1, 2, 1].into_iter().skip_while(|x| *x < 2).collect(); h(&v) }
    t_filter_map { let v: Vec<i64> = vec![1, 2, 3].into_iter().filter_map(|x| if x > 1 { Some(x * 2) } else { None }).collect(); h(&v) }
    t_flat_map { let v: Vec<i64> = vec![1, 2, 3].into_iter().flat_map(|x| vec![x; x as usize]).collect(); h(&v) }
    t_flatten { let v: Vec<i64> = vec![Some(1), None, Some(3)].into_iter().flatten().collect(); h(&v) }
    t_scan { let v: Vec<i64> = vec![1, 2, 3].into_iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); h(&v) }
    t_peekable { let v = vec![1, 2, 3]; let mut it = v.iter().peekable(); let mut s = 0; while let Some(x) = it.next() { if let Some(y) = it.peek() { s += x * **y; } } s }
    t_max_min { let v = vec![3, 9, 2]; v.iter().max().unwrap() * 10 + v.iter().min().unwrap() }
    t_max_by_key { let v = vec![3i64, -9, 2]; *v.iter().max_by_key(|x| x.abs()).unwrap() }
    t_position { let v = vec![3, 9, 2]; v.iter().position(|x| *x == 9).unwrap() as i64 }
    t_any_all { let v = vec![3, 9, 2]; v.iter().any(|x| *x > 8) as i64 * 2 + v.iter().all(|x| *x > 2) as i64 }
    t_find { let v = vec![3, 9, 2]; *v.iter().find(|x| **x > 5).unwrap() }
    t_count_last_nth { let v = vec![3, 9, 2]; v.iter().count() as i64 * 100 + v.iter().last().unwrap() * 10 + v.iter().nth(1).unwrap() }
    t_collect_result { let r: Result<Vec<i64>, std::num::ParseIntError> = "1 2 3".split(' ').map(|x| x.parse::<i64>()).collect(); h(&r.unwrap()) }
    t_collect_result_err { let r: Result<Vec<i64>, std::num::ParseIntError> = "1 x 3".split(' ').map(|x| x.parse::<i64>()).collect(); r.is_err() as i64 }
    t_collect_option { let r: Option<Vec<i64>> = vec![Some(1), None].into_iter().collect(); r.is_none() as i64 }
    t_try_fold { let v = vec![1i64, 2, 3]; v.iter().try_fold(0i64, |a, x| a.checked_add(*x)).unwrap() }
    t_unzip { let (a, b): (Vec<i64>, Vec<i64>) = vec![(1, 2), (3, 4)].into_iter().unzip(); h(&a) + 3 * h(&b) }
    t_from_fn { let mut n = 0; let v: Vec<i64> = std::iter::from_fn(|| { n += 1; if n < 5 { Some(n) } else { None } }).collect(); h(&v) }
    t_successors { let v: Vec<i64> = std::iter::successors(Some(1i64), |x| if *x < 50 { Some(x * 3) } else { None }).collect(); h(&v) }
    t_repeat_take { let v: Vec<i64> = std::iter::repeat(4).take(3).collect(); h(&v) }
    t_once { let v: Vec<i64> = std::iter::once(1).chain(2..4).collect(); h(&v) }
    t_extend { let mut v = vec![1]; v.extend(vec![2, 3]); v.extend(&[4, 5]); v.extend_from_slice(&[6]); v.extend(7..9); h(&v) }
    t_append { let mut v = vec![1]; let mut w = vec![2, 3]; v.append(&mut w); h(&v) + w.len() as i64 }
    t_iter_mut { let mut v = vec![1, 2, 3]; for x in v.iter_mut() { *x *= 2; } for x in &mut v { *x += 1; } h(&v) }
    t_last_mut { let mut v = vec![1, 2]; if let Some(x) = v.last_mut() { *x = 9; } if let Some(x) = v.first_mut() { *x += 4; } h(&v) }
    t_swap_reverse { let mut v = vec![1, 2, 3, 4]; v.swap(0, 2); v.reverse(); h(&v) }
    t_sort { let mut v = vec![3, 1, 2]; v.sort(); let mut w = vec![3i64, 1, 2]; w.sort_by(|a, b| b.cmp(a)); w.sort_unstable_by_key(|x| (x - 2).abs()); h(&v) + 7 * h(&w) }
    t_vec_eq { (vec![1, 2] == vec![1, 2]) as i64 + 2 * (vec![1] == [2]) as i64 + 4 * (&[1, 2][..] == &[1, 2][..]) as i64 + 8 * ([1, 2] == [1, 2]) as i64 }
    t_derive_eq { let a = P { a: 1, s: "x".to_string(), o: Some(vec![1]) }; let b = a.clone(); (a == b) as i64 * 2 + (a == P::default()) as i64 }
    t_enum_eq { (E3::A == E3::A) as i64 + 2 * (E3::B(1) == E3::B(2)) as i64 + 4 * (E3::C { x: 1, y: 2 } == E3::C { x: 1, y: 2 }) as i64 + 8 * (E3::A == E3::B(0)) as i64 }
    t_enum_ord { (E3::A < E3::B(1)) as i64 + 2 * (E3::B(3) > E3::B(2)) as i64 + 4 * (E3::C { x: 1, y: 2 } <= E3::C { x: 1, y: 1 }) as i64 }
    t_matches { let e = E3::B(4); matches!(e, E3::B(x) if x > 3) as i64 }
    t_minmax { 3i64.min(5) * 100 + 3i64.max(5) * 10 + 17i64.clamp(0, 9) + std::cmp::min(1, 2) + std::cmp::max(4, 3) }
    t_int_ops { let x = 17i64; x / 5 + x % 5 * 10 + (x & 6) * 100 + (x | 32) * 1000 + (x ^ 3) * 10000 + (x << 2) + (x >> 1) }
    t_checked { 5u8.checked_add(250).map_or(1, |x| x as i64) + 5u8.checked_add(251).map_or(1000, |x| x as i64) + 5usize.checked_sub(6).is_none() as i64 * 7 }
    t_wrap { 250u8.wrapping_add(10) as i64 + 3u8.wrapping_sub(5) as i64 * 1000 + (300i64 as u8) as i64 + (-1i64 as u16) as i64 }
    t_sat { 250u8.saturating_add(10) as i64 + 3u8.saturating_sub(5) as i64 * 1000 }
    t_overflowing { let (a, b) = 250u8.overflowing_add(10); a as i64 + b as i64 * 1000 }
    t_try_from { u8::try_from(300i64).is_err() as i64 + 2 * (u8::try_from(30i64).unwrap() as i64) + usize::try_from(-1isize).is_err() as i64 * 100 + i64::from(3u8) }
    t_abs { (-5i64).abs() + (-5i64).unsigned_abs() as i64 * 10 + (-5i64).signum() * 100 + 3usize.abs_diff(9) as i64 * 1000 }
    t_rem_euclid { 7i64.rem_euclid(3) + 2i64.pow(5) }
    t_parse { "12".parse::<i64>().unwrap() + "-3".parse::<isize>().unwrap() as i64 + "x".parse::<i64>().is_err() as i64 + "+4".parse::<usize>().unwrap() as i64 + "-0".parse::<usize>().is_err() as i64 * 1000 }
    t_parse_f { ("1.5".parse::<f64>().unwrap() == 1.5) as i64 + 2 * "1.5.".parse::<f64>().is_err() as i64 + 4 * "inf".parse::<f64>().unwrap().is_infinite() as i64 + 8 * "nan".parse::<f64>().unwrap().is_nan() as i64 }
    t_str_fns { let s = "ab/cd/ef"; s.len() as i64 + s.find('/').unwrap() as i64 * 10 + s.rfind("/").unwrap() as i64 * 100 + s.starts_with("ab") as i64 * 1000 + s.ends_with('x') as i64 * 5000 + s.contains("cd") as i64 * 10000 }
    t_strip { hs("foo.obj".strip_suffix(".obj").unwrap()) + hs("foo.obj".strip_prefix('f').unwrap_or("no")) + "foo".strip_prefix("x").is_none() as i64 }
    t_split_once { let (a, b) = "k=v=w".split_once('=').unwrap(); let (c, d) = "k=v=w".rsplit_once("=").unwrap(); hs(a) + 2 * hs(b) + 3 * hs(c) + 5 * hs(d) }
    t_splitn { let v: Vec<&str> = "a/b/c/d".splitn(3, '/').collect(); v.len() as i64 * 100000 + hs(v[2]) }
    t_rsplit { let v: Vec<&str> = "a/b/c".rsplit('/').collect(); hs(v[0]) * 3 + hs(v[2]) }
    t_split_str { let v: Vec<&str> = "a--b--".split("--").collect(); v.len() as i64 * 10 + v[1].len() as i64 }
    t_split_ws { "  a b\tc \n".split_whitespace().map(|w| w.len() as i64).sum() }
    t_lines { "a\nbb\r\nccc".lines().map(|l| l.len() as i64).fold(0, |a, b| a * 10 + b) }
    t_trim { hs("  x ".trim()) + "  x ".trim_start().len() as i64 + "--x-".trim_matches('-').len() as i64 * 10 + "007".trim_start_matches('0').len() as i64 * 100 }
    t_case { hs(&"aBc".to_lowercase()) + hs(&"aBc".to_uppercase()) + hs(&"aBc".to_ascii_uppercase()) + "OFF".eq_ignore_ascii_case("off") as i64 }
    t_replace { hs(&"a-b-c".replace('-', "+")) + hs(&"a-b-c".replace("-b", "")) + hs(&"ab".repeat(2)) }
    t_chars { "aé1".chars().count() as i64 + "a1b2".chars().filter(|c| c.is_ascii_digit()).count() as i64 * 10 + "abc".chars().rev().next().unwrap() as i64 * 100 + "xy".chars().any(|c| c == 'y') as i64 * 7 + "12".chars().all(|c| c.is_numeric()) as i64 * 100000 }
    t_bytes { "abc".bytes().map(|b| b as i64).sum::<i64>() + "abc".as_bytes()[1] as i64 * 1000 + "abc".as_bytes().len() as i64 + "a b".as_bytes().iter().position(|b| *b == b' ').unwrap() as i64 }
    t_char_indices { "a-b-".char_indices().filter(|(_, c)| *c == '-').map(|(i, _)| i as i64).sum() }
    t_to_digit { '7'.to_digit(10).unwrap() as i64 + 'x'.is_alphabetic() as i64 * 10 + b'4'.is_ascii_digit() as i64 * 100 + b'A'.to_ascii_lowercase() as i64 * 1000 }
    t_str_idx { hs(&"hello"[1..3]) + hs(&"hello"[2..]) + hs("hello".get(..2).unwrap_or("")) }
    t_utf8 { hs(std::str::from_utf8(&"hello".as_bytes()[1..4]).unwrap()) }
    t_string { let mut s = String::from("a"); s.push('b'); s.push_str("cd"); s += "e"; let t = s.clone() + "f"; hs(&t) + s.len() as i64 }
    t_join { hs(&vec!["a", "b"].join("/")) + hs(&["x", "y"].concat()) }
    t_str_cmp { ("a" < "b") as i64 + 2 * ("b".to_string() > "c".to_string()) as i64 + 4 * ("a".cmp("a") == std::cmp::Ordering::Equal) as i64 }
    t_format { hs(&format!("{}-{}", 3, "x")) + hs(&3.to_string()) + hs(&"q".to_string()) + hs(&format!("lit")) }
    t_option { let o = Some(3i64); o.map(|x| x + 1).unwrap_or(0) + o.and_then(|x| if x > 5 { Some(1) } else { None }).unwrap_or(10) + o.filter(|x| *x > 2).is_some() as i64 * 100 + o.or(Some(4)).unwrap() * 1000 + o.is_some_and(|x| x == 3) as i64 * 50000 + o.map_or(0, |x| x) }
    t_option2 { let mut o = Some(3i64); let t = o.take(); let mut q = o.get_or_insert(8).clone(); q += o.replace(5).unwrap(); q * 10 + t.unwrap() + o.xor(None).unwrap() + o.zip(Some(2)).map_or(0, |(a, b)| a * b) + o.as_ref().map_or(0, |x| *x) + (true).then(|| 4).unwrap_or(0) + false.then_some(3).unwrap_or(9) }
    t_option_mut { let mut o = Some(vec![1]); if let Some(v) = o.as_mut() { v.push(2); } if let Some(v) = &mut o { v.push(3); } h(o.as_deref().unwrap_or(&[])) }
    t_result { let r: Result<i64, i64> = Err(3); r.unwrap_or_else(|e| e * 2) + r.map_err(|e| e + 1).unwrap_err() + r.or_else(|e| if e == 3 { Ok::<i64, i64>(7) } else { Err(e) }).unwrap() + r.ok().unwrap_or(100) + Ok::<i64, i64>(1).and_then(|x| Ok::<i64, i64>(x + 1)).unwrap() + r.is_err() as i64 + r.err().unwrap_or(0) + r.as_ref().map_or_else(|e| *e, |x| *x) }
    t_question { fn f(x: &str) -> Result<i64, std::num::ParseIntError> { let v: i64 = x.parse()?; Ok(v + 1) } fn g(x: Option<i64>) -> Option<i64> { Some(x? + 1) } f("4").unwrap() + f("q").is_err() as i64 * 10 + g(None).is_none() as i64 * 100 + g(Some(1)).unwrap() }
    t_mem { let mut a = vec![1, 2]; let b = std::mem::take(&mut a); let mut c = 5; let d = std::mem::replace(&mut c, 6); let mut e = 1; std::mem::swap(&mut c, &mut e); h(&b) + a.len() as i64 + d * 10 + c * 100 + e * 1000 }
    t_hashmap { let mut m = HashMap::new(); m.insert("a", 1i64); m.insert("b", 2); let o = m.insert("a", 5); m["a"] + m.get("b").copied().unwrap_or(0) * 10 + m.contains_key("z") as i64 + m.len() as i64 * 100 + o.unwrap() * 1000 }
    t_hashset { let mut m = HashSet::new(); let a = m.insert(1); let b = m.insert(1); a as i64 + b as i64 * 2 + m.contains(&1) as i64 * 4 + m.len() as i64 * 8 }
    t_btree { let mut m = BTreeMap::new(); m.insert(3, 1i64); m.insert(1, 2); let mut s = BTreeSet::new(); s.insert("x"); s.insert("x"); *m.get(&3).unwrap() + m.len() as i64 * 10 + s.len() as i64 * 100 }
    t_vecdeque { let mut q = VecDeque::new(); q.push_back(1); q.push_back(2); q.push_front(0); let a = q.pop_front().unwrap(); let b = q.pop_back().unwrap(); a * 100 + b * 10 + q.len() as i64 + *q.front().unwrap() * 1000 }
    t_array_map { let a = [1i64, 2, 3].map(|x| x * 2); let b: [i64; 3] = std::array::from_fn(|i| i as i64); h(&a) + h(&b) }
    t_closure { let mut n = 0; let mut f = |x: i64| { n += x; n }; f(1); f(2); let g = move |y: i64| y * 2; g(n) }
    t_dyn { fn ap(f: &dyn Fn(i64) -> i64) -> i64 { f(3) } ap(&|x| x + 1) }
    t_cell { use std::cell::Cell; struct P { n: Cell<i64>, m: i64 } impl P { fn up(&self) -> i64 { self.n.set(self.n.get() + 1); self.n.get() * self.m } fn two(&self) -> i64 { self.up() + self.up() } } let p = P { n: Cell::new(3), m: 2 }; let q = &p; q.two() * 100 + p.n.get() * 10 + p.n.replace(0) + p.n.take() + p.n.into_inner() }
    t_cell_clos { use std::cell::Cell; let c = Cell::new(1i64); let f = |k: i64| c.set(c.get() * 10 + k); f(2); f(3); c.get() }
    t_refcell { use std::cell::RefCell; struct P { v: RefCell<Vec<i64>> } fn add(p: &P, k: i64) { p.v.borrow_mut().push(k); } let p = P { v: RefCell::new(vec![]) }; add(&p, 4); add(&p, 7); let n = p.v.borrow().len() as i64; let s: i64 = p.v.borrow().iter().sum(); *p.v.borrow_mut() = vec![1]; n * 100 + s + p.v.into_inner()[0] }
    t_cell_vec { use std::cell::Cell; let v = vec![Cell::new(1i64), Cell::new(2)]; for c in v.iter() { c.set(c.get() * 5); } v[0].get() * 100 + v[1].get() }
    t_dyn_mut { fn ap(f: &mut dyn FnMut(i64)) { f(3); f(4); } let mut v = 0i64; ap(&mut |x| v = v * 10 + x); v }
    t_dyn_box { let k = 5i64; let f: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x * k); f(2) + (*f)(3) }
    t_dyn_once { let s = String::from("abc"); let f: Box<dyn FnOnce() -> usize> = Box::new(move || s.len()); f() as i64 }
    t_dyn_trait { trait A { fn a(&self) -> i64; fn b(&self) -> i64 { self.a() * 2 } } struct P(i64); struct Q; impl A for P { fn a(&self) -> i64 { self.0 } } impl A for Q { fn a(&self) -> i64 { 9 } fn b(&self) -> i64 { 1 } } let v: Vec<Box<dyn A>> = vec![Box::new(P(4)), Box::new(Q)]; v.iter().map(|x| x.a() * 10 + x.b()).sum::<i64>() }
    t_dyn_iter { fn f(k: bool) -> Box<dyn Iterator<Item = i64>> { if k { Box::new(vec![1i64, 2, 3].into_iter()) } else { Box::new(0..4i64) } } let mut s = 0; for x in f(true) { s = s * 10 + x; } for x in f(false) { s = s * 10 + x; } s }
    t_dyn_table { let t: [(&str, &dyn Fn(i64) -> i64); 2] = [("a", &|x| x + 1), ("b", &|x| x * 7)]; let mut s = 0; for (n, f) in t.iter() { if *n == "b" { s += f(6); } } s }
    t_dyn_state { struct P { n: i64 } impl P { fn up(&mut self) -> i64 { self.n += 1; self.n } } fn go(p: &mut P, f: &dyn Fn(&mut P) -> i64) -> i64 { f(p) * 10 + f(p) } let mut p = P { n: 1 }; go(&mut p, &|q| q.up()) * 100 + p.n }
    t_fnptr { fn dbl(x: i64) -> i64 { x * 2 } let f: fn(i64) -> i64 = dbl; let v: Vec<i64> = vec![1, 2].into_iter().map(dbl).map(f).collect(); h(&v) }
    t_box { let b = Box::new(5i64); *b + 1 }
    t_rec { fn fact(n: i64) -> i64 { if n <= 1 { 1 } else { n * fact(n - 1) } } fact(6) }
    t_labeled { let mut c = 0; 'o: for i in 0..5 { for j in 0..5 { if j == 3 { continue 'o; } if i == 3 { break 'o; } c += i * j; } } c }
    t_while { let mut i = 0; let mut s = 0; while i < 5 { i += 1; if i == 2 { continue; } s += i; } s }
    t_loop_break { let mut i = 0; let r = loop { i += 3; if i > 10 { break i * 2; } }; r }
    t_let_else { fn f(o: Option<i64>) -> i64 { let Some(x) = o else { return 9 }; x } f(None) * 10 + f(Some(1)) }
    t_if_let_chain { let o = Some(4); if let Some(x) = o && x > 3 { x } else { 0 } }
    t_tuple { let (a, b) = (1i64, 2i64); let t = (a, (b, 3i64)); t.0 * 100 + t.1.0 * 10 + (t.1).1 }
    t_struct_update { let p = P { a: 4, ..P::default() }; p.a + p.s.len() as i64 + p.o.is_none() as i64 }
    t_ref_mut { let mut v = vec![1, 2, 3]; { let x = &mut v[1]; *x += 5; } let s = &mut v[..]; s[0] = 9; h(&v) }
    t_nested_mut { let mut v = vec![vec![1], vec![2]]; v[1].push(3); v[0][0] = 7; for w in v.iter_mut() { w.push(0); } v.iter().map(|w| h(w)).sum() }
    t_const_arr { const T: [(&str, i64); 3] = [("a", 1), ("b", 2), ("c", 3)]; T.iter().find(|(k, _)| *k == "b").map(|(_, v)| *v).unwrap_or(0) }
    t_static { static T: &[&str] = &["x", "yy"]; T.iter().map(|s| s.len() as i64).sum() }
    t_match_str { fn f(s: &str) -> i64 { match s { "a" | "b" => 1, "c" => 2, x if x.starts_with('d') => 3, _ => 4 } } f("b") * 1000 + f("c") * 100 + f("dx") * 10 + f("q") }
    t_match_range { fn f(x: i64) -> i64 { match x { 0 => 0, 1..=9 => 1, i64::MIN..=-1 => 2, _ => 3 } } f(0) + f(5) * 10 + f(-4) * 100 + f(10) * 1000 }
    t_match_bytes { fn f(b: u8) -> i64 { match b { b' ' | b'\t' => 1, b'0'..=b'9' => 2, _ => 3 } } f(b' ') + f(b'5') * 10 + f(b'x') * 100 }
    t_shadow_ops { let mut x = 5i64; x += 2; x -= 1; x *= 3; x /= 2; x %= 5; x |= 8; x &= 12; x ^= 1; x <<= 2; x >>= 1; x }
    t_neg { let x = 5i64; let b = !true; -x + !x + b as i64 }
    t_cow { use std::borrow::Cow; let c: Cow<str> = Cow::Borrowed("ab"); let d: Cow<str> = Cow::Owned("abc".to_string()); c.len() as i64 + d.into_owned().len() as i64 * 10 }
    t_cmp_chain { let a = (1, 2); let b = (1, 3); (a < b) as i64 + 2 * (a.cmp(&b) == std::cmp::Ordering::Less) as i64 + 4 * (Some(1) < None) as i64 + 8 * (a == (1, 2)) as i64 }
    t_partition { let (a, b): (Vec<i64>, Vec<i64>) = vec![1, 2, 3, 4].into_iter().partition(|x| x % 2 == 0); h(&a) + 3 * h(&b) }
    t_sum_prod { vec![1i64, 2, 3].iter().sum::<i64>() + vec![2i64, 3].into_iter().product::<i64>() * 10 }
    t_cycle { let v: Vec<i64> = [1, 2].iter().cycle().take(5).copied().collect(); h(&v) }
    t_by_ref { let mut it = vec![1, 2, 3, 4].into_iter(); let a: i64 = it.by_ref().take(2).sum(); let b: i64 = it.sum(); a * 100 + b }
    t_inspect { let mut c = 0; let s: i64 = vec![1, 2].into_iter().inspect(|x| c += x).sum(); s * 10 + c }
    t_reduce { vec![3i64, 4, 5].into_iter().reduce(|a, b| a * b).unwrap() }
    t_min_by { let v = vec![(1, 5i64), (2, 3)]; v.iter().min_by(|a, b| a.1.cmp(&b.1)).unwrap().0 as i64 }
    t_rposition { let v = [1, 2, 1]; v.iter().rposition(|x| *x == 1).unwrap() as i64 }
    t_iter_eq { ([1, 2].iter().eq([1, 2].iter())) as i64 + 2 * (vec![1].iter().lt([2].iter())) as i64 }
    t_concat_vec { let v = vec![vec![1i64], vec![2, 3]].concat(); h(&v) }
    t_to_owned { let a = [1i64, 2].to_vec(); let b = a[..1].to_owned(); h(&a) + h(&b) }
    t_into_iter_arr { let mut s = 0; for x in [1i64, 2, 3] { s = s * 10 + x; } s }
    t_rchunks { let v = [1i64, 2, 3]; v.iter().skip(1).step_by(1).map(|x| x * 2).sum() }
    t_last_idx { let v = vec![1i64, 2, 3]; v[v.len() - 1] + v.first().copied().unwrap_or_default() * 10 + v.get(7).copied().unwrap_or(5) * 100 }
    t_get_mut { let mut v = vec![1i64, 2]; if let Some(x) = v.get_mut(1) { *x = 8; } h(&v) }
    t_entry { let mut m: HashMap<&str, i64> = HashMap::new(); *m.entry("a").or_insert(0) += 2; *m.entry("a").or_insert(0) += 2; m["a"] }
    t_write { use std::fmt::Write; let mut s = String::new(); write!(s, "{}/{}", 1, 2).unwrap(); s.write_str("x").unwrap(); hs(&s) }
    t_range_contains { (1..5).contains(&3) as i64 + (1..=5).contains(&6) as i64 * 2 + (..4usize).contains(&2) as i64 * 4 }
    t_is_sorted_etc { let v = vec![1i64, 2, 2]; v.is_sorted() as i64 + v.iter().rev().map(|x| *x).collect::<Vec<_>>().is_empty() as i64 * 2 }
    t_array_chunks { let v = vec![1i64, 2, 3, 4, 5, 6]; v.chunks_exact(3).map(|c| c[0] * c[2]).sum() }
    t_array_try { let v = vec![1i64, 2, 3]; let a: [i64; 3] = v.try_into().unwrap(); let s: &[i64] = &a; let b: &[i64; 2] = s[..2].try_into().unwrap(); a[2] * 10 + b[1] }
    t_map_while { let v: Vec<i64> = [1, 2, 9, 3].iter().map_while(|x| if *x < 5 { Some(x * 2) } else { None }).collect(); h(&v) }
    t_skip_take { let v: Vec<i64> = (0..10).skip(2).take(3).collect(); h(&v) }
    t_nested_opt { let x: Option<Option<i64>> = Some(None); x.flatten().is_none() as i64 + x.is_some() as i64 * 2 }
    t_transpose { let x: Option<Result<i64, ()>> = Some(Ok(2)); x.transpose().unwrap().unwrap() }
    t_ok_or { None::<i64>.ok_or(3).unwrap_err() + Some(1i64).ok_or_else(|| 4i64).unwrap() }
    t_unwrap_or_default { None::<i64>.unwrap_or_default() + "q".parse::<i64>().unwrap_or_default() + Some(3i64).unwrap_or_default() }
    t_assert { let v = vec![1i64]; assert!(!v.is_empty()); assert_eq!(v.len(), 1); debug_assert!(v[0] == 1, "bad {}", v[0]); v[0] }
    t_sum_usize { let v = vec![vec![1], vec![2, 3]]; v.iter().map(Vec::len).sum::<usize>() as i64 + v.iter().map(|x: &Vec<i32>| x.len()).max().unwrap_or(0) as i64 * 10 }
    t_string_from { let a: String = "x".into(); let b = String::from('y'); let c = "z".to_owned(); let d: String = vec!["p", "q"].into_iter().collect(); let e: String = "héy".chars().rev().collect(); hs(&a) + hs(&b) + hs(&c) + hs(&d) + hs(&e) }
    t_rotate { let mut v = vec![1i64, 2, 3, 4, 5]; v.rotate_left(2); let a = h(&v); v.rotate_right(1); a + 3 * h(&v) }
    t_binsearch { let v = [1i64, 3, 5, 7]; v.binary_search(&5).unwrap() as i64 + v.binary_search(&4).unwrap_err() as i64 * 10 + v.partition_point(|x| *x < 6) as i64 * 100 + v.binary_search_by_key(&7, |x| *x).unwrap() as i64 * 1000 }
    t_copy_from { let mut a = [0i64; 3]; a.copy_from_slice(&[1, 2, 3]); let mut b = vec![0i64; 2]; b.clone_from_slice(&a[1..]); h(&a) + h(&b) }
    t_within { let mut v = vec![1i64, 2, 3]; v.extend_from_within(1..); h(&v) }
    t_splice { let mut v = vec![1i64, 2, 3]; v.splice(1..2, [8, 9]); h(&v) }
    t_slice_split { let v = [1i64, 0, 2, 3, 0, 4]; v.split(|x| *x == 0).map(|s| s.len() as i64).fold(0, |a, b| a * 10 + b) }
    t_chunk_by { let v = [1i64, 1, 2, 3, 3]; v.chunk_by(|a, b| a == b).map(|s| s.len() as i64).fold(0, |a, b| a * 10 + b) }
    t_rchunks2 { let v = [1i64, 2, 3, 4, 5]; v.rchunks(2).map(|s| s[0]).fold(0, |a, b| a * 10 + b) }
    t_first_chunk { let v = [1i64, 2, 3]; if let Some([a, b]) = v.first_chunk::<2>() { a * 10 + b } else { 0 } }
    t_vd { let mut d: VecDeque<i64> = VecDeque::new(); d.push_back(1); d.push_front(2); d.push_back(3); let s: i64 = d.iter().fold(0, |a, b| a * 10 + b); s * 10 + d.pop_front().unwrap() + d[0] * 1000 + *d.back().unwrap() * 10000 }
    t_vd_from { let d: VecDeque<i64> = vec![1, 2, 3].into(); let v: Vec<i64> = d.into_iter().collect(); h(&v) }
    t_bm_iter { let mut m = BTreeMap::new(); m.insert(3, 1i64); m.insert(1, 2); m.iter().map(|(k, v)| k * 10 + v).fold(0, |a, b| a * 100 + b) + m.values().sum::<i64>() + m.keys().copied().last().unwrap() }
    t_bm_entry { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); *m.entry(1).or_insert(0) += 5; *m.entry(1).or_default() += 5; m[&1] + m.len() as i64 * 100 + m.first_key_value().map(|x| *x.1).unwrap_or(0) }
    t_bm_get_mut { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); m.insert(1, 2); if let Some(x) = m.get_mut(&1) { *x = 7; } m.remove(&1).unwrap() + m.is_empty() as i64 * 10 }
    t_hm_modify { let mut m: HashMap<i64, i64> = HashMap::new(); m.entry(1).and_modify(|x| *x += 1).or_insert(5); m.entry(1).and_modify(|x| *x += 1).or_insert(5); m[&1] }
    t_hm_from { let m: HashMap<&str, i64> = [("a", 1), ("b", 2)].into_iter().collect(); m.get("b").copied().unwrap_or(0) + m.len() as i64 * 10 + m.contains_key("c") as i64 * 100 }
    t_hm_get_or { let m: HashMap<String, i64> = HashMap::from([("a".to_string(), 4)]); *m.get("a").unwrap_or(&0) }
    t_bs_iter { let s: BTreeSet<i64> = [3, 1, 2, 1].into_iter().collect(); s.into_iter().fold(0, |a, b| a * 10 + b) }
    t_hs_len { let s: HashSet<i64> = vec![3, 1, 3].into_iter().collect(); s.len() as i64 }
    t_div_ceil { 7u32.div_ceil(2) as i64 + 7usize.next_multiple_of(4) as i64 * 10 + 5u32.is_power_of_two() as i64 * 100 + 9i64.ilog2() as i64 * 1000 }
    t_clamp { 7i64.clamp(1, 5) + (-3i64).clamp(-2, 5) * 10 + 3i64.max(4) * 100 + 3i64.min(2) * 1000 + 2.5f64.clamp(0.0, 1.0) as i64 * 10000 }
    t_bits { (0b1011u32.count_ones() + 8u32.trailing_zeros() * 10 + 1u64.leading_zeros() * 100) as i64 + ((5i64 << 2) ^ 3) + (0xffi64 >> 3) + (!5i64) }
    t_swap_bytes { u32::from_be_bytes([0, 0, 1, 2]) as i64 + 258u16.to_le_bytes()[0] as i64 * 1000 }
    t_isqrt { i64::pow(3, 4) + 2i64.pow(5) + 17i64.checked_rem(5).unwrap() + 17i64.checked_div(0).unwrap_or(9) + 17i64.div_euclid(-5) }
    t_euclid { (-7i64).rem_euclid(3) + (-7i64).div_euclid(3) * 10 + (-7 % 3) * 100 + (-7 / 2) * 1000 }
    t_from_str { use std::str::FromStr; i64::from_str("12").unwrap() + usize::from_str_radix("ff", 16).unwrap() as i64 + i64::from_str("-x").is_err() as i64 }
    t_parse_others { "7".parse::<u8>().unwrap() as i64 + "300".parse::<u8>().is_err() as i64 * 10 + "-1".parse::<u32>().is_err() as i64 * 100 + "true".parse::<bool>().unwrap() as i64 * 1000 + "+5".parse::<i32>().unwrap() as i64 * 10000 }
    t_find_str { "abcabc".find("ca").unwrap() as i64 + "abcabc".rfind('b').unwrap() as i64 * 10 + "abc".find('z').is_none() as i64 * 100 + "a/b".contains('/') as i64 * 1000 + "abc".starts_with("ab") as i64 * 10000 }
    t_matches_str { "a/b/c".matches('/').count() as i64 + "a/b/c".match_indices('/').map(|x| x.0 as i64).sum::<i64>() * 10 }
    t_rsplit_once { let (a, b) = "x/y/z".rsplit_once('/').unwrap(); hs(a) * 3 + hs(b) }
    t_split_inclusive { "a\nb\n".split_inclusive('\n').map(hs).fold(0, |a, b| a * 3 + b) }
    t_split_term { "a/b/".split_terminator('/').map(hs).fold(0, |a, b| a * 3 + b) + "a//b".rsplitn(2, '/').map(hs).fold(0, |a, b| a * 3 + b) }
    t_split_closure { "a1b".split(|c: char| c.is_ascii_digit()).map(hs).fold(0, |a, b| a * 3 + b) + "a-b_c".split(['-', '_']).map(hs).fold(0, |a, b| a * 3 + b) + "a-b_c".split(&['-', '_'][..]).count() as i64 }
    t_trim_m { hs("//a/".trim_start_matches('/')) + hs("//a/".trim_end_matches('/')) * 3 + hs("xx".trim_matches('x')) + hs("  a ".trim_start()) * 7 + hs(" a\t".trim_end()) }
    t_eq_ic { "OFF".eq_ignore_ascii_case("off") as i64 + "Off".to_ascii_lowercase().eq("off") as i64 * 2 + 'A'.eq_ignore_ascii_case(&'a') as i64 * 4 + b"ab".eq_ignore_ascii_case(b"AB") as i64 * 8 }
    t_char_cls { 'a'.is_alphabetic() as i64 + '1'.is_numeric() as i64 * 2 + ' '.is_whitespace() as i64 * 4 + '\u{85}'.is_control() as i64 * 8 + 'é'.len_utf8() as i64 * 16 + 'é'.is_ascii() as i64 * 100 + ('a' as u32) as i64 * 1000 }
    t_char_from { char::from(65u8) as i64 + char::from_u32(0x41).unwrap() as i64 + char::from_digit(7, 10).unwrap() as i64 + ('a'..='e').count() as i64 + (b'a'..=b'c').map(|x| x as i64).sum::<i64>() }
    t_string_ops { let mut s = String::from("abc"); s.insert(1, 'x'); s.insert_str(0, "yy"); let p = s.pop().unwrap(); s.truncate(4); let r = s.remove(0); s.retain(|c| c != 'x'); hs(&s) + p as i64 + r as i64 }
    t_string_extend { let mut s = String::new(); s.extend(["a", "b"].iter().copied()); s.extend(vec!['c', 'd']); s += "e"; s.push_str(&"f".repeat(2)); hs(&s) }
    t_char_bounds { let s = "aé"; s.is_char_boundary(2) as i64 + s.chars().count() as i64 * 10 + s.chars().rev().next().unwrap() as i64 * 100 + s.chars().nth(1).map_or(0, |c| c.len_utf8() as i64) }
    t_bytes_ops { let b = "a b".as_bytes(); b.iter().position(|x| *x == b' ').unwrap() as i64 + b.len() as i64 * 10 + (b[0] as i64) * 100 + b.first().map_or(0, |x| *x as i64) + b.ends_with(b"b") as i64 + b.to_vec().len() as i64 }
    t_std_str { std::str::from_utf8(&[0x61, 0xc3, 0xa9]).unwrap().len() as i64 + std::str::from_utf8(&[0xff]).is_err() as i64 * 10 + String::from_utf8(vec![0x41]).unwrap().len() as i64 * 100 + String::from_utf8_lossy(b"ab").len() as i64 * 1000 }
    t_opt3 { Some(3i64).xor(None).unwrap() + Some(1).zip(Some(2i64)).map(|(a, b)| a * 10 + b).unwrap() + Some(3i64).filter(|x| *x > 5).is_none() as i64 + Some(4i64).is_some_and(|x| x > 3) as i64 * 100 + None::<i64>.is_none_or(|x| x > 3) as i64 * 1000 + Some(2i64).and(Some(3i64)).unwrap() + None.or(Some(4i64)).unwrap() + None.or_else(|| Some(5i64)).unwrap() }
    t_opt4 { let mut o = Some(3i64); let t = o.take().unwrap(); let r = o.replace(4); let i = *o.insert(5); let g = *o.get_or_insert(6); let mut n = None; let w = *n.get_or_insert_with(|| 7i64); let e = o.as_mut().map(|x| { *x += 1; *x }).unwrap(); t + r.is_none() as i64 * 10 + i * 100 + g * 1000 + w * 10000 + e + o.take_if(|x| *x > 5).unwrap() }
    t_opt5 { Some(1i64).map_or(0, |x| x + 1) + None::<i64>.map_or_else(|| 5, |x| x) * 10 + Some("a").as_deref().map(|x: &str| x.len() as i64).unwrap() * 100 + Some(&3i64).copied().unwrap() + Some(&4i64).cloned().unwrap() + Some(2i64).iter().sum::<i64>() + Some(1i64).into_iter().chain(Some(2)).sum::<i64>() + Some(Some(3i64)).flatten().unwrap_or(0) + (Some(1) < Some(2)) as i64 + (None < Some(2)) as i64 }
    t_res2 { let r: Result<i64, i64> = Ok(3); let e: Result<i64, i64> = Err(4); r.map(|x| x + 1).unwrap() + e.map_err(|x| x * 2).unwrap_err() * 10 + r.and_then(|x| if x > 5 { Ok(x) } else { Err(9) }).unwrap_err() * 100 + e.or_else(|x| if x == 4 { Ok::<i64, i64>(1) } else { Err(x) }).unwrap() + e.unwrap_or(7) * 1000 + e.unwrap_or_else(|x| x) + r.is_ok_and(|x| x == 3) as i64 + e.is_err_and(|x| x == 3) as i64 + r.ok().unwrap() + e.err().unwrap() + r.iter().count() as i64 + e.as_ref().err().copied().unwrap() }
    t_iter2 { (1..=4i64).rev().skip(1).step_by(2).fold(0, |a, b| a * 10 + b) + [3i64, 1, 2].iter().max().unwrap() * 1000 + [1i64, 2].iter().rev().enumerate().map(|(i, x)| i as i64 * 10 + x).sum::<i64>() + (0..3i64).zip(5..).map(|(a, b)| a * b).sum::<i64>() }
    t_iter3 { let v = [1i64, 2, 3, 4]; let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); h(&a) + h(&b) + v.iter().try_for_each(|x| if *x < 9 { Ok(()) } else { Err(*x) }).is_ok() as i64 + v.iter().is_sorted() as i64 + v.iter().cmp([1i64, 2].iter()) as i64 + v.iter().find_map(|x| if *x > 2 { Some(x * 2) } else { None }).unwrap() + v.iter().skip_while(|x| **x < 2).next().unwrap() }
    t_iter4 { let mut it = [1i64, 2, 3, 4, 5].iter().peekable(); let mut s = 0; while let Some(x) = it.next_if(|x| **x < 3) { s = s * 10 + x; } s = s * 10 + **it.peek().unwrap(); if it.next_if_eq(&&3).is_some() { s *= 2; } s + it.len() as i64 }
    t_iter5 { let mut it = (1..10i64).into_iter(); let a = it.nth(2).unwrap(); let b = it.next_back().unwrap(); let c = it.nth_back(1).unwrap(); let (lo, hi) = it.size_hint(); a + b * 10 + c * 100 + lo as i64 * 1000 + hi.unwrap() as i64 * 10000 }
    t_iter6 { let v = vec![1i64, 2, 3]; let mut it = v.chunks(2).rev(); let a = it.next().unwrap()[0]; let w = v.windows(2).rev().map(|w| w[1]).fold(0, |a, b| a * 10 + b); let l = v.windows(2).last().unwrap()[0] + v.windows(2).nth(1).unwrap()[1] + v.windows(2).count() as i64 + v.windows(2).len() as i64; a + w * 10 + l * 1000 }
    t_iter7 { let v = vec![vec![1i64, 2], vec![], vec![3]]; v.iter().flatten().copied().fold(0, |a, b| a * 10 + b) + v.iter().flat_map(|x| x.iter().map(|y| y * 2)).sum::<i64>() + v.concat().len() as i64 * 1000 + v.into_iter().flatten().count() as i64 }
    t_iter8 { let v: Vec<i64> = std::iter::repeat(3).take(2).chain(std::iter::repeat_n(4, 2)).chain(std::iter::empty()).chain(std::iter::repeat_with(|| 5).take(1)).collect(); h(&v) + std::iter::zip([1i64, 2], [3i64, 4]).map(|(a, b)| a * b).sum::<i64>() }
    t_iter9 { let a: [i64; 3] = std::array::from_fn(|i| i as i64 * 2); let b = [1i64; 4]; let [x, .., z] = a; a.iter().sum::<i64>() + b.len() as i64 + x + z * 100 + a.each_ref().len() as i64 + a.as_slice().len() as i64 }
    t_iter10 { let mut v = vec![3i64, 1, 2]; v.sort_by(|a, b| b.cmp(a)); let a = h(&v); v.sort_unstable_by_key(|x| *x % 3); v.swap(0, 2); v.reverse(); a + h(&v) + v.iter().min_by_key(|x| (**x - 2).abs()).unwrap() }
    t_iter11 { let v = [1i64, 5, 3]; v.iter().copied().max_by(|a, b| a.cmp(b)).unwrap() + v.iter().copied().map(|x| x as f64).fold(0.0, f64::max) as i64 + v.iter().rev().take(2).rev().copied().fold(0, |a, b| a * 10 + b) + v.iter().sum::<i64>() + v.iter().product::<i64>() + v.iter().rfind(|x| **x > 2).unwrap() + v.iter().rfold(0, |a, b| a * 3 + b) }
    t_vec2 { let mut v: Vec<i64> = Vec::with_capacity(4); v.extend([1, 2]); v.extend_from_slice(&[3]); v.extend(&[4i64, 5]); v.resize_with(6, || 9); v.insert(0, 0); let l = v.last().copied(); v.fill(1); v.drain(..2); v.dedup(); v.push(l.unwrap()); v.shrink_to_fit(); h(&v) + (v.capacity() >= v.len()) as i64 }
    t_vec3 { let v = vec![1i64, 2, 3]; let b: Box<[i64]> = v.clone().into_boxed_slice(); let c: Vec<i64> = b.into_vec(); let d = [v.as_slice(), &c[1..]].concat(); let e = Vec::from([1i64, 2]); let f: Vec<i64> = (&e[..]).into(); h(&d) + h(&f) + (v == c) as i64 + (v[..2] == e[..]) as i64 + (e == [1, 2]) as i64 + (v > e) as i64 }
    t_vec4 { let mut v = vec![1i64, 2, 3, 4]; let (a, b) = v.split_at_mut(2); a[0] = b[1]; std::mem::swap(&mut a[1], &mut b[0]); if let [x, .., y] = v.as_mut_slice() { std::mem::swap(x, y); } if let Some((f, r)) = v.split_first_mut() { *f += r.len() as i64; } for c in v.chunks_mut(2) { c[0] += 1; } h(&v) }
    t_vec5 { let mut v = vec![1i64, 2, 3, 4, 5]; let e: Vec<i64> = v.extract_if(.., |x| *x % 2 == 0).collect(); let r: Vec<i64> = v.iter().rev().cloned().collect(); v.truncate(1); v.append(&mut vec![7, 8]); h(&e) + h(&r) + h(&v) }
    t_iter_get { let v = [10i64, 20, 30, 40]; v.get(1..3).unwrap().len() as i64 + v.get(3..9).is_none() as i64 * 10 + v[1..=2].iter().sum::<i64>() + v[..].len() as i64 + v.get(..2).map_or(0, |x| x[1]) + v.iter().skip(3).next().copied().unwrap_or(0) + v.split_last().map_or(0, |(l, r)| l + r.len() as i64) }
    t_ranges { let r = 2..7usize; r.len() as i64 + r.start as i64 * 10 + r.end as i64 * 100 + r.contains(&3) as i64 * 1000 + r.is_empty() as i64 + (1..=3i64).sum::<i64>() + *(4..=6i64).end() + (0..10usize).rev().step_by(3).map(|x| x as i64).fold(0, |a, b| a * 10 + b) + (0..=3u8).rev().map(|x| x as i64).sum::<i64>() }
    t_ord { use std::cmp::*; (1i64.cmp(&2) as i64) + max(3i64, 4) + min(1i64, 2) + (Reverse(1) < Reverse(2)) as i64 + ((1, 2) < (1, 3)) as i64 + 1i64.partial_cmp(&1).map_or(9, |x| x as i64) + 1.5f64.total_cmp(&2.0) as i64 + Ordering::Less.reverse() as i64 + Ordering::Equal.then(Ordering::Greater) as i64 + 3i64.cmp(&2).is_gt() as i64 + ("a", 1).cmp(&("a", 2)) as i64 }
    t_float { (2.5f64.floor() + 2.5f64.ceil() * 10.0 + 7.9f64.trunc() * 100.0 + (-2.5f64).abs() + 9f64.sqrt() + 2f64.powi(3) + 1.5f64.mul_add(2.0, 1.0) + f64::from(3u8) + f64::from(1.5f32) + 0.1f64.max(f64::NAN) + 2.5f64.fract() + 3.7f64.round() + (1e300f64 * 1e10).is_infinite() as u8 as f64 + 3f64.copysign(-1.0) + 5.5f64.rem_euclid(2.0) + -1.0f64.signum()) as i64 }
    t_float_bits { (1.5f64.to_bits() >> 50) as i64 + f64::from_bits(0x4000000000000000) as i64 + (1.5f64 as f32) as i64 + (1e20f64 as i64 == i64::MAX) as i64 + (-5.7f64) as i64 + (300.0f64 as u8) as i64 + (f64::NAN as i64) + 0.1f32 as f64 as i64 + ((0.1f32 as f64) == 0.1f64) as i64 * 7 }
    t_rc { use std::rc::Rc; use std::cell::*; let r = Rc::new(Cell::new(3i64)); let s = r.clone(); s.set(5); let c = RefCell::new(vec![1i64]); c.borrow_mut().push(2); r.get() + c.borrow().len() as i64 * 10 + Rc::strong_count(&r) as i64 * 100 }
    t_fmt2 { hs(&format!("{:>5}|{:<4}|{:^5}|{:05}|{:+}|{:x}|{:#x}|{:b}|{:.2}|{:e}", 42, "a", "b", 7, 3, 255, 255, 5, 1.005, 1500.0)) }
    t_fmt3 { let w = 6; let p = 1; hs(&format!("{:w$.p$}|{:?}|{:?}|{0}{0}", 2.25, "q\"", Some(1))) + hs(&format!("{:?} {:?}", vec![1, 2], ('a', "b"))) + hs(&format!("{{}}{}", true)) }
    t_fmt4 { hs(&format!("{} {} {:?} {:?}", 1.0f64, 0.1f64, 1.0f64, f64::INFINITY)) + hs(&1e21f64.to_string()) + hs(&(-0.0f64).to_string()) + hs(&5u8.to_string()) + hs(&'x'.to_string()) + hs(&true.to_string()) + hs(&String::from("s").to_string()) }
    t_cow2 { use std::borrow::Cow; let f = |s: &'static str| -> Cow<'static, str> { if s.len() > 2 { Cow::Owned(s.to_uppercase()) } else { Cow::Borrowed(s) } }; hs(&f("ab")) + hs(&f("abc")) + f("abc").into_owned().len() as i64 + matches!(f("x"), Cow::Borrowed(_)) as i64 + f("yy").to_string().len() as i64 }
    t_ctl { let mut n = 0i64; 'o: for i in 0..5 { for j in 0..5 { if j == 3 { continue 'o; } if i == 3 { break 'o; } n += i * j; } } let x = 'b: { if n > 3 { break 'b n; } 0 }; x + loop { n += 1; if n > 20 { break n; } } }
    t_bind { let v = [1i64, 2, 3]; 0 + match v { [a, rest @ ..] if a > 0 => a + rest.len() as i64 * 10, _ => 0 } + match 7u8 { n @ 1..=9 => n as i64, _ => 0 } + match ("a", 1) { ("a" | "b", n) => n, _ => 0 } + match Some(5) { Some(x @ (4 | 5)) => x, _ => 0 } }
    t_trait { trait T { fn f(&self) -> i64; fn g(&self) -> i64 { self.f() * 2 } } struct A(i64); impl T for A { fn f(&self) -> i64 { self.0 } } impl T for i64 { fn f(&self) -> i64 { *self } fn g(&self) -> i64 { 1 } } fn u<X: T>(x: X) -> i64 { x.g() } u(A(3)) + u(4i64) }
    t_own_iter { struct C(i64); impl Iterator for C { type Item = i64; fn next(&mut self) -> Option<i64> { self.0 -= 1; if self.0 > 0 { Some(self.0) } else { None } } } C(5).filter(|x| x % 2 == 0).map(|x| x * 3).sum::<i64>() + C(4).collect::<Vec<_>>().len() as i64 + C(6).skip(1).zip(C(3)).count() as i64 + C(3).last().unwrap() }
    t_u8 { b'a'.is_ascii_alphabetic() as i64 + b'1'.is_ascii_digit() as i64 * 2 + b' '.is_ascii_whitespace() as i64 * 4 + b'A'.to_ascii_lowercase() as i64 * 8 + (b'7' - b'0') as i64 + b'z'.is_ascii_graphic() as i64 + b"ab cd".iter().filter(|b| b.is_ascii_alphabetic()).count() as i64 + b"a b".split(|b| *b == b' ').count() as i64 }
    t_str_get { let s = "héy"; s.get(0..1).map_or(0, |x| x.len() as i64) + s.get(0..2).is_none() as i64 * 10 + s[3..].len() as i64 * 100 + s.split_at(3).1.len() as i64 * 1000 + s.char_indices().map(|(i, _)| i as i64).sum::<i64>() + s.bytes().rev().next().unwrap() as i64 + s.strip_prefix('h').unwrap().len() as i64 + s.strip_suffix("y").unwrap().len() as i64 }
    t_str_iter { "a,b,,c".split(',').filter(|s| !s.is_empty()).map(|s| s.len() as i64).sum::<i64>() + "a,b,,c".split(',').rev().next().unwrap().len() as i64 + "a b\tc".split_whitespace().last().unwrap().len() as i64 + " x  y ".split(' ').count() as i64 * 10 + "a b".split_ascii_whitespace().count() as i64 * 100 + "1/2/3".split('/').map(|x| x.parse::<i64>().unwrap()).fold(0, |a, b| a * 10 + b) + "a/b".split('/').nth(1).map_or(0, hs) + "a/b/c".splitn(2, '/').last().map_or(0, hs) }
}
