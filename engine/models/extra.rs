//! More stand-ins: slices, integers, strings, maps. Functions that return an iterator
//! collect what it would yield first: to the analysis, such an iterator is a list.
use crate::more::*;
use std::alloc::{Allocator, AllocatorClone};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::{BuildHasher, Hash};

pub fn slice_rotate_left<T>(s: &mut [T], k: usize) {
    if k > s.len() { panic!("mid > len"); }
    let mut i = 0;
    while i < k { let mut j = 1; while j < s.len() { s.swap(j - 1, j); j += 1; } i += 1; }
}
pub fn slice_rotate_right<T>(s: &mut [T], k: usize) {
    if k > s.len() { panic!("k > len"); }
    let mut i = 0;
    while i < k { let mut j = s.len(); while j > 1 { s.swap(j - 1, j - 2); j -= 1; } i += 1; }
}
// as the library searches: what it finds in a list that is not sorted depends on it
pub fn slice_binary_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> { search(s, |y| y.cmp(x)) }
fn search<'a, T>(s: &'a [T], mut f: impl FnMut(&'a T) -> Ordering) -> Result<usize, usize> {
    let mut size = s.len();
    if size == 0 { return Err(0); }
    let mut base = 0;
    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        if f(&s[mid]) != Ordering::Greater { base = mid; }
        size -= half;
    }
    match f(&s[base]) { Ordering::Equal => Ok(base), Ordering::Less => Err(base + 1), Ordering::Greater => Err(base) }
}
pub fn slice_binary_search_by<'a: 'a, T, F: FnMut(&'a T) -> Ordering>(s: &'a [T], f: F) -> Result<usize, usize> { search(s, f) }
pub fn slice_binary_search_by_key<'a: 'a, T, B: Ord, F: FnMut(&'a T) -> B>(s: &'a [T], b: &B, mut f: F) -> Result<usize, usize> { search(s, |x| f(x).cmp(b)) }
pub fn slice_partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut f: P) -> usize { match search(s, |x| if f(x) { Ordering::Less } else { Ordering::Greater }) { Ok(i) | Err(i) => i } }
pub fn slice_copy_from_slice<T: Copy>(s: &mut [T], t: &[T]) {
    if s.len() != t.len() { panic!("lengths differ"); }
    let mut i = 0;
    while i < s.len() { s[i] = t[i]; i += 1; }
}
pub fn slice_clone_from_slice<T: Clone>(s: &mut [T], t: &[T]) {
    if s.len() != t.len() { panic!("lengths differ"); }
    let mut i = 0;
    while i < s.len() { s[i] = t[i].clone(); i += 1; }
}
pub fn slice_fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) { let mut i = 0; while i < s.len() { s[i] = f(); i += 1; } }
pub fn slice_split_first_mut<T>(s: &mut [T]) -> Option<(&mut T, &mut [T])> {
    if s.len() == 0 { return None; }
    let (a, b) = s.split_at_mut(1);
    Some((&mut a[0], b))
}
pub fn slice_split_last_mut<T>(s: &mut [T]) -> Option<(&mut T, &mut [T])> {
    let n = s.len();
    if n == 0 { return None; }
    let (a, b) = s.split_at_mut(n - 1);
    Some((&mut b[0], a))
}
pub fn slice_split<'a, T, F: FnMut(&T) -> bool>(s: &'a [T], mut f: F) -> std::vec::IntoIter<&'a [T]> {
    let mut v = Vec::new();
    let mut b = 0;
    let mut i = 0;
    while i < s.len() { if f(&s[i]) { v.push(&s[b..i]); b = i + 1; } i += 1; }
    v.push(&s[b..]);
    v.into_iter()
}
pub fn slice_chunk_by<'a, T, F: FnMut(&T, &T) -> bool>(s: &'a [T], mut f: F) -> std::vec::IntoIter<&'a [T]> {
    let mut v = Vec::new();
    let mut b = 0;
    let mut i = 1;
    while i < s.len() { if !f(&s[i - 1], &s[i]) { v.push(&s[b..i]); b = i; } i += 1; }
    if b < s.len() { v.push(&s[b..]); }
    v.into_iter()
}
pub fn slice_rchunks<'a, T>(s: &'a [T], k: usize) -> std::vec::IntoIter<&'a [T]> {
    if k == 0 { panic!("chunk size must be non-zero"); }
    let mut v = Vec::new();
    let mut e = s.len();
    while e > 0 { let b = if e > k { e - k } else { 0 }; v.push(&s[b..e]); e = b; }
    v.into_iter()
}
/// A slice as an array: the same value to the analysis.
pub fn slice_as_array<'a, T, const N: usize>(_v: &'a [T]) -> &'a [T; N] { unimplemented!() }
pub fn slice_first_chunk<T, const N: usize>(s: &[T]) -> Option<&[T; N]> { if s.len() < N { None } else { Some(slice_as_array(&s[..N])) } }
pub fn slice_last_chunk<T, const N: usize>(s: &[T]) -> Option<&[T; N]> { if s.len() < N { None } else { Some(slice_as_array(&s[s.len() - N..])) } }
pub fn slice_split_first_chunk<T, const N: usize>(s: &[T]) -> Option<(&[T; N], &[T])> { if s.len() < N { None } else { Some((slice_as_array(&s[..N]), &s[N..])) } }
pub fn vec_resize_with<T, A: Allocator, F: FnMut() -> T>(v: &mut Vec<T, A>, n: usize, mut f: F) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(f()); }
}
pub fn vec_extend_from_within<T: Clone, A: Allocator, R: std::ops::RangeBounds<usize>>(v: &mut Vec<T, A>, r: R) {
    let b = match r.start_bound() { std::ops::Bound::Included(x) => *x, std::ops::Bound::Excluded(x) => *x + 1, _ => 0 };
    let e = match r.end_bound() { std::ops::Bound::Included(x) => *x + 1, std::ops::Bound::Excluded(x) => *x, _ => v.len() };
    if b > e || e > v.len() { panic!("range out of bounds"); }
    let mut i = b;
    while i < e { let x = v[i].clone(); v.push(x); i += 1; }
}
fn backwards<T, A: Allocator>(v: &mut Vec<T, A>, n: usize) -> Vec<T> {
    let mut t = Vec::new();
    while v.len() > n { if let Some(x) = v.pop() { t.push(x); } }
    t
}
pub fn vec_splice<T, A: Allocator, R: std::ops::RangeBounds<usize>, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, r: R, with: I) -> std::vec::IntoIter<T> {
    let b = match r.start_bound() { std::ops::Bound::Included(x) => *x, std::ops::Bound::Excluded(x) => *x + 1, _ => 0 };
    let e = match r.end_bound() { std::ops::Bound::Included(x) => *x + 1, std::ops::Bound::Excluded(x) => *x, _ => v.len() };
    if b > e || e > v.len() { panic!("range out of bounds"); }
    let mut tail = backwards(v, e);
    let mut old = backwards(v, b);
    let mut it = with.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    while let Some(x) = tail.pop() { v.push(x); }
    let mut out = Vec::new();
    while let Some(x) = old.pop() { out.push(x); }
    out.into_iter()
}

// integers
macro_rules! steps { ($($n:ident $t:ty),*) => { $(pub fn $n(a: &$t, b: &$t) -> (usize, Option<usize>) { if *a <= *b { let n = (*b as i128 - *a as i128) as usize; (n, Some(n)) } else { (0, None) } })* } }
steps! { steps_usize usize, steps_isize isize, steps_u8 u8, steps_u32 u32, steps_i32 i32, steps_u64 u64, steps_i64 i64 }
macro_rules! divs { ($($a:ident $b:ident $c:ident $d:ident $t:ty),*) => { $(
    pub fn $a(x: $t, y: $t) -> Option<$t> { if y == 0 || (y as i128 == -1 && x == <$t>::MIN) { None } else { Some(x / y) } }
    pub fn $b(x: $t, y: $t) -> Option<$t> { if y == 0 || (y as i128 == -1 && x == <$t>::MIN) { None } else { Some(x % y) } }
    pub fn $c(x: $t, y: $t) -> $t { let q = x / y; if x % y < 0 as $t { if y > 0 as $t { q - 1 } else { q + 1 } } else { q } }
    pub fn $d(x: $t, y: $t) -> $t { let r = x % y; if r < 0 as $t { if y > 0 as $t { r + y } else { r - y } } else { r } }
)* } }
divs! { checked_div_usize checked_rem_usize div_euclid_usize rem_euclid_usize usize, checked_div_isize checked_rem_isize div_euclid_isize rem_euclid_isize isize, checked_div_u32 checked_rem_u32 div_euclid_u32 rem_euclid_u32 u32, checked_div_i32 checked_rem_i32 div_euclid_i32 rem_euclid_i32 i32,
    checked_div_u64 checked_rem_u64 div_euclid_u64 rem_euclid_u64 u64, checked_div_i64 checked_rem_i64 div_euclid_i64 rem_euclid_i64 i64 }
macro_rules! udivs { ($($a:ident $b:ident $t:ty),*) => { $(
    pub fn $a(x: $t, y: $t) -> $t { let q = x / y; if x % y > 0 { q + 1 } else { q } }
    pub fn $b(x: $t, y: $t) -> $t { let r = x % y; if r == 0 { x } else { x + (y - r) } }
)* } }
udivs! { div_ceil_usize next_multiple_of_usize usize, div_ceil_u32 next_multiple_of_u32 u32, div_ceil_u64 next_multiple_of_u64 u64 }

// a closure that recognises characters: those it recognises
fn accepted<F: FnMut(char) -> bool>(mut f: F) -> Vec<char> {
    let mut v = Vec::new();
    let mut i = 0u8;
    while i < 128 { let c = i as char; if f(c) { v.push(c); } i += 1; }
    for c in ['\u{85}', '\u{a0}', '\u{c9}', '\u{e9}', '\u{3000}', '\u{65e5}', '\u{feff}'] { if f(c) { v.push(c); } }
    v
}
/// The same list: to the analysis it lives on.
pub fn kept<'a>(_v: Vec<char>) -> &'a [char] { unimplemented!() }
pub fn strf_split<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> std::str::Split<'a, &'a [char]> { s.split(kept(accepted(f))) }
pub fn strf_rsplit<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> std::str::RSplit<'a, &'a [char]> { s.rsplit(kept(accepted(f))) }
pub fn strf_splitn<'a, F: FnMut(char) -> bool>(s: &'a str, n: usize, f: F) -> std::str::SplitN<'a, &'a [char]> { s.splitn(n, kept(accepted(f))) }
pub fn strf_split_terminator<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> std::str::SplitTerminator<'a, &'a [char]> { s.split_terminator(kept(accepted(f))) }
pub fn strf_split_once<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> Option<(&'a str, &'a str)> { s.split_once(kept(accepted(f))) }
pub fn strf_find<F: FnMut(char) -> bool>(s: &str, f: F) -> Option<usize> { s.find(kept(accepted(f))) }
pub fn strf_rfind<F: FnMut(char) -> bool>(s: &str, f: F) -> Option<usize> { s.rfind(kept(accepted(f))) }
pub fn strf_contains<F: FnMut(char) -> bool>(s: &str, f: F) -> bool { s.contains(kept(accepted(f))) }
pub fn strf_starts_with<F: FnMut(char) -> bool>(s: &str, f: F) -> bool { s.starts_with(kept(accepted(f))) }
pub fn strf_ends_with<F: FnMut(char) -> bool>(s: &str, f: F) -> bool { s.ends_with(kept(accepted(f))) }
pub fn strf_trim_matches<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> &'a str { s.trim_matches(kept(accepted(f))) }
pub fn strf_trim_start_matches<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> &'a str { s.trim_start_matches(kept(accepted(f))) }
pub fn strf_trim_end_matches<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> &'a str { s.trim_end_matches(kept(accepted(f))) }
pub fn strf_strip_prefix<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> Option<&'a str> { s.strip_prefix(kept(accepted(f))) }
pub fn strf_strip_suffix<'a, F: FnMut(char) -> bool>(s: &'a str, f: F) -> Option<&'a str> { s.strip_suffix(kept(accepted(f))) }
pub fn strf_replace<F: FnMut(char) -> bool>(s: &str, f: F, t: &str) -> String { s.replace(kept(accepted(f)), t) }

// strings
pub fn string_pop(s: &mut String) -> Option<char> {
    let t = s.clone();
    s.clear();
    let mut it = t.chars();
    let mut last = None;
    while let Some(c) = it.next() { if let Some(x) = last { s.push(x); } last = Some(c); }
    last
}
pub fn string_insert_str(s: &mut String, at: usize, x: &str) {
    let t = s.clone();
    s.clear();
    s.push_str(&t[..at]);
    s.push_str(x);
    s.push_str(&t[at..]);
}
pub fn string_insert(s: &mut String, at: usize, c: char) {
    let t = s.clone();
    s.clear();
    s.push_str(&t[..at]);
    s.push(c);
    s.push_str(&t[at..]);
}
pub fn string_truncate(s: &mut String, n: usize) {
    if n < s.len() { let t = s.clone(); s.clear(); s.push_str(&t[..n]); }
}
pub fn string_remove(s: &mut String, at: usize) -> char {
    let t = s.clone();
    s.clear();
    let mut it = t[at..].chars();
    match it.next() {
        Some(c) => { s.push_str(&t[..at]); while let Some(c) = it.next() { s.push(c); } c }
        None => panic!("cannot remove a char from the end of a string"),
    }
}
pub fn string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) {
    let t = s.clone();
    s.clear();
    let mut it = t.chars();
    while let Some(c) = it.next() { if f(c) { s.push(c); } }
}

// maps, sets and queues
pub fn mk_hm<K, V, S, A: Allocator>(_v: Vec<(K, V)>, _p: std::marker::PhantomData<A>) -> HashMap<K, V, S, A> { unimplemented!() }
pub fn mk_hm1<K, V, S>(_v: Vec<(K, V)>) -> HashMap<K, V, S> { unimplemented!() }
pub fn mk_hs1<K, S>(_v: Vec<(K, ())>) -> HashSet<K, S> { unimplemented!() }
pub fn mk_bm1<K, V>(_v: Vec<(K, V)>) -> BTreeMap<K, V> { unimplemented!() }
pub fn mk_bs1<K>(_v: Vec<(K, ())>) -> BTreeSet<K> { unimplemented!() }
pub fn mk_vd<T, A: Allocator>(_v: Vec<T, A>) -> VecDeque<T, A> { unimplemented!() }
pub fn un_vd<T, A: Allocator>(_v: VecDeque<T, A>) -> Vec<T, A> { unimplemented!() }
pub fn un_bm<K, V, A: AllocatorClone>(_m: BTreeMap<K, V, A>) -> Vec<(K, V)> { unimplemented!() }
pub fn un_bs<K, A: AllocatorClone>(_m: BTreeSet<K, A>) -> Vec<(K, ())> { unimplemented!() }
fn put<K: PartialEq, V>(v: &mut Vec<(K, V)>, k: K, x: V) {
    let mut i = 0;
    while i < v.len() { if v[i].0 == k { v[i].1 = x; return; } i += 1; }
    v.push((k, x));
}
fn place<K: Ord, V>(v: &mut Vec<(K, V)>, k: K, x: V) {
    let mut i = 0;
    while i < v.len() && v[i].0 < k { i += 1; }
    if i < v.len() && v[i].0 == k { v[i].1 = x; } else { vec_insert(v, i, (k, x)); }
}
pub fn hm_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V, S> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some((k, x)) = it.next() { put(&mut v, k, x); }
    mk_hm1(v)
}
pub fn hm_from_array<K: Eq + Hash, V, const N: usize>(a: [(K, V); N]) -> HashMap<K, V> {
    let mut v = Vec::new();
    let mut it = a.into_iter();
    while let Some((k, x)) = it.next() { put(&mut v, k, x); }
    mk_hm1(v)
}
pub fn hs_from_iter<K: Eq + Hash, S: BuildHasher + Default, I: IntoIterator<Item = K>>(it: I) -> HashSet<K, S> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(k) = it.next() { put(&mut v, k, ()); }
    mk_hs1(v)
}
pub fn hs_from_array<K: Eq + Hash, const N: usize>(a: [K; N]) -> HashSet<K> {
    let mut v = Vec::new();
    let mut it = a.into_iter();
    while let Some(k) = it.next() { put(&mut v, k, ()); }
    mk_hs1(v)
}
pub fn bm_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some((k, x)) = it.next() { place(&mut v, k, x); }
    mk_bm1(v)
}
pub fn bm_from_array<K: Ord, V, const N: usize>(a: [(K, V); N]) -> BTreeMap<K, V> {
    let mut v = Vec::new();
    let mut it = a.into_iter();
    while let Some((k, x)) = it.next() { place(&mut v, k, x); }
    mk_bm1(v)
}
pub fn bs_from_iter<K: Ord, I: IntoIterator<Item = K>>(it: I) -> BTreeSet<K> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(k) = it.next() { place(&mut v, k, ()); }
    mk_bs1(v)
}
pub fn bm_iter<'a, K, V, A: AllocatorClone>(m: &'a BTreeMap<K, V, A>) -> std::vec::IntoIter<(&'a K, &'a V)> {
    let v = bm(m);
    let mut t = Vec::new();
    let mut i = 0;
    while i < v.len() { t.push((&v[i].0, &v[i].1)); i += 1; }
    t.into_iter()
}
pub fn bm_iter_ref<'a: 'a, K, V, A: AllocatorClone>(m: &'a BTreeMap<K, V, A>) -> std::vec::IntoIter<(&'a K, &'a V)> { bm_iter(m) }
pub fn bm_keys<'a, K, V, A: AllocatorClone>(m: &'a BTreeMap<K, V, A>) -> std::vec::IntoIter<&'a K> {
    let v = bm(m);
    let mut t = Vec::new();
    let mut i = 0;
    while i < v.len() { t.push(&v[i].0); i += 1; }
    t.into_iter()
}
pub fn bm_values<'a, K, V, A: AllocatorClone>(m: &'a BTreeMap<K, V, A>) -> std::vec::IntoIter<&'a V> {
    let v = bm(m);
    let mut t = Vec::new();
    let mut i = 0;
    while i < v.len() { t.push(&v[i].1); i += 1; }
    t.into_iter()
}
pub fn bm_into_values<K, V, A: AllocatorClone>(m: BTreeMap<K, V, A>) -> std::vec::IntoIter<V> {
    let mut t = Vec::new();
    let mut it = un_bm(m).into_iter();
    while let Some((_, x)) = it.next() { t.push(x); }
    t.into_iter()
}
pub fn bm_into_iter<K, V, A: AllocatorClone>(m: BTreeMap<K, V, A>) -> std::vec::IntoIter<(K, V)> { un_bm(m).into_iter() }
pub fn bs_iter<'a, K, A: AllocatorClone>(m: &'a BTreeSet<K, A>) -> std::vec::IntoIter<&'a K> {
    let v = bs(m);
    let mut t = Vec::new();
    let mut i = 0;
    while i < v.len() { t.push(&v[i].0); i += 1; }
    t.into_iter()
}
pub fn bs_iter_ref<'a: 'a, K, A: AllocatorClone>(m: &'a BTreeSet<K, A>) -> std::vec::IntoIter<&'a K> { bs_iter(m) }
pub fn bs_into_iter<K, A: AllocatorClone>(m: BTreeSet<K, A>) -> std::vec::IntoIter<K> {
    let mut t = Vec::new();
    let mut it = un_bs(m).into_iter();
    while let Some((k, _)) = it.next() { t.push(k); }
    t.into_iter()
}
fn at<K: Borrow<Q>, V, Q: ?Sized + PartialEq>(v: &Vec<(K, V)>, k: &Q) -> Option<usize> {
    let mut i = 0;
    while i < v.len() { if v[i].0.borrow() == k { return Some(i); } i += 1; }
    None
}
pub fn bm_get_mut<'a, K: Ord + Borrow<Q>, V, A: AllocatorClone, Q: ?Sized + Ord>(m: &'a mut BTreeMap<K, V, A>, k: &Q) -> Option<&'a mut V> {
    let v = bm_mut(m);
    match at(v, k) { Some(i) => Some(&mut v[i].1), None => None }
}
pub fn bm_remove<K: Ord + Borrow<Q>, V, A: AllocatorClone, Q: ?Sized + Ord>(m: &mut BTreeMap<K, V, A>, k: &Q) -> Option<V> {
    let v = bm_mut(m);
    match at(v, k) { Some(i) => Some(vec_remove(v, i).1), None => None }
}
pub fn bm_index<'a, 'b: 'b, K: Ord + Borrow<Q>, Q: ?Sized + Ord, V, A: AllocatorClone>(m: &'a BTreeMap<K, V, A>, k: &'b Q) -> &'a V {
    let v = bm(m);
    match at(v, k) { Some(i) => &v[i].1, None => panic!("no entry found for key") }
}
pub fn bm_first_key_value<K: Ord, V, A: AllocatorClone>(m: &BTreeMap<K, V, A>) -> Option<(&K, &V)> { let v = bm(m); if v.len() == 0 { None } else { Some((&v[0].0, &v[0].1)) } }
pub fn bm_last_key_value<K: Ord, V, A: AllocatorClone>(m: &BTreeMap<K, V, A>) -> Option<(&K, &V)> { let v = bm(m); let n = v.len(); if n == 0 { None } else { Some((&v[n - 1].0, &v[n - 1].1)) } }
use std::collections::btree_map::Entry as BEntry;
use std::collections::hash_map::Entry as HEntry;
pub fn mk_bentry<'a, K, V, A: AllocatorClone>(_x: (&'a mut Vec<(K, V)>, K)) -> BEntry<'a, K, V, A> { unimplemented!() }
pub fn un_bentry<'a, K, V, A: AllocatorClone>(_x: BEntry<'a, K, V, A>) -> (&'a mut Vec<(K, V)>, K) { unimplemented!() }
pub fn bm_entry<'a, K: Ord, V, A: AllocatorClone>(m: &'a mut BTreeMap<K, V, A>, k: K) -> BEntry<'a, K, V, A> { mk_bentry((bm_mut(m), k)) }
fn slot<'a, K: Ord, V>(v: &'a mut Vec<(K, V)>, k: K, f: impl FnOnce() -> V) -> &'a mut V {
    let mut i = 0;
    while i < v.len() && v[i].0 < k { i += 1; }
    if !(i < v.len() && v[i].0 == k) { vec_insert(v, i, (k, f())); }
    &mut v[i].1
}
pub fn bm_or_insert<'a: 'a, K: Ord, V, A: AllocatorClone>(e: BEntry<'a, K, V, A>, x: V) -> &'a mut V { let (v, k) = un_bentry(e); slot(v, k, || x) }
pub fn bm_or_insert_with<'a: 'a, K: Ord, V, A: AllocatorClone, F: FnOnce() -> V>(e: BEntry<'a, K, V, A>, f: F) -> &'a mut V { let (v, k) = un_bentry(e); slot(v, k, f) }
pub fn bm_or_default<'a: 'a, K: Ord, V: Default, A: AllocatorClone>(e: BEntry<'a, K, V, A>) -> &'a mut V { let (v, k) = un_bentry(e); slot(v, k, || V::default()) }
pub fn hm_and_modify<'a: 'a, K: Eq + Hash, V, A: Allocator, F: FnOnce(&mut V)>(e: HEntry<'a, K, V, A>, f: F) -> HEntry<'a, K, V, A> {
    let (v, k) = un_entry(e);
    if let Some(i) = at(v, &k) { f(&mut v[i].1); }
    mk_entry((v, k))
}
pub fn vd_index<T, A: Allocator>(m: &VecDeque<T, A>, i: usize) -> &T { &vd(m)[i] }
pub fn vd_from_vec<T, A: Allocator>(v: Vec<T, A>) -> VecDeque<T, A> { mk_vd(v) }
pub fn vd_into_iter<T, A: Allocator>(v: VecDeque<T, A>) -> std::vec::IntoIter<T, A> { un_vd(v).into_iter() }
pub fn vd_iter<'a, T, A: Allocator>(m: &'a VecDeque<T, A>) -> std::slice::Iter<'a, T> { vd(m).iter() }

pub fn slice_is_sorted_by<'a: 'a, T, F: FnMut(&'a T, &'a T) -> bool>(s: &'a [T], mut f: F) -> bool {
    let mut i = 1;
    while i < s.len() { if !f(&s[i - 1], &s[i]) { return false; } i += 1; }
    true
}
pub fn slice_is_sorted_by_key<'a: 'a, T, F: FnMut(&'a T) -> K, K: PartialOrd>(s: &'a [T], mut f: F) -> bool {
    let mut i = 1;
    while i < s.len() { let (x, y) = (f(&s[i - 1]), f(&s[i])); if !(x <= y) { return false; } i += 1; }
    true
}
pub fn clamp_f64(x: f64, lo: f64, hi: f64) -> f64 {
    if !(lo <= hi) { panic!("min > max, or either was NaN"); }
    let mut y = x;
    if y < lo { y = lo; }
    if y > hi { y = hi; }
    y
}

pub fn cell_take<T: Default>(c: &std::cell::Cell<T>) -> T { c.replace(T::default()) }
pub fn refcell_take<T: Default>(c: &std::cell::RefCell<T>) -> T { c.replace(T::default()) }
pub fn cell_update<T: Copy>(c: &std::cell::Cell<T>, f: impl FnOnce(T) -> T) { c.set(f(c.get())); }
pub fn cell_default<T: Default>() -> std::cell::Cell<T> { std::cell::Cell::new(T::default()) }
pub fn refcell_default<T: Default>() -> std::cell::RefCell<T> { std::cell::RefCell::new(T::default()) }
