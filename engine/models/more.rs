//! Further stand-ins: methods of Vec, slices, maps and sets.
use std::alloc::{Allocator, AllocatorClone};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

fn unload<T, A: Allocator>(v: &mut Vec<T, A>) -> Vec<T> {
    // the elements, last first
    let mut t = Vec::new();
    while let Some(x) = v.pop() { t.push(x); }
    t
}
pub fn vec_dedup<T: PartialEq, A: Allocator>(v: &mut Vec<T, A>) {
    let mut t = unload(v);
    while let Some(x) = t.pop() {
        let same = match v.last() { Some(y) => *y == x, None => false };
        if !same { v.push(x); }
    }
}
pub fn vec_dedup_by<T, A: Allocator, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let mut t = unload(v);
    while let Some(mut x) = t.pop() {
        let same = match v.last_mut() { Some(y) => f(&mut x, y), None => false };
        if !same { v.push(x); }
    }
}
pub fn vec_dedup_by_key<T, A: Allocator, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T, A>, mut f: F) {
    let mut t = unload(v);
    while let Some(mut x) = t.pop() {
        let same = match v.last_mut() { Some(y) => f(&mut x) == f(y), None => false };
        if !same { v.push(x); }
    }
}
pub fn vec_retain<T, A: Allocator, F: FnMut(&T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let mut t = unload(v);
    while let Some(x) = t.pop() { if f(&x) { v.push(x); } }
}
pub fn vec_retain_mut<T, A: Allocator, F: FnMut(&mut T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let mut t = unload(v);
    while let Some(mut x) = t.pop() { if f(&mut x) { v.push(x); } }
}
pub fn vec_insert<T, A: Allocator>(v: &mut Vec<T, A>, i: usize, x: T) {
    if i > v.len() { panic!("insertion index out of bounds"); }
    let mut t = Vec::new();
    while v.len() > i { match v.pop() { Some(y) => t.push(y), None => {} } }
    v.push(x);
    while let Some(y) = t.pop() { v.push(y); }
}
pub fn vec_remove<T, A: Allocator>(v: &mut Vec<T, A>, i: usize) -> T {
    if i >= v.len() { panic!("removal index out of bounds"); }
    let mut t = Vec::new();
    while v.len() > i + 1 { match v.pop() { Some(y) => t.push(y), None => {} } }
    let r = match v.pop() { Some(r) => r, None => panic!("removal index out of bounds") };
    while let Some(y) = t.pop() { v.push(y); }
    r
}
pub fn vec_swap_remove<T, A: Allocator>(v: &mut Vec<T, A>, i: usize) -> T {
    let n = v.len();
    if i >= n { panic!("swap_remove index out of bounds"); }
    v.swap(i, n - 1);
    match v.pop() { Some(r) => r, None => panic!("swap_remove index out of bounds") }
}
pub fn vec_resize<T: Clone, A: Allocator>(v: &mut Vec<T, A>, n: usize, x: T) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(x.clone()); }
}
pub fn vec_pop_if<T, A: Allocator>(v: &mut Vec<T, A>, f: impl FnOnce(&mut T) -> bool) -> Option<T> {
    let yes = match v.last_mut() { Some(x) => f(x), None => false };
    if yes { v.pop() } else { None }
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < s.len() { if s[i] == *x { return true; } i += 1; }
    false
}
pub fn slice_starts_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if s.len() < x.len() { return false; }
    let mut i = 0;
    while i < x.len() { if s[i] != x[i] { return false; } i += 1; }
    true
}
pub fn slice_ends_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if s.len() < x.len() { return false; }
    let d = s.len() - x.len();
    let mut i = 0;
    while i < x.len() { if s[d + i] != x[i] { return false; } i += 1; }
    true
}
pub fn slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> { if s.len() == 0 { None } else { Some((&s[0], &s[1..])) } }
pub fn slice_split_last<T>(s: &[T]) -> Option<(&T, &[T])> { let n = s.len(); if n == 0 { None } else { Some((&s[n - 1], &s[..n - 1])) } }
pub fn slice_split_at<T>(s: &[T], m: usize) -> (&[T], &[T]) { if m > s.len() { panic!("mid > len"); } (&s[..m], &s[m..]) }
pub fn slice_split_at_checked<T>(s: &[T], m: usize) -> Option<(&[T], &[T])> { if m > s.len() { None } else { Some((&s[..m], &s[m..])) } }
pub fn slice_sort<T: Ord>(s: &mut [T]) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && s[j] < s[j - 1] { s.swap(j, j - 1); j -= 1; }
        i += 1;
    }
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == std::cmp::Ordering::Less { s.swap(j, j - 1); j -= 1; }
        i += 1;
    }
}
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j]) < f(&s[j - 1]) { s.swap(j, j - 1); j -= 1; }
        i += 1;
    }
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
pub fn vec_eq<T: PartialEq<U>, U, A1: Allocator, A2: Allocator>(a: &Vec<T, A1>, b: &Vec<U, A2>) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
pub fn vec_eq_slice<T: PartialEq<U>, U, A: Allocator>(a: &Vec<T, A>, b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
pub fn vec_eq_slice_ref<T: PartialEq<U>, U, A: Allocator>(a: &Vec<T, A>, b: &&[U]) -> bool { vec_eq_slice(a, *b) }
pub fn vec_eq_array<T: PartialEq<U>, U, A: Allocator, const N: usize>(a: &Vec<T, A>, b: &[U; N]) -> bool { vec_eq_slice(a, &b[..]) }
pub fn array_eq<T: PartialEq<U>, U, const N: usize>(a: &[T; N], b: &[U; N]) -> bool {
    let mut i = 0;
    while i < N { if a[i] != b[i] { return false; } i += 1; }
    true
}
pub fn slice_fill<T: Clone>(s: &mut [T], x: T) { let mut i = 0; while i < s.len() { s[i] = x.clone(); i += 1; } }
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut it = a.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(f(x)); }
    vec_as_array(v)
}
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut v = Vec::new();
    let mut i = 0;
    while i < N { v.push(f(i)); i += 1; }
    vec_as_array(v)
}
/// A vector as an array: the same value to the analysis.
pub fn vec_as_array<T, const N: usize>(_v: Vec<T>) -> [T; N] { unimplemented!() }

// maps and sets are association lists to the analysis
pub fn hm<K, V, S, A: Allocator>(_m: &HashMap<K, V, S, A>) -> &Vec<(K, V)> { unimplemented!() }
pub fn hm_mut<K, V, S, A: Allocator>(_m: &mut HashMap<K, V, S, A>) -> &mut Vec<(K, V)> { unimplemented!() }
pub fn hs<K, S, A: Allocator>(_m: &HashSet<K, S, A>) -> &Vec<(K, ())> { unimplemented!() }
pub fn hs_mut<K, S, A: Allocator>(_m: &mut HashSet<K, S, A>) -> &mut Vec<(K, ())> { unimplemented!() }
pub fn bm<K, V, A: AllocatorClone>(_m: &BTreeMap<K, V, A>) -> &Vec<(K, V)> { unimplemented!() }
pub fn bm_mut<K, V, A: AllocatorClone>(_m: &mut BTreeMap<K, V, A>) -> &mut Vec<(K, V)> { unimplemented!() }
pub fn bs<K, A: AllocatorClone>(_m: &BTreeSet<K, A>) -> &Vec<(K, ())> { unimplemented!() }
pub fn bs_mut<K, A: AllocatorClone>(_m: &mut BTreeSet<K, A>) -> &mut Vec<(K, ())> { unimplemented!() }

use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash};
fn find<K: Borrow<Q>, V, Q: ?Sized + PartialEq>(v: &Vec<(K, V)>, k: &Q) -> Option<usize> {
    let mut i = 0;
    while i < v.len() { if v[i].0.borrow() == k { return Some(i); } i += 1; }
    None
}
pub fn hm_get<'a, K: Eq + Hash + Borrow<Q>, V, S: BuildHasher, A: Allocator, Q: ?Sized + Hash + Eq>(m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V> {
    let v = hm(m);
    match find(v, k) { Some(i) => Some(&v[i].1), None => None }
}
pub fn hm_contains_key<K: Eq + Hash + Borrow<Q>, V, S: BuildHasher, A: Allocator, Q: ?Sized + Hash + Eq>(m: &HashMap<K, V, S, A>, k: &Q) -> bool { find(hm(m), k).is_some() }
pub fn hm_insert<K: Eq + Hash, V, S: BuildHasher, A: Allocator>(m: &mut HashMap<K, V, S, A>, k: K, x: V) -> Option<V> {
    let v = hm_mut(m);
    match find(v, &k) { Some(i) => Some(std::mem::replace(&mut v[i].1, x)), None => { v.push((k, x)); None } }
}
pub fn hs_contains<T: Eq + Hash + Borrow<Q>, S: BuildHasher, A: Allocator, Q: ?Sized + Hash + Eq>(m: &HashSet<T, S, A>, k: &Q) -> bool { find(hs(m), k).is_some() }
pub fn hs_insert<T: Eq + Hash, S: BuildHasher, A: Allocator>(m: &mut HashSet<T, S, A>, k: T) -> bool {
    let v = hs_mut(m);
    match find(v, &k) { Some(_) => false, None => { v.push((k, ())); true } }
}
pub fn bm_get<'a, K: Ord + Borrow<Q>, V, A: AllocatorClone, Q: ?Sized + Ord>(m: &'a BTreeMap<K, V, A>, k: &Q) -> Option<&'a V> {
    let v = bm(m);
    match find(v, k) { Some(i) => Some(&v[i].1), None => None }
}
pub fn bm_contains_key<K: Ord + Borrow<Q>, V, A: AllocatorClone, Q: ?Sized + Ord>(m: &BTreeMap<K, V, A>, k: &Q) -> bool { find(bm(m), k).is_some() }
pub fn bm_insert<K: Ord, V, A: AllocatorClone>(m: &mut BTreeMap<K, V, A>, k: K, x: V) -> Option<V> {
    let v = bm_mut(m);
    let mut i = 0;
    while i < v.len() && v[i].0 < k { i += 1; }
    if i < v.len() && v[i].0 == k { Some(std::mem::replace(&mut v[i].1, x)) } else { vec_insert(v, i, (k, x)); None }
}
pub fn bs_contains<T: Ord + Borrow<Q>, A: AllocatorClone, Q: ?Sized + Ord>(m: &BTreeSet<T, A>, k: &Q) -> bool { find(bs(m), k).is_some() }
pub fn bs_insert<T: Ord, A: AllocatorClone>(m: &mut BTreeSet<T, A>, k: T) -> bool {
    let v = bs_mut(m);
    let mut i = 0;
    while i < v.len() && v[i].0 < k { i += 1; }
    if i < v.len() && v[i].0 == k { false } else { vec_insert(v, i, (k, ())); true }
}
// double-ended queues are vectors to the analysis
pub fn vd<T, A: Allocator>(_m: &VecDeque<T, A>) -> &Vec<T> { unimplemented!() }
pub fn vd_mut<T, A: Allocator>(_m: &mut VecDeque<T, A>) -> &mut Vec<T> { unimplemented!() }
pub fn vd_pop_front<T, A: Allocator>(m: &mut VecDeque<T, A>) -> Option<T> { let v = vd_mut(m); if v.len() == 0 { None } else { Some(vec_remove(v, 0)) } }
pub fn vd_push_front<T, A: Allocator>(m: &mut VecDeque<T, A>, x: T) { vec_insert(vd_mut(m), 0, x) }

pub fn slice_is_sorted<T: PartialOrd>(s: &[T]) -> bool {
    let mut i = 1;
    while i < s.len() { if !(s[i - 1] <= s[i]) { return false; } i += 1; }
    true
}
use std::collections::hash_map::Entry;
pub fn hm_get_mut<'a, K: Eq + Hash + Borrow<Q>, V, S: BuildHasher, A: Allocator, Q: ?Sized + Hash + Eq>(m: &'a mut HashMap<K, V, S, A>, k: &Q) -> Option<&'a mut V> {
    let v = hm_mut(m);
    match find(v, k) { Some(i) => Some(&mut v[i].1), None => None }
}
pub fn hm_remove<K: Eq + Hash + Borrow<Q>, V, S: BuildHasher, A: Allocator, Q: ?Sized + Hash + Eq>(m: &mut HashMap<K, V, S, A>, k: &Q) -> Option<V> {
    let v = hm_mut(m);
    match find(v, k) { Some(i) => Some(vec_remove(v, i).1), None => None }
}
pub fn hm_index<'a, 'b: 'b, K: Eq + Hash + Borrow<Q>, Q: ?Sized + Hash + Eq, V, S: BuildHasher, A: Allocator>(m: &'a HashMap<K, V, S, A>, k: &'b Q) -> &'a V {
    let v = hm(m);
    match find(v, k) { Some(i) => &v[i].1, None => panic!("no entry found for key") }
}

pub fn mk_entry<'a, K, V, A: Allocator>(_x: (&'a mut Vec<(K, V)>, K)) -> Entry<'a, K, V, A> { unimplemented!() }
pub fn un_entry<'a, K, V, A: Allocator>(_x: Entry<'a, K, V, A>) -> (&'a mut Vec<(K, V)>, K) { unimplemented!() }
pub fn hm_entry<'a, K: Eq + Hash, V, S: BuildHasher, A: Allocator>(m: &'a mut HashMap<K, V, S, A>, k: K) -> Entry<'a, K, V, A> { mk_entry((hm_mut(m), k)) }
pub fn hm_or_insert<'a: 'a, K: Eq + Hash, V, A: Allocator>(e: Entry<'a, K, V, A>, x: V) -> &'a mut V {
    let (v, k) = un_entry(e);
    match find(v, &k) { Some(i) => &mut v[i].1, None => { v.push((k, x)); let n = v.len(); &mut v[n - 1].1 } }
}
pub fn hm_or_insert_with<'a: 'a, K: Eq + Hash, V, A: Allocator, F: FnOnce() -> V>(e: Entry<'a, K, V, A>, f: F) -> &'a mut V {
    let (v, k) = un_entry(e);
    match find(v, &k) { Some(i) => &mut v[i].1, None => { v.push((k, f())); let n = v.len(); &mut v[n - 1].1 } }
}
pub fn hm_or_default<'a: 'a, K: Eq + Hash, V: Default, A: Allocator>(e: Entry<'a, K, V, A>) -> &'a mut V {
    let (v, k) = un_entry(e);
    match find(v, &k) { Some(i) => &mut v[i].1, None => { v.push((k, V::default())); let n = v.len(); &mut v[n - 1].1 } }
}
