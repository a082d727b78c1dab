//! Bodies that stand in for library functions whose real bodies go through raw
//! pointers or specialisation.  Each has the generic parameters of the function
//! it replaces, in the same order; the analysed program's calls are redirected
//! here (see `redirect` in lower.rs).  They are analysed, never run.
#![feature(allocator_ext, try_trait_v2)]
#![allow(dead_code)]
mod more;
mod extra;
pub use more::*;
pub use extra::*;
use std::alloc::Allocator;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(iter: I) -> Vec<T> {
    let mut it = iter.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, A: Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, iter: I) {
    let mut it = iter.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, A: Allocator, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T, A>, iter: I) {
    let mut it = iter.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn string_from_iter_str<'a, I: IntoIterator<Item = &'a str>>(iter: I) -> String {
    let mut it = iter.into_iter();
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(x);
    }
    v
}
pub fn string_from_iter_string<I: IntoIterator<Item = String>>(iter: I) -> String {
    let mut it = iter.into_iter();
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(&x);
    }
    v
}
pub fn string_from_iter_char<I: IntoIterator<Item = char>>(iter: I) -> String {
    let mut it = iter.into_iter();
    let mut v = String::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn string_from_iter_charref<'a, I: IntoIterator<Item = &'a char>>(iter: I) -> String {
    let mut it = iter.into_iter();
    let mut v = String::new();
    while let Some(x) = it.next() { v.push(*x); }
    v
}
pub fn string_extend_char<I: IntoIterator<Item = char>>(v: &mut String, iter: I) {
    let mut it = iter.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn string_extend_str<'a, I: IntoIterator<Item = &'a str>>(v: &mut String, iter: I) {
    let mut it = iter.into_iter();
    while let Some(x) = it.next() { v.push_str(x); }
}
pub fn slice_rposition<'a, T: 'a, P: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } }
    None
}
macro_rules! back_models {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            #![allow(unused_imports)]
            use std::alloc::Allocator;
            pub fn rfind<$($g)*, P: FnMut(&<$t as Iterator>::Item) -> bool>(it: &mut $t, mut f: P) -> Option<<$t as Iterator>::Item> {
                while let Some(x) = it.next_back() { if f(&x) { return Some(x); } }
                None
            }
            pub fn rfold<$($g)*, B, F: FnMut(B, <$t as Iterator>::Item) -> B>(it: $t, init: B, mut f: F) -> B {
                let mut it = it;
                let mut acc = init;
                while let Some(x) = it.next_back() { acc = f(acc, x); }
                acc
            }
            pub fn nth_back<$($g)*>(it: &mut $t, n: usize) -> Option<<$t as Iterator>::Item> {
                let mut n = n;
                while n > 0 { if it.next_back().is_none() { return None; } n -= 1; }
                it.next_back()
            }
            pub fn try_rfold<$($g)*, B, F, R>(it: &mut $t, init: B, mut f: F) -> R
            where F: FnMut(B, <$t as Iterator>::Item) -> R, R: std::ops::Try<Output = B> {
                let mut acc = init;
                while let Some(x) = it.next_back() { acc = f(acc, x)?; }
                R::from_output(acc)
            }
        }
    };
}
back_models!(slice_iter_b, ['a, T: 'a], std::slice::Iter<'a, T>);
back_models!(vec_into_iter_b, [T, A: Allocator], std::vec::IntoIter<T, A>);
back_models!(chars_b, ['a], std::str::Chars<'a>);
macro_rules! iter_models {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            #![allow(unused_imports)]
            use std::alloc::Allocator;
            pub fn all<$($g)*, F: FnMut(<$t as Iterator>::Item) -> bool>(it: &mut $t, mut f: F) -> bool {
                while let Some(x) = it.next() { if !f(x) { return false; } }
                true
            }
            pub fn any<$($g)*, F: FnMut(<$t as Iterator>::Item) -> bool>(it: &mut $t, mut f: F) -> bool {
                while let Some(x) = it.next() { if f(x) { return true; } }
                false
            }
            pub fn position<$($g)*, P: FnMut(<$t as Iterator>::Item) -> bool>(it: &mut $t, mut f: P) -> Option<usize> {
                let mut i = 0;
                while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
                None
            }
            pub fn find<$($g)*, P: FnMut(&<$t as Iterator>::Item) -> bool>(it: &mut $t, mut f: P) -> Option<<$t as Iterator>::Item> {
                while let Some(x) = it.next() { if f(&x) { return Some(x); } }
                None
            }
            pub fn find_map<$($g)*, B, F: FnMut(<$t as Iterator>::Item) -> Option<B>>(it: &mut $t, mut f: F) -> Option<B> {
                while let Some(x) = it.next() { let r = f(x); if r.is_some() { return r; } }
                None
            }
            pub fn for_each<$($g)*, F: FnMut(<$t as Iterator>::Item)>(it: $t, mut f: F) {
                let mut it = it;
                while let Some(x) = it.next() { f(x); }
            }
            pub fn fold<$($g)*, B, F: FnMut(B, <$t as Iterator>::Item) -> B>(it: $t, init: B, mut f: F) -> B {
                let mut it = it;
                let mut acc = init;
                while let Some(x) = it.next() { acc = f(acc, x); }
                acc
            }
            pub fn count<$($g)*>(it: $t) -> usize {
                let mut it = it;
                let mut n = 0;
                while let Some(_) = it.next() { n += 1; }
                n
            }
            pub fn last<$($g)*>(it: $t) -> Option<<$t as Iterator>::Item> {
                let mut it = it;
                let mut r = None;
                while let Some(x) = it.next() { r = Some(x); }
                r
            }
            pub fn nth<$($g)*>(it: &mut $t, n: usize) -> Option<<$t as Iterator>::Item> {
                let mut n = n;
                while n > 0 { if it.next().is_none() { return None; } n -= 1; }
                it.next()
            }
            pub fn advance_by<$($g)*>(it: &mut $t, n: usize) -> Result<(), std::num::NonZero<usize>> {
                let mut k = n;
                while k > 0 {
                    if it.next().is_none() { return match std::num::NonZero::new(k) { Some(z) => Err(z), None => Ok(()) }; }
                    k -= 1;
                }
                Ok(())
            }
            pub fn try_fold<$($g)*, B, F, R>(it: &mut $t, init: B, mut f: F) -> R
            where F: FnMut(B, <$t as Iterator>::Item) -> R, R: std::ops::Try<Output = B> {
                let mut acc = init;
                while let Some(x) = it.next() { acc = f(acc, x)?; }
                R::from_output(acc)
            }
        }
    };
}
iter_models!(slice_iter, ['a, T: 'a], std::slice::Iter<'a, T>);
iter_models!(slice_iter_mut, ['a, T: 'a], std::slice::IterMut<'a, T>);
iter_models!(vec_into_iter, [T, A: Allocator], std::vec::IntoIter<T, A>);
iter_models!(chars, ['a], std::str::Chars<'a>);
iter_models!(bytes, ['a], std::str::Bytes<'a>);
iter_models!(array_into_iter, [T, const N: usize], std::array::IntoIter<T, N>);
iter_models!(slice_windows, ['a, T: 'a], std::slice::Windows<'a, T>);
iter_models!(slice_chunks, ['a, T: 'a], std::slice::Chunks<'a, T>);
iter_models!(slice_chunks_exact, ['a, T: 'a], std::slice::ChunksExact<'a, T>);
iter_models!(str_words, ['a], std::str::SplitWhitespace<'a>);
iter_models!(str_ascii_words, ['a], std::str::SplitAsciiWhitespace<'a>);
iter_models!(str_lines, ['a], std::str::Lines<'a>);
iter_models!(char_indices, ['a], std::str::CharIndices<'a>);
iter_models!(vd_it, ['a, T: 'a], std::collections::vec_deque::Iter<'a, T>);
iter_models!(bm_it, ['a, K: 'a, V: 'a], std::collections::btree_map::Iter<'a, K, V>);
iter_models!(bm_keys_it, ['a, K, V], std::collections::btree_map::Keys<'a, K, V>);
iter_models!(bm_values_it, ['a, K, V], std::collections::btree_map::Values<'a, K, V>);
iter_models!(bs_it, ['a, T], std::collections::btree_set::Iter<'a, T>);
