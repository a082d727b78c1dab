//! Models of the library functions that the analysed code bottoms out in.
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::spec;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum N {
    Fetch,
    Clone, Ident, AsRefRef, StrEq, StrNe, StrParse, StrIsEmpty, StrLen, StrSplit, SplitNext, FromUtf8,
    StringNew, StringFrom, ToString, PushStr, PushChar,
    FmtArgs, FmtFormat, FmtArg, FmtFromStr, FmtWrite, FmtWriteStr, FmtArgKind(u32), FmtShow, FmtWriteChar,
    VecNew, VecPush, VecLen, VecIsEmpty, VecIndex, VecIndexMut, VecClear, VecPop, VecTruncate, VecExtendSlice, VecFromElem, VecAppend, VecReserve,
    SliceGet, SliceGetMut, SliceFirst, SliceLast, SliceLastMut, SliceIter, SliceIterMut, VecIntoIter, IterNext, IterNextBack, IterMutNext, IterMutNextBack, SplitAtMut, IntoIterNext, IterLen, SizeHint,
    SliceWindows, WindowsNext, SliceReverse, SliceToVec, SliceContains, SliceSwap,
    SeqEq, SeqNe,
    MemReplace, MemTake, MemSwap,
    StepFwd, StepBwd,
    DefaultOf,
    Panic,
    DiscrVal,
    UbGetMut, StrUbGet, UbAdd, UbSub, UbAssert, UbHere,
    CheckedAdd, CheckedSub, CheckedMul, WrappingAdd, WrappingSub, SaturatingSub, SaturatingAdd, UnsignedAbs, Abs, AbsOr(u8), IsPositive, IsNegative, CheckedAddSigned, WrappingAddSigned,
    Nop, CtPop, CellNew, CellGet, CellSet, CellReplace, CellIn, Guard,
    BoxNew,
    FloatIs(Bin),
    StrM, CharM, ByteM, IntoIterNextBack, IMin, IMax, TryFromInt, VecDrain, SliceChunks, ChunksNext, IterGet, Join, StrCmp, StrIndex, Rem, AbsDiff, Pow, WrappingNeg, WrappingMul, Signum, VecSplitOff, SliceFirstMut, FromUtf8Unchecked, UbGet, FmtLower, Overflowing(Bin), CheckedNeg, FloatF(&'static str), IterRemaining, StepChk(bool), StepOver(bool), BoxDeref, BoxUninit, BoxIntoVec, BoxInner, StringAdd, FromChar, StrGet, ArrFrom, AsCRef, NonZero, SplitNextBack, ConcatSeq, ByRefLen,
}

pub fn native_of(path: &str, full: &str) -> Option<N> {
    use N::*;
    let _ = full;
    let p = path;
    if let Some(r) = p.strip_prefix("std::vec::Vec::<T>::").or_else(|| p.strip_prefix("std::vec::Vec::<T, A>::")) {
        return Some(match r {
            "new" | "with_capacity" => VecNew,
            "push" => VecPush, "len" => VecLen, "is_empty" => VecIsEmpty, "clear" => VecClear, "pop" => VecPop, "truncate" => VecTruncate,
            "extend_from_slice" => VecExtendSlice, "append" => VecAppend, "reserve" | "shrink_to_fit" | "reserve_exact" => VecReserve,
            "as_slice" | "as_mut_slice" => Ident,
            "drain" => VecDrain, "split_off" => VecSplitOff, "into_boxed_slice" => BoxNew,
            _ => return None,
        });
    }
    if let Some(r) = p.strip_prefix("core::slice::<impl [T]>::").or_else(|| p.strip_prefix("std::slice::<impl [T]>::")).or_else(|| p.strip_prefix("alloc::slice::<impl [T]>::")) {
        return Some(match r {
            "get" => SliceGet, "get_mut" => SliceGetMut, "len" => VecLen, "is_empty" => VecIsEmpty, "first" => SliceFirst, "last" => SliceLast, "last_mut" => SliceLastMut,
            "iter" => SliceIter, "iter_mut" => SliceIterMut, "windows" => SliceWindows, "reverse" => SliceReverse, "to_vec" | "into_vec" => SliceToVec,
            "contains" => SliceContains, "swap" => SliceSwap, "chunks" | "chunks_exact" => SliceChunks, "first_mut" => SliceFirstMut, "split_at_mut" => SplitAtMut, "join" | "concat" => Join,
            "get_unchecked" => UbGet, "get_unchecked_mut" => UbGetMut,
            _ => return None,
        });
    }
    if let Some(r) = p.strip_prefix("core::str::<impl str>::") {
        return Some(match r {
            "parse" => StrParse, "get" => StrGet, "get_unchecked" => StrUbGet, "split" => StrSplit, "is_empty" => StrIsEmpty, "len" => StrLen, "as_bytes" => Ident,
            _ => StrM,
        });
    }
    if let Some(r) = p.strip_prefix("std::str::<impl str>::").or_else(|| p.strip_prefix("alloc::str::<impl str>::")) {
        if ["to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat"].contains(&r) { return Some(StrM); }
    }
    if p.starts_with("<std::str::") && !p.starts_with("<std::str::Split<") {
        if p.ends_with(" as std::iter::Iterator>::next") { return Some(IntoIterNext); }
        if p.ends_with(" as std::iter::DoubleEndedIterator>::next_back") { return Some(IntoIterNextBack); }
    }
    if p.starts_with("<std::collections::hash_map::Iter") { return None; }
    if p.starts_with("std::collections::") {
        let m = p.rsplit("::").next().unwrap();
        if p.starts_with("std::collections::VecDeque") {
            return Some(match m { "new" | "with_capacity" => VecNew, "push_back" => VecPush, "pop_back" => VecPop, "len" => VecLen, "is_empty" => VecIsEmpty, "clear" => VecClear, "front" => SliceFirst, "back" => SliceLast, "get" => SliceGet, "iter" => SliceIter, _ => return None });
        }
        return Some(match m { "new" | "with_capacity" => VecNew, "len" => VecLen, "is_empty" => VecIsEmpty, "clear" => VecClear, _ => return None });
    }
    if let Some(r) = p.strip_prefix("std::char::methods::<impl char>::").or_else(|| p.strip_prefix("core::char::methods::<impl char>::")) { let _ = r; return Some(CharM); }
    if let Some(r) = p.strip_prefix("core::num::<impl u8>::") { if r.starts_with("is_ascii") || r.starts_with("to_ascii") { return Some(ByteM); } }
    if p.starts_with("core::convert::num::") && p.contains("TryFrom<") && p.ends_with("::try_from") { return Some(TryFromInt); }
    if p.starts_with("core::convert::num::") && p.contains("From<") && p.ends_with("::from") && !p.contains("for f") { return Some(Ident); }
    if let Some(r) = p.strip_prefix("core::f64::<impl f64>::").or_else(|| p.strip_prefix("std::f64::<impl f64>::")).or_else(|| p.strip_prefix("core::num::<impl f64>::")).or_else(|| p.strip_prefix("core::f32::<impl f32>::")).or_else(|| p.strip_prefix("core::num::<impl f32>::")) {
        return Some(match r { "is_nan" => FloatIs(Bin::Rem), "is_infinite" => FloatIs(Bin::Xor), "is_finite" => FloatIs(Bin::Or), "is_sign_negative" => FloatIs(Bin::And), "is_sign_positive" => FloatIs(Bin::Offset), "abs" => FloatF("abs"), r => match crate::witness::FUNCS.iter().find(|x| **x == r) { Some(x) => FloatF(x), None => return None } });
    }
    if let Some(m) = p.strip_prefix("objmodels::more::").or_else(|| p.strip_prefix("objmodels::extra::")).or_else(|| p.strip_prefix("objmodels::")) {
        return match m { "hm" | "hm_mut" | "hs" | "hs_mut" | "bm" | "bm_mut" | "bs" | "bs_mut" | "vd" | "vd_mut" | "vec_as_array" | "mk_entry" | "un_entry" | "mk_hm1" | "mk_hs1" | "mk_bm1" | "mk_bs1" | "mk_vd" | "un_vd" | "un_bm" | "un_bs" | "mk_bentry" | "un_bentry" | "slice_as_array" => Some(Ident), "kept" => Some(AsCRef), _ => None };
    }
    if let Some(r) = p.strip_prefix("std::string::String::") {
        return Some(match r {
            "new" | "with_capacity" => StringNew, "push_str" => PushStr, "push" => PushChar, "as_str" | "as_bytes" | "into_bytes" => Ident, "into_boxed_str" => BoxNew, "is_empty" => StrIsEmpty, "len" => StrLen,
            "from_utf8_unchecked" => FromUtf8Unchecked, "from_utf8" => FromUtf8, "from_utf8_lossy" => FromUtf8Unchecked, "clear" => VecClear, "reserve" => VecReserve,
            _ => return None,
        });
    }
    if p.ends_with(">::from_str") && (p.starts_with("core::num::") || p.starts_with("std::num::")) && p.contains("FromStr for ") { return Some(StrParse); }
    if p == "std::char::convert::<impl std::convert::From<u8> for char>::from" || p == "core::char::convert::<impl std::convert::From<u8> for char>::from" { return Some(Ident); }
    if p.starts_with("core::num::<impl ") && p.ends_with(">::from_str_radix") { return Some(StrParse); }
    if p.ends_with("::from_str") && p.contains("FromStr for f") { return Some(StrParse); }
    if p.starts_with("core::num::<impl ") {
        let m = p.rsplit("::").next().unwrap();
        return Some(match m {
            "checked_add" => CheckedAdd, "checked_sub" => CheckedSub, "checked_mul" => CheckedMul, "wrapping_add" => WrappingAdd, "wrapping_sub" => WrappingSub,
            "saturating_sub" => SaturatingSub, "saturating_add" => SaturatingAdd, "unsigned_abs" => UnsignedAbs, "abs" => Abs, "is_positive" => IsPositive, "is_negative" => IsNegative,
            "checked_add_signed" => CheckedAddSigned, "wrapping_add_signed" => WrappingAddSigned,
            "unchecked_add" => UbAdd, "unchecked_sub" => UbSub,
            "rem_euclid" => Rem, "abs_diff" => AbsDiff, "pow" => Pow, "wrapping_neg" => WrappingNeg, "wrapping_mul" => WrappingMul, "signum" => Signum, "checked_neg" => CheckedNeg,
            "checked_add_unsigned" => CheckedAdd, "checked_sub_unsigned" | "checked_sub_signed" => CheckedSub, "wrapping_add_unsigned" => WrappingAdd, "wrapping_sub_unsigned" | "wrapping_sub_signed" => WrappingSub,
            "saturating_add_signed" | "saturating_add_unsigned" => SaturatingAdd, "saturating_sub_unsigned" | "saturating_sub_signed" => SaturatingSub,
            "wrapping_abs" => AbsOr(0), "checked_abs" => AbsOr(1), "saturating_abs" => AbsOr(2),
            "overflowing_add" => Overflowing(Bin::Add), "overflowing_sub" => Overflowing(Bin::Sub), "overflowing_mul" => Overflowing(Bin::Mul),
            _ => return None,
        });
    }
    if p.contains("std::clone::Clone") && p.ends_with("::clone") && (p.starts_with("std::clone::impls") || p.contains("String") || p.contains("Vec<T, A>") || p.contains("std::boxed")) { return Some(Clone); }
    if let Some((t, r)) = p.split_once(" as std::iter::Step>::") {
        let _ = t;
        return Some(match r { "forward_unchecked" | "forward" => StepFwd, "backward_unchecked" | "backward" => StepBwd, "forward_checked" => StepChk(true), "backward_checked" => StepChk(false), "forward_overflowing" => StepOver(true), "backward_overflowing" => StepOver(false), _ => return None });
    }
    if p.ends_with("::size_hint") && (p.starts_with("<std::slice::Iter") || p.starts_with("<std::vec::IntoIter") || p.starts_with("<std::array::IntoIter") || p.starts_with("<std::str::") || p.starts_with("<std::vec::Drain")) { return Some(SizeHint); }
    if p.ends_with("as std::clone::Clone>::clone") && (p.starts_with("<std::slice::") || p.starts_with("<std::str::") || p.starts_with("<std::vec::IntoIter") || p.starts_with("<std::array::IntoIter") || p.starts_with("<std::ops::Range")) { return Some(Clone); }
    if p.starts_with("<std::vec::Vec<T, A> as std::iter::Extend<") {
        if p.ends_with(">::extend_one") || p.ends_with(">::extend_one_unchecked") { return Some(VecPush); }
        if p.ends_with(">::extend_reserve") { return Some(VecReserve); }
    }
    if p.contains("std::default::Default>::default") { return Some(DefaultOf); }
    if p.starts_with("core::panicking::") || p.starts_with("std::rt::begin_panic") || p.starts_with("std::rt::panic") || p.ends_with("::unwrap_failed") || p.ends_with("::expect_failed") || p.starts_with("core::slice::index::slice_") || p.starts_with("std::process::") { return Some(Panic); }
    Some(match p {
        "<std::vec::Vec<T, A> as std::ops::Deref>::deref" | "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut"
        | "<std::string::String as std::ops::Deref>::deref" | "<std::string::String as std::ops::DerefMut>::deref_mut"
        | "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref" | "<std::string::String as std::convert::AsRef<str>>::as_ref"
        | "<str as std::convert::AsRef<str>>::as_ref" | "<str as std::convert::AsRef<[u8]>>::as_ref" | "<[T] as std::convert::AsRef<[T]>>::as_ref"
        | "std::borrow::Borrow::borrow" | "<T as std::borrow::Borrow<T>>::borrow" | "<T as std::borrow::BorrowMut<T>>::borrow_mut"
        | "<std::string::String as std::borrow::Borrow<str>>::borrow" | "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow" | "alloc::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow" | "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow" => Ident,
        "<std::boxed::Box<T, A> as std::ops::Deref>::deref" | "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut" | "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref" => BoxDeref,
        "std::boxed::Box::<T>::new" => BoxNew, "std::boxed::Box::<T>::new_uninit" => BoxUninit, "std::boxed::box_assume_init_into_vec_unsafe" => BoxIntoVec,
        "<std::boxed::Box<T, A> as std::ops::Drop>::drop" => Nop,
        "std::cell::Cell::<T>::new" | "std::cell::RefCell::<T>::new" => CellNew, "std::cell::Cell::<T>::get" => CellGet, "std::cell::Cell::<T>::set" => CellSet,
        "std::cell::Cell::<T>::replace" | "std::cell::RefCell::<T>::replace" => CellReplace, "std::cell::Cell::<T>::into_inner" | "std::cell::RefCell::<T>::into_inner" => BoxInner,
        "std::cell::Cell::<T>::get_mut" | "std::cell::RefCell::<T>::get_mut" | "std::cell::RefCell::<T>::borrow" | "std::cell::RefCell::<T>::borrow_mut" => CellIn,
        "<std::cell::Ref<'_, T> as std::ops::Deref>::deref" | "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref" | "<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut" => Guard,
        "std::boxed::box_new" => BoxNew, "std::boxed::Box::<T, A>::into_inner" => BoxInner,
        "<std::string::String as std::ops::Add<&str>>::add" => StringAdd,
        "<std::string::String as std::convert::From<char>>::from" | "<char as std::string::ToString>::to_string" | "<char as std::string::SpecToString>::spec_to_string" => FromChar,
        "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned" => SliceToVec,
        "<std::vec::Vec<T> as std::convert::From<&[T]>>::from" | "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from" | "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from" | "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from" => SliceToVec,
        "std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for [T; N]>::try_from" | "std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from" | "core::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from" | "std::array::<impl std::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from" => ArrFrom,
        "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref" => BoxDeref, "std::borrow::Cow::<'_, B>::into_owned" => BoxInner,
        "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter" => VecIntoIter,
        "std::str::from_utf8_unchecked" | "core::str::from_utf8_unchecked" => FromUtf8Unchecked,
        "std::intrinsics::saturating_sub" => SaturatingSub, "std::intrinsics::saturating_add" => SaturatingAdd,
        "<&mut I as std::iter::ExactSizeIterator>::len" => IterLen,
        "std::intrinsics::integer_min" => IMin, "std::intrinsics::integer_max" => IMax,
        "core::str::traits::<impl std::cmp::Ord for str>::cmp" | "<std::string::String as std::cmp::Ord>::cmp" | "<std::string::String as std::cmp::PartialOrd>::partial_cmp" | "core::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp" => StrCmp,
        "core::str::traits::<impl std::ops::Index<I> for str>::index" | "<std::string::String as std::ops::Index<I>>::index" => StrIndex,
        "<std::slice::Chunks<'a, T> as std::iter::Iterator>::next" | "<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next" => ChunksNext,
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::__iterator_get_unchecked" | "<std::slice::IterMut<'a, T> as std::iter::Iterator>::__iterator_get_unchecked" | "<std::vec::IntoIter<T, A> as std::iter::Iterator>::__iterator_get_unchecked" => IterGet,
        "<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back" | "<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back" => IntoIterNextBack,
        "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next" => IntoIterNext,
        "<std::slice::Split<'a, T, P> as std::iter::Iterator>::next" | "<std::slice::ChunkBy<'a, T, P> as std::iter::Iterator>::next" | "<std::slice::RChunks<'a, T> as std::iter::Iterator>::next" | "<std::vec::Splice<'_, I, A> as std::iter::Iterator>::next"
        | "<std::collections::btree_map::Iter<'a, K, V> as std::iter::Iterator>::next" | "<std::collections::btree_map::Keys<'a, K, V> as std::iter::Iterator>::next" | "<std::collections::btree_map::Values<'a, K, V> as std::iter::Iterator>::next" | "<std::collections::btree_map::IntoIter<K, V, A> as std::iter::Iterator>::next"
        | "<std::collections::btree_map::IntoValues<K, V, A> as std::iter::Iterator>::next" | "<std::collections::btree_set::Iter<'a, T> as std::iter::Iterator>::next" | "<std::collections::btree_set::IntoIter<T, A> as std::iter::Iterator>::next" | "<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::next" => IntoIterNext,
        "<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::next" => IterNext, "<std::collections::vec_deque::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back" => IterNextBack,
        "std::num::NonZero::<T>::new" | "core::num::NonZero::<T>::new" => NonZero, "std::num::NonZero::<T>::get" | "core::num::NonZero::<T>::get" | "std::num::NonZero::<T>::new_unchecked" => Ident,
        "<&T as std::ops::Deref>::deref" | "<&mut T as std::ops::Deref>::deref" => AsRefRef, "std::array::<impl [T; N]>::as_slice" | "core::array::<impl [T; N]>::as_slice" => Ident,
        "std::slice::Iter::<'a, T>::as_slice" => IterRemaining,
        "std::collections::HashMap::<K, V>::new" => VecNew,
        "<&T as std::convert::AsRef<U>>::as_ref" => AsRefRef,
        "<&T as std::borrow::Borrow<T>>::borrow" | "<&mut T as std::borrow::Borrow<T>>::borrow" => AsRefRef,
        "std::str::from_utf8" | "core::str::from_utf8" => FromUtf8,
        "core::str::traits::<impl std::cmp::PartialEq for str>::eq" | "<std::string::String as std::cmp::PartialEq>::eq"
        | "<std::string::String as std::cmp::PartialEq<str>>::eq" | "<std::string::String as std::cmp::PartialEq<&str>>::eq" | "<std::string::String as std::cmp::PartialEq<&'a str>>::eq"
        | "<str as std::cmp::PartialEq<std::string::String>>::eq" | "<&'a str as std::cmp::PartialEq<std::string::String>>::eq" => StrEq,
        "<std::string::String as std::cmp::PartialEq>::ne" | "<std::string::String as std::cmp::PartialEq<str>>::ne" | "<std::string::String as std::cmp::PartialEq<&str>>::ne" => StrNe,
        "<std::str::Split<'a, P> as std::iter::Iterator>::next" => SplitNext, "<std::str::Split<'a, P> as std::iter::DoubleEndedIterator>::next_back" => SplitNextBack,
        "<std::string::String as std::convert::From<&str>>::from" | "std::str::<impl std::borrow::ToOwned for str>::to_owned" | "std::str::<impl str>::to_owned"
        | "<std::string::String as std::convert::From<&mut str>>::from" | "<std::string::String as std::convert::From<&std::string::String>>::from" | "std::str::<impl str>::into_string" => StringFrom,
        "<T as std::string::ToString>::to_string" | "<str as std::string::SpecToString>::spec_to_string" => ToString,
        "<std::string::String as std::ops::AddAssign<&str>>::add_assign" => PushStr,
        "std::fmt::Arguments::<'a>::new" => FmtArgs,
        "std::fmt::Arguments::<'a>::from_str" | "std::fmt::Arguments::<'a>::from_str_nonconst" => FmtFromStr,
        "std::fmt::format" | "alloc::fmt::format" => FmtFormat,
        "core::fmt::rt::Argument::<'_>::new_display" => FmtArg,
        "core::fmt::rt::Argument::<'_>::new_debug" => FmtArgKind(1),
        "core::fmt::rt::Argument::<'_>::new_lower_exp" => FmtArgKind(2),
        "core::fmt::rt::Argument::<'_>::new_lower_hex" => FmtArgKind(3),
        "core::fmt::rt::Argument::<'_>::new_upper_hex" => FmtArgKind(4),
        "core::fmt::rt::Argument::<'_>::new_octal" => FmtArgKind(5),
        "core::fmt::rt::Argument::<'_>::new_binary" => FmtArgKind(6),
        "core::fmt::rt::Argument::<'_>::new_upper_exp" => FmtArgKind(7),
        "std::fmt::Formatter::<'a>::pad" | "<std::string::String as std::fmt::Display>::fmt" | "<str as std::fmt::Display>::fmt" | "<f64 as std::fmt::Display>::fmt" | "<bool as std::fmt::Display>::fmt" | "<char as std::fmt::Display>::fmt" => FmtShow,
        "<&T as std::fmt::Display>::fmt" | "std::fmt::num::imp::<impl std::fmt::Display for usize>::fmt" | "std::fmt::num::imp::<impl std::fmt::Display for isize>::fmt" => FmtShow,
        "<std::string::String as std::fmt::Write>::write_char" | "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char" => FmtWriteChar,
        _ if p.contains("fmt::num::imp::<impl std::fmt::Display for ") && p.ends_with("::fmt") => FmtShow,
        "std::fmt::Formatter::<'a>::write_fmt" => FmtWrite,
        "std::fmt::Formatter::<'a>::write_str" | "<std::string::String as std::fmt::Write>::write_str" | "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str" => FmtWriteStr,
        "std::fmt::Write::write_fmt" | "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt" | "<std::string::String as std::fmt::Write>::write_fmt" => FmtWrite,
        "<std::vec::Vec<T, A> as std::ops::Index<I>>::index" | "core::slice::index::<impl std::ops::Index<I> for [T]>::index" | "std::array::<impl std::ops::Index<I> for [T; N]>::index" | "core::array::<impl std::ops::Index<I> for [T; N]>::index" => VecIndex,
        "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut" | "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut" | "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut" | "core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut" => VecIndexMut,
        "std::vec::from_elem" => VecFromElem,
        "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter" | "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter"
        | "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter" => SliceIter,
        "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter" | "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" => SliceIterMut,
        "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" => VecIntoIter,
        "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter" => VecIntoIter,
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::next" => IterNext,
        "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back" => IterNextBack,
        "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next" => IterMutNext,
        "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back" => IterMutNextBack,
        "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next" | "<std::array::IntoIter<T, N> as std::iter::Iterator>::next" => IntoIterNext,
        "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len" | "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len" => IterLen,
        "<std::slice::Windows<'a, T> as std::iter::Iterator>::next" => WindowsNext,
        "std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq" | "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq" => SeqEq,
        "std::mem::replace" => MemReplace,
        "std::mem::take" => MemTake,
        "std::mem::swap" => MemSwap,
        "<usize as std::iter::Step>::forward_unchecked" | "<usize as std::iter::Step>::forward" | "<isize as std::iter::Step>::forward_unchecked" | "<i32 as std::iter::Step>::forward_unchecked" => StepFwd,
        "<usize as std::iter::Step>::backward_unchecked" | "<usize as std::iter::Step>::backward" => StepBwd,
        "std::intrinsics::discriminant_value" | "core::intrinsics::discriminant_value" => DiscrVal,
        "std::intrinsics::cold_path" => Nop,
        "std::intrinsics::assume" | "std::hint::assert_unchecked" | "core::hint::assert_unchecked" => UbAssert,
        "std::hint::unreachable_unchecked" | "core::hint::unreachable_unchecked" | "std::intrinsics::unreachable" | "core::intrinsics::unreachable" => UbHere,
        "core::str::traits::<impl std::cmp::PartialEq for str>::ne" => StrNe,
        _ => return None,
    })
}

/// Length in bytes, when it is known.
pub fn str_len(st: &State, p: &[Piece]) -> Option<Lin> {
    let mut n = Lin::k(0);
    for x in p {
        match x {
            Piece::Lit(l) => n = n.addk(l.len() as i128),
            Piece::Tok(t) => { let f = st.sf(*t); n = match (f.lit, f.len) { (Some(l), _) => n.addk(l.len() as i128), (_, Some(a)) => n.add(&Lin::atom(a)), _ => return None } }
            Piece::Sub(a, b) => n = n.add(&b.sub(a)),
            _ => return None,
        }
    }
    Some(n)
}
/// The same, giving names to the lengths of words.
pub fn named_len(st: &State, cx: &mut Cx, p: &[Piece]) -> Dec<Option<Lin>> {
    for x in p { if let Piece::Tok(t) = x { st.word_len(cx, *t)?; } }
    Ok(str_len(st, p))
}
/// The text, when it is completely known.
pub fn str_lit(st: &State, p: &[Piece]) -> Option<String> {
    let mut s = String::new();
    for x in p {
        match x {
            Piece::Lit(l) => s.push_str(l),
            Piece::Tok(t) => s.push_str(st.sf(*t).lit.as_ref()?),
            Piece::Int(l) => s.push_str(&l.is_const()?.to_string()),
            _ => return None,
        }
    }
    Some(s)
}

/// Are two strings equal? None if the analysis cannot tell.
pub fn str_eq(st: &State, cx: &Cx, a: &[Piece], b: &[Piece]) -> Dec<Option<bool>> {
    if a == b { return Ok(Some(true)); }
    match (str_lit(st, a), str_lit(st, b)) {
        (Some(x), Some(y)) => return Ok(Some(x == y)),
        (Some(x), None) => if let [Piece::Tok(t)] = b { return Ok(Some(st.is_lit(cx, *t, &x)?)); },
        (None, Some(y)) => if let [Piece::Tok(t)] = a { return Ok(Some(st.is_lit(cx, *t, &y)?)); },
        (None, None) => if let ([Piece::Tok(t)], [Piece::Tok(u)]) = (a, b) {
            return Ok(Some(st.same_word(cx, *t, *u)?));
        },
    }
    Ok(None)
}

pub fn concat(a: &[Piece], b: &[Piece]) -> V {
    let mut v = a.to_vec();
    for x in b {
        if let (Some(Piece::Lit(l)), Piece::Lit(m)) = (v.last_mut(), x) {
            *l = format!("{}{}", l, m).into();
        } else { v.push(x.clone()); }
    }
    V::S(Rc::new(v))
}

enum Out {
    Val(V),
    /// result, and a write to perform
    W(V, Vec<(Loc, V)>),
    Panic(String),
    Unknown(&'static str),
}

pub fn call(st: &mut State, cx: &mut Cx, cid: CalleeId, args: Vec<V>, dest: &Place, target: Option<usize>) -> Dec<Flow> {
    let depth = st.frames.len() - 1;
    if spec::is_cut(cx, st, cid) {
        let v = spec::fetch(st, cx, cid)?;
        return ret(st, cx, depth, dest, target, v, false);
    }
    if let Some(f) = cx.prog.callees[cid].func {
        if st.frames.len() > 120 { return Ok(Flow::Panic("unbounded recursion: the call depth grows with the input".into())); }
        push_frame(st, cx, f, args, Some((dest.clone(), target)));
        return Ok(Flow::Next);
    }
    let Some(n) = cx.natives[cid] else {
        let c = &cx.prog.callees[cid];
        // a constructor used as a function
        if let Some((_, vs)) = c.output.and_then(|o| cx.prog.adt(o)) {
            let last = c.path.rsplit("::").next().unwrap_or("");
            if let Some(k) = vs.iter().position(|v| v.name == last && v.fields.len() == args.len()) {
                if last.starts_with(|x: char| x.is_ascii_uppercase()) { return ret(st, cx, depth, dest, target, V::agg(k as u32, args), false); }
            }
        }
        cx.note(&format!("no model for {}", c.path));
        st.taint("library function without a model");
        // what it could have changed is unknown from here on
        for a in &args { havoc(st, cx, a); }
        return ret(st, cx, depth, dest, target, V::Top, false);
    };
    match apply(st, cx, cid, n, &args)? {
        Out::Val(v) => ret(st, cx, depth, dest, target, v, false),
        Out::W(v, ws) => {
            let mut pre = vec![];
            if ws.len() == 1 {
                for (l, x) in ws { pre.push(st.prepare(cx, &l, x)?); }
                for w in pre { st.commit(w); }
            } else {
                // writes may touch the same variable: one after the other
                let mut s2 = st.clone();
                for (l, x) in ws { let w = s2.prepare(cx, &l, x)?; s2.commit(w); }
                *st = s2;
            }
            ret(st, cx, depth, dest, target, v, false)
        }
        Out::Panic(m) => {
            // a check that the library makes of the conditions of an unsafe function
            let ub = !m.starts_with("undefined") && st.frames.iter().rev().take_while(|f| !cx.prog.funcs[f.func].local).any(|f| { let n = &cx.prog.funcs[f.func].name; n.contains("precondition_check") || n.contains("_unchecked") });
            Ok(Flow::Panic(if ub { format!("undefined behaviour: a condition of an unsafe function does not hold ({})", m) } else { m }))
        }
        Out::Unknown(w) => {
            let c = &cx.prog.callees[cid];
            cx.note(&format!("{} in {}", w, c.path));
            st.taint(w);
            for a in &args { havoc(st, cx, a); }
            ret(st, cx, depth, dest, target, V::Top, false)
        }
    }
}

fn havoc(st: &mut State, cx: &mut Cx, v: &V) {
    match v {
        V::MRef(l) => if let Ok(w) = st.prepare(cx, l, V::Top) { st.commit(w); },
        V::Agg(_, f) => for x in f.iter() { havoc(st, cx, x); },
        _ => {}
    }
}

fn elem_ty(cx: &Cx, cid: CalleeId) -> TyId { cx.prog.callees[cid].args.first().copied().unwrap_or(0) }

fn default_of(cx: &Cx, t: TyId) -> Option<V> {
    Some(match &cx.prog.tys[t].kind {
        TyKind::Int { .. } | TyKind::Char => V::int(0),
        TyKind::Bool => V::Bool(false),
        TyKind::Float => V::Float(Fl::C(0)),
        TyKind::Adt { path, args, .. } => match path.as_str() {
            "std::vec::Vec" => V::seq(args[0], vec![]),
            "std::string::String" => V::lit(""),
            "std::option::Option" => V::none(),
            _ => return None,
        },
        TyKind::Tuple(ts) => { let mut v = vec![]; for t in ts { v.push(default_of(cx, *t)?); } V::agg(0, v) }
        TyKind::Ref(t, _) if matches!(cx.prog.tys[*t].kind, TyKind::Str) => V::cref(V::lit("")),
        _ => return None,
    })
}

fn str_arg(st: &State, cx: &Cx, v: &V) -> Dec<Option<Rc<Vec<Piece>>>> {
    Ok(match st.deref_all(cx, v)? { V::S(p) => Some(p), _ => None })
}

/// (low, high) of an index argument that is a range
fn range_arg(cx: &Cx, cid: CalleeId, v: &V, n: &Lin) -> Option<(Lin, Lin)> {
    let t = cx.prog.callees[cid].args.iter().copied().find(|t| cx.prog.ty_name(*t).contains("Range"))?;
    let name = cx.prog.ty_name(t).to_string();
    let f = v.fields();
    let l = |i: usize| f.and_then(|f| f.get(i)).and_then(|x| x.lin()).cloned();
    if name.contains("RangeFull") { return Some((Lin::k(0), n.clone())); }
    if name.contains("RangeFrom") { return Some((l(0)?, n.clone())); }
    if name.contains("RangeToInclusive") { return Some((Lin::k(0), l(0)?.addk(1))); }
    if name.contains("RangeTo") { return Some((Lin::k(0), l(0)?)); }
    if name.contains("RangeInclusive") { return Some((l(0)?, l(1)?.addk(1))); }
    Some((l(0)?, l(1)?))
}

fn bytes_of(t: &str) -> Rc<Seq> { Rc::new(Seq { elem: 0, segs: t.bytes().map(|b| Seg::El(V::int(b as i128))).collect() }) }
/// The text that a sequence of known bytes is.
fn text_of(s: &Seq) -> Option<String> {
    let mut b = vec![];
    for g in &s.segs { match g { Seg::El(V::Int(l)) => b.push(l.is_const()? as u8), _ => return None } }
    String::from_utf8(b).ok()
}

fn apply(st: &State, cx: &mut Cx, cid: CalleeId, n: N, a: &[V]) -> Dec<Out> {
    use N::*;
    macro_rules! unknown { ($w:expr) => { return Ok(Out::Unknown($w)) }; }
    macro_rules! seq { ($v:expr) => { match st.deref_all(cx, $v)? { V::Seq(s) => s, V::S(p) if matches!(p[..], [Piece::Sub(..)]) => match bytes_view(V::S(p)) { V::Seq(s) => s, _ => unreachable!() }, V::S(p) => match st.text(cx, &p)? { Some(t) => bytes_of(&t), None => unknown!("string the analysis does not know") }, _ => unknown!("sequence the analysis does not know") } }; }
    macro_rules! loc { ($v:expr) => { match mloc(st, cx, $v)? { Some(l) => l, _ => unknown!("unknown reference") } }; }
    macro_rules! int { ($v:expr) => { match $v { V::Int(l) => l.clone(), _ => unknown!("integer the analysis does not know") } }; }
    macro_rules! string { ($v:expr) => { match str_arg(st, cx, $v)? { Some(p) => p, _ => unknown!("string the analysis does not know") } }; }
    Ok(Out::Val(match n {
        Fetch => unknown!("fetch"),
        Clone => st.deref(cx, &a[0])?,
        Ident => a[0].clone(),
        AsRefRef => match st.deref(cx, &a[0])? { v @ (V::CRef(_) | V::MRef(_)) => v, _ => a[0].clone() },
        FromUtf8 | FromUtf8Unchecked => {
            let v = match st.deref_all(cx, &a[0])? {
                V::S(_) => a[0].clone(),
                V::Seq(q) if State::as_sub(&q).is_some() => {
                    let (x, y) = State::as_sub(&q).unwrap();
                    let ok = crate::lexer::boundary(st, cx, &x)? && crate::lexer::boundary(st, cx, &y)?;
                    if !ok { if n == FromUtf8 { return Ok(Out::Val(V::err(V::Top))); } if cx.prog.callees[cid].path.contains("lossy") { unknown!("bytes the analysis does not know"); } return Ok(Out::Panic("undefined behaviour: bytes that are not UTF-8 are made a string".into())); }
                    let s = V::S(Rc::new(vec![Piece::Sub(x, y)]));
                    if matches!(a[0], V::Seq(_)) { s } else { V::cref(s) }
                }
                V::Seq(q) if text_of(&q).is_none() && q.segs.iter().all(|g| matches!(g, Seg::El(V::Int(l)) if l.is_const().is_some())) => match n {
                    FromUtf8 => return Ok(Out::Val(V::err(V::Top))),
                    _ if cx.prog.callees[cid].path.contains("lossy") => V::cref(V::lit(&String::from_utf8_lossy(&q.segs.iter().map(|g| match g { Seg::El(V::Int(l)) => l.c as u8, _ => 0 }).collect::<Vec<u8>>()))),
                    _ => return Ok(Out::Panic("undefined behaviour: bytes that are not UTF-8 are made a string".into())),
                },
                V::Seq(q) => match text_of(&q) { Some(t) if matches!(a[0], V::Seq(_)) => V::lit(&t), Some(t) => V::cref(V::lit(&t)), None => unknown!("bytes the analysis does not know") },
                _ => unknown!("bytes the analysis does not know"),
            };
            if n == FromUtf8 { V::ok(v) } else { v }
        }
        StrEq | StrNe => {
            let (x, y) = (string!(&a[0]), string!(&a[1]));
            match str_eq(st, cx, &x, &y)? { Some(b) => V::Bool(b == (n == StrEq)), None => unknown!("comparison of two unknown strings") }
        }
        StrIsEmpty => {
            let p = string!(&a[0]);
            if p.is_empty() { return Ok(Out::Val(V::Bool(true))); }
            match &p[..] {
                [Piece::Tok(t)] => V::Bool(st.is_empty_str(cx, *t)?),
                [Piece::Sub(x, y)] => V::Bool(st.eq0(cx, &y.sub(x))?),
                p if p.iter().any(|x| matches!(x, Piece::Lit(_) | Piece::Int(_))) => V::Bool(false),
                _ => unknown!("emptiness of an unknown string"),
            }
        }
        StrLen => match named_len(st, cx, &string!(&a[0]))? { Some(n) => V::Int(n), None => match st.text(cx, &string!(&a[0]))? { Some(t) => V::int(t.len() as i128), None => unknown!("length of an unknown string") } },
        StrParse => {
            let radix = cx.prog.callees[cid].path.ends_with("::from_str_radix");
            if radix && int!(&a[1]).is_const() != Some(10) { unknown!("parse with another base"); }
            let t = if radix { self_int(cx, cid) } else { match cx.prog.callees[cid].path.split_once("FromStr for ") { Some((_, r)) => { let name = r.split('>').next().unwrap_or("").to_string(); match cx.prog.tys.iter().position(|t| t.name == name) { Some(t) => t, None => unknown!("parse to an unsupported type") } } None => elem_ty(cx, cid) } };
            let p = string!(&a[0]);
            match &p[..] {
                [Piece::Tok(s)] => match &cx.prog.tys[t].kind {
                    TyKind::Float => if st.is_float(cx, *s)? { V::ok(V::Float(match &st.sf(*s).lit { Some(l) => Fl::C(l.parse::<f64>().unwrap().to_bits()), None => Fl::Parse(*s) }).single(cx, t)) } else { V::err(V::Top) },
                    TyKind::Int { .. } => match st.parse_int(cx, *s, t)? { Some(l) => V::ok(V::Int(l)), None => V::err(V::Top) },
                    _ => unknown!("parse to an unsupported type"),
                },
                p => match str_lit(st, p) {
                    Some(l) => match &cx.prog.tys[t].kind {
                        TyKind::Float => match l.parse::<f64>() { Ok(x) => V::ok(V::Float(Fl::C(x.to_bits())).single(cx, t)), Err(_) => V::err(V::Top) },
                        TyKind::Int { .. } => {
                            let (lo, hi) = cx.prog.int_bounds(t).unwrap();
                            match l.parse::<i128>() { Ok(x) if x >= lo && x <= hi && !(lo == 0 && l.starts_with('-')) => V::ok(V::int(x)), _ => V::err(V::Top) }
                        }
                        _ => unknown!("parse to an unsupported type"),
                    },
                    None => unknown!("parse of an unknown string"),
                },
            }
        }
        StrSplit => {
            let one = crate::strings::as_chars(st, cx, a)?;
            let a = one.as_deref().unwrap_or(a);
            let p = string!(&a[0]);
            // only splitting a token at a character is modelled
            match (&p[..], &a[1]) {
                ([Piece::Tok(_)] | [Piece::Lit(_)] | [], V::Int(c)) if c.is_const().is_some() => V::agg(0, vec![a[0].clone(), a[1].clone(), V::int(0)]),
                ([Piece::Tok(_)] | [Piece::Lit(_)] | [], V::CRef(v)) => match &**v {
                    V::S(q) => match str_lit(st, q) {
                        Some(l) if l.chars().count() == 1 => V::agg(0, vec![a[0].clone(), V::int(l.chars().next().unwrap() as i128), V::int(0)]),
                        _ => match crate::strings::method(st, cx, "split", a)? { Some(v) => v, None => unknown!("split") },
                    },
                    _ => match crate::strings::method(st, cx, "split", a)? { Some(v) => v, None => unknown!("split") },
                },
                _ => match crate::strings::method(st, cx, "split", a)? { Some(v) => v, None => unknown!("split of an unknown string") },
            }
        }
        SplitNextBack => {
            // from here on, a list of the parts that are left
            let l = loc!(&a[0]);
            let it = st.read(cx, &l)?;
            let Some(f) = it.fields() else { unknown!("split iterator") };
            if f.len() != 3 { unknown!("split iterator"); }
            if matches!(f[0], V::Seq(_)) { return apply(st, cx, cid, IntoIterNextBack, a); }
            let (Some(k), Some(c)) = (f[2].lin().and_then(|l| l.is_const()), f[1].lin().and_then(|l| l.is_const())) else { unknown!("split iterator") };
            let ch = char::from_u32(c as u32).unwrap_or('/');
            let p = string!(&f[0]);
            let mut v: Vec<Seg> = match &p[..] {
                [Piece::Tok(t)] if ch == '/' && st.sf(*t).lit.is_none() => st.parts(cx, *t)?.iter().map(|s| Seg::El(V::cref(V::tok(*s)))).collect(),
                q => match str_lit(st, q) { Some(s) => s.split(ch).map(|x| Seg::El(V::cref(V::lit(x)))).collect(), None => unknown!("split iterator") },
            };
            let r = if (k as usize) < v.len() { v.pop() } else { None };
            let n = (v.len() as i128).max(k);
            let r = match r { Some(Seg::El(x)) => V::some(x), _ => V::none() };
            return Ok(Out::W(r, vec![(l, V::agg(0, vec![V::seq(0, v), V::int(k), V::int(n)]))]));
        }
        SplitNext => {
            let l = loc!(&a[0]);
            let it = st.read(cx, &l)?;
            let Some(f) = it.fields() else { unknown!("split iterator") };
            if f.len() != 3 { unknown!("split iterator"); }
            if matches!(f[0], V::Seq(_)) { return apply(st, cx, cid, IntoIterNext, a); }
            let (Some(k), Some(c)) = (f[2].lin().and_then(|l| l.is_const()), f[1].lin().and_then(|l| l.is_const())) else { unknown!("split iterator") };
            let ch = char::from_u32(c as u32).unwrap_or('/');
            let p = string!(&f[0]);
            let r = match &p[..] {
                [Piece::Tok(t)] if ch == '/' && st.sf(*t).lit.is_none() => {
                    let ps = st.parts(cx, *t)?;
                    ps.get(k as usize).map(|s| V::tok(*s))
                }
                q => match str_lit(st, q) {
                    Some(l) => l.split(ch).nth(k as usize).map(V::lit),
                    None if matches!(q, [Piece::Tok(_)]) && { let [Piece::Tok(t)] = q else { unreachable!() }; !st.ask(*t, crate::strings::Ask::Has(crate::strings::Pat::Set(vec![ch])))? } => if k == 0 { Some(V::S(p.clone())) } else { None },
                    None if matches!(q, [Piece::Tok(_)]) && st.taint.is_none() => { let [Piece::Tok(t)] = q else { unreachable!() }; return Err(st.spelled_for(cx, *t, &crate::strings::Ask::Has(crate::strings::Pat::Set(vec![ch])))); }
                    None if State::valid_token(&format!("x{}", ch)) => match st.text(cx, q)? { Some(l) => l.split(ch).nth(k as usize).map(V::lit), None => unknown!("split at another character") },
                    // a character that no token contains
                    None => if k == 0 { Some(V::S(p.clone())) } else { None },
                },
            };
            let nf = V::agg(0, vec![f[0].clone(), f[1].clone(), V::int(k + 1)]);
            return Ok(Out::W(match r { Some(v) => V::some(V::cref(v)), None => V::none() }, vec![(l, nf)]));
        }
        StringNew => V::lit(""),
        StringFrom => V::S(string!(&a[0])),
        ToString => match st.deref_all(cx, &a[0])? {
            V::S(p) => V::S(p),
            V::Int(l) => V::S(Rc::new(vec![Piece::Int(l)])),
            v => match crate::fmtspec::display(st, cx, &v, elem_ty(cx, cid))? { Some(p) => V::S(Rc::new(p)), None => unknown!("text the analysis does not know") },
        },
        PushStr => {
            let l = loc!(&a[0]);
            let (V::S(x), y) = (st.read(cx, &l)?, string!(&a[1])) else { unknown!("string the analysis does not know") };
            return Ok(Out::W(V::unit(), vec![(l, concat(&x, &y))]));
        }
        PushChar => {
            let l = loc!(&a[0]);
            let (V::S(x), Some(c)) = (st.read(cx, &l)?, a[1].lin().and_then(|l| l.is_const())) else { unknown!("string the analysis does not know") };
            let s = char::from_u32(c as u32).unwrap().to_string();
            return Ok(Out::W(V::unit(), vec![(l, concat(&x, &[Piece::Lit(s.as_str().into())]))]));
        }
        FmtArg => { let v = st.resolve(cx, &a[0])?; V::agg(0, vec![V::int(elem_ty(cx, cid) as i128), v]) }
        FmtArgKind(k) => { let v = st.resolve(cx, &a[0])?; V::agg(k, vec![V::int(elem_ty(cx, cid) as i128), v]) }
        FmtShow | FmtWriteChar => {
            let (f, v, ty) = if n == FmtWriteChar || cx.prog.callees[cid].path.ends_with("::pad") { (&a[0], &a[1], if n == FmtWriteChar { cx.prog.tys.iter().position(|t| matches!(t.kind, TyKind::Char)).unwrap_or(0) } else { 0 }) } else { (&a[1], &a[0], if cx.prog.callees[cid].path.contains("char") { cx.prog.tys.iter().position(|t| matches!(t.kind, TyKind::Char)).unwrap_or(0) } else { elem_ty(cx, cid) }) };
            let l = loc!(f);
            let new = match (st.read(cx, &l)?, crate::fmtspec::display(st, cx, v, ty)?) { (V::S(x), Some(y)) => concat(&x, &y), _ => unknown!("text the analysis does not know") };
            return Ok(Out::W(V::ok(V::unit()), vec![(l, new)]));
        }
        FmtArgs => crate::fmtspec::arguments(st, cx, &a[0], &a[1])?,
        FmtFromStr => match str_arg(st, cx, &a[0])? { Some(p) => V::S(p), None => V::Top },
        FmtFormat => a[0].clone(),
        FmtWrite | FmtWriteStr => {
            // the formatter is modelled as the text written so far
            let Some(l) = mloc(st, cx, &a[0])? else { return Ok(Out::Val(V::ok(V::unit()))) };
            let old = st.read(cx, &l)?;
            let add = if n == FmtWriteStr { match str_arg(st, cx, &a[1])? { Some(p) => V::S(p), None => V::Top } } else { a[1].clone() };
            let new = match (&old, &add) { (V::S(x), V::S(y)) => concat(x, y), _ => V::Top };
            return Ok(Out::W(V::ok(V::unit()), vec![(l, new)]));
        }
        VecNew => V::seq(elem_ty(cx, cid), vec![]),
        VecPush => {
            let l = loc!(&a[0]);
            let V::Seq(s) = st.read(cx, &l)? else { unknown!("sequence the analysis does not know") };
            let mut segs = s.segs.clone();
            segs.push(Seg::El(a[1].clone()));
            return Ok(Out::W(V::unit(), vec![(l, V::Seq(Rc::new(Seq { elem: if s.elem == 0 { elem_ty(cx, cid) } else { s.elem }, segs }.norm())))]));
        }
        VecLen if matches!(st.deref_all(cx, &a[0])?, V::S(_)) => if let Some(n) = named_len(st, cx, &string!(&a[0]))? { V::Int(n) } else { match st.text(cx, &string!(&a[0]))? { Some(t) => V::int(t.len() as i128), None => unknown!("length of an unknown string") } },
        VecLen => V::Int(seq_len(st, &st.deref_all(cx, &a[0])?).map_or_else(|| None, Some).unwrap_or_else(|| Lin::k(-1))).pipe(|v| if v == V::int(-1) { V::Top } else { v }),
        VecIsEmpty => match seq_len(st, &st.deref_all(cx, &a[0])?) { Some(l) => V::Bool(st.eq0(cx, &l)?), None => unknown!("sequence the analysis does not know") },
        VecClear => { let l = loc!(&a[0]); if let V::S(_) = st.read(cx, &l)? { return Ok(Out::W(V::unit(), vec![(l, V::lit(""))])); } let s = seq!(&a[0]); return Ok(Out::W(V::unit(), vec![(l, V::seq(s.elem, vec![]))])); }
        VecReserve => V::unit(),
        VecPop => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let n = s.len();
            if st.eq0(cx, &n)? { return Ok(Out::Val(V::none())); }
            let (Some(v), Some(r)) = (st.seq_get(cx, &s, &n.addk(-1))?, st.seq_sub(cx, &s, &Lin::k(0), &n.addk(-1))?) else { unknown!("pop") };
            return Ok(Out::W(V::some(v), vec![(l, V::Seq(Rc::new(r)))]));
        }
        VecTruncate => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let k = int!(&a[1]);
            if st.ge0(cx, &k.sub(&s.len()))? { return Ok(Out::Val(V::unit())); }
            let Some(r) = st.seq_sub(cx, &s, &Lin::k(0), &k)? else { unknown!("truncate") };
            return Ok(Out::W(V::unit(), vec![(l, V::Seq(Rc::new(r)))]));
        }
        VecExtendSlice => {
            let l = loc!(&a[0]);
            let (s, t) = (seq!(&a[0]), seq!(&a[1]));
            let mut segs = s.segs.clone();
            segs.extend(t.segs.iter().cloned());
            return Ok(Out::W(V::unit(), vec![(l, V::Seq(Rc::new(Seq { elem: s.elem, segs }.norm())))]));
        }
        VecAppend => {
            let (l, m) = (loc!(&a[0]), loc!(&a[1]));
            let (s, t) = (seq!(&a[0]), seq!(&a[1]));
            let mut segs = s.segs.clone();
            segs.extend(t.segs.iter().cloned());
            return Ok(Out::W(V::unit(), vec![(l, V::Seq(Rc::new(Seq { elem: s.elem, segs }.norm()))), (m, V::seq(t.elem, vec![]))]));
        }
        VecFromElem => {
            let k = int!(&a[1]);
            V::Seq(Rc::new(Seq { elem: elem_ty(cx, cid), segs: vec![Seg::Comp { lo: Lin::k(0), hi: k, body: a[0].clone() }] }.norm()))
        }
        VecIndex => {
            let s = seq!(&a[0]);
            match &a[1] {
                V::Int(i) => match st.seq_get(cx, &s, i)? { Some(v) => V::cref(v), None => return Ok(Out::Panic("index out of bounds".into())) },
                r => {
                    let Some((lo, hi)) = range_arg(cx, cid, r, &s.len()) else { unknown!("index") };
                    match st.seq_sub(cx, &s, &lo, &hi)? { Some(t) => V::cref(V::Seq(Rc::new(t))), None => return Ok(Out::Panic("range out of bounds".into())) }
                }
            }
        }
        VecIndexMut => {
            let mut l = loc!(&a[0]);
            let s = seq!(&a[0]);
            if !matches!(a[1], V::Int(_)) {
                // a range that is all of it
                let Some((lo, hi)) = range_arg(cx, cid, &a[1], &s.len()) else { unknown!("index") };
                if st.seq_sub(cx, &s, &lo, &hi)?.is_none() { return Ok(Out::Panic("range out of bounds".into())); }
                if st.eq0(cx, &lo)? && st.eq0(cx, &hi.sub(&s.len()))? { return Ok(Out::Val(V::MRef(Rc::new(l)))); }
                l.part(lo, hi);
                return Ok(Out::Val(V::MRef(Rc::new(l))));
            }
            let i = int!(&a[1]);
            if st.seq_find(cx, &s, &i)?.is_none() { return Ok(Out::Panic("index out of bounds".into())); }
            l.at(i);
            V::MRef(Rc::new(l))
        }
        SliceGet => {
            let s = seq!(&a[0]);
            match &a[1] {
                V::Int(i) => match st.seq_get(cx, &s, i)? { Some(v) => V::some(V::cref(v)), None => V::none() },
                r => {
                    let Some((lo, hi)) = range_arg(cx, cid, r, &s.len()) else { unknown!("index") };
                    match st.seq_sub(cx, &s, &lo, &hi)? { Some(t) => V::some(V::cref(V::Seq(Rc::new(t)))), None => V::none() }
                }
            }
        }
        SliceGetMut => {
            let mut l = loc!(&a[0]);
            let s = seq!(&a[0]);
            if !matches!(a[1], V::Int(_)) {
                let Some((lo, hi)) = range_arg(cx, cid, &a[1], &s.len()) else { unknown!("index") };
                if st.seq_sub(cx, &s, &lo, &hi)?.is_none() { return Ok(Out::Val(V::none())); }
                l.part(lo, hi);
                return Ok(Out::Val(V::some(V::MRef(Rc::new(l)))));
            }
            let i = int!(&a[1]);
            if st.seq_find(cx, &s, &i)?.is_none() { return Ok(Out::Val(V::none())); }
            l.at(i);
            V::some(V::MRef(Rc::new(l)))
        }
        SplitAtMut => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let i = int!(&a[1]);
            if !st.ge0(cx, &s.len().sub(&i))? { return Ok(Out::Panic("mid > len".into())); }
            let (mut x, mut y) = (l.clone(), l);
            x.part(Lin::k(0), i.clone());
            y.part(i, s.len());
            V::agg(0, vec![V::MRef(Rc::new(x)), V::MRef(Rc::new(y))])
        }
        SliceFirst | SliceLast => {
            let s = seq!(&a[0]);
            let k = s.len();
            if st.eq0(cx, &k)? { return Ok(Out::Val(V::none())); }
            let i = if n == SliceFirst { Lin::k(0) } else { k.addk(-1) };
            match st.seq_get(cx, &s, &i)? { Some(v) => V::some(V::cref(v)), None => unknown!("first/last") }
        }
        SliceLastMut => {
            let mut l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let k = s.len();
            if st.eq0(cx, &k)? { return Ok(Out::Val(V::none())); }
            l.at(k.addk(-1));
            V::some(V::MRef(Rc::new(l)))
        }
        SliceIter => {
            let s = seq!(&a[0]);
            V::agg(0, vec![V::Seq(s.clone()), V::int(0), V::Int(s.len())])
        }
        SliceIterMut => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            V::agg(0, vec![V::MRef(Rc::new(l)), V::int(0), V::Int(s.len())])
        }
        VecIntoIter => {
            let V::Seq(s) = &a[0] else { unknown!("sequence the analysis does not know") };
            V::agg(0, vec![V::Seq(s.clone()), V::int(0), V::Int(s.len())])
        }
        IterNext | IntoIterNext | IterMutNext | IterMutNextBack | IterNextBack | IntoIterNextBack => {
            let l = loc!(&a[0]);
            let it = st.read(cx, &l)?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 3 { unknown!("iterator"); }
            let (p, e) = (int!(&f[1]), int!(&f[2]));
            if !st.ge0(cx, &e.sub(&p).addk(-1))? { return Ok(Out::Val(V::none())); }
            let back = n == IterNextBack || n == IntoIterNextBack || n == IterMutNextBack;
            let at = if back { e.addk(-1) } else { p.clone() };
            let v = if n == IterMutNext || n == IterMutNextBack {
                let V::MRef(m) = &f[0] else { unknown!("iterator") };
                let mut m = (**m).clone();
                m.at(at);
                V::MRef(Rc::new(m))
            } else {
                let V::Seq(s) = &f[0] else { unknown!("iterator") };
                let Some(v) = st.seq_get(cx, s, &at)? else { unknown!("iterator") };
                if n == IntoIterNext || n == IntoIterNextBack { v } else { V::cref(v) }
            };
            let nf = if back { V::agg(0, vec![f[0].clone(), f[1].clone(), V::Int(e.addk(-1))]) } else { V::agg(0, vec![f[0].clone(), V::Int(p.addk(1)), f[2].clone()]) };
            return Ok(Out::W(V::some(v), vec![(l, nf)]));
        }
        IterLen => {
            let it = st.deref_all(cx, &a[0])?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 3 { unknown!("iterator"); }
            V::Int(int!(&f[2]).sub(&int!(&f[1])))
        }
        SizeHint => {
            let it = st.deref_all(cx, &a[0])?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 3 || !matches!(f[0], V::Seq(_) | V::MRef(_)) { unknown!("iterator"); }
            let n = int!(&f[2]).sub(&int!(&f[1]));
            V::agg(0, vec![V::Int(n.clone()), V::some(V::Int(n))])
        }
        StepChk(f) => {
            let r = if f { int!(&a[0]).add(&int!(&a[1])) } else { int!(&a[0]).sub(&int!(&a[1])) };
            let t = step_int(cx, cid);
            if range(st, cx, &r, t)? == 0 { V::some(V::Int(r)) } else { V::none() }
        }
        AsCRef => V::cref(a[0].clone()),
        NonZero => { let x = int!(&a[0]); if st.eq0(cx, &x)? { V::none() } else { V::some(V::Int(x)) } }
        StepOver(f) => {
            let t = step_int(cx, cid);
            let w = binop(st, cx, if f { Bin::Add } else { Bin::Sub }, &a[0], &a[1], false, Some(t))?;
            let y = int!(&a[1]);
            let o = range(st, cx, &int!(&a[0]).add(&if f { y } else { y.neg() }), t)? != 0;
            V::agg(0, vec![w, V::Bool(o)])
        }
        BoxUninit => V::agg(0, vec![V::Undef]),
        BoxIntoVec => match a[0].fields().and_then(|f| f[0].fields()).and_then(|f| f.get(1)).and_then(|f| f.fields()).and_then(|f| f.first()) { Some(v @ V::Seq(_)) => v.clone(), _ => unknown!("boxed array") },
        BoxDeref => match &a[0] {
            V::CRef(v) => match v.fields() { Some(f) => match &f[0] { r @ (V::CRef(_) | V::MRef(_)) if cx.prog.callees[cid].path.contains("Cow") => r.clone(), x => V::cref(x.clone()) }, None => unknown!("box") },
            V::MRef(l) => { let mut l = (**l).clone(); l.path.push(PE::F(0)); V::MRef(Rc::new(l)) }
            _ => unknown!("box"),
        },
        BoxInner => match a[0].fields() { Some(f) => if cx.prog.callees[cid].path.contains("Cow") { st.deref_all(cx, &f[0])? } else { f[0].clone() }, None => unknown!("box") },
        StringAdd => { let (V::S(x), y) = (&a[0], string!(&a[1])) else { unknown!("string the analysis does not know") }; concat(x, &y) }
        FromChar => match st.deref_all(cx, &a[0])? { V::Int(l) if l.is_const().is_some() => V::lit(&char::from_u32(l.c as u32).unwrap_or('?').to_string()), _ => unknown!("character the analysis does not know") },
        UbHere => return Ok(Out::Panic("undefined behaviour: code marked as unreachable is reached".into())),
        UbAssert => match &a[0] { V::Bool(false) => return Ok(Out::Panic("undefined behaviour: an unchecked assertion does not hold".into())), _ => V::unit() },
        UbAdd | UbSub => {
            let t = self_int(cx, cid);
            let (x, y) = (int!(&a[0]), int!(&a[1]));
            let r = if n == UbSub { x.sub(&y) } else { x.add(&y) };
            if range(st, cx, &r, t)? != 0 { return Ok(Out::Panic("undefined behaviour: overflow of unchecked arithmetic".into())); }
            V::Int(r)
        }
        UbGetMut => {
            let mut l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let i = int!(&a[1]);
            if st.seq_find(cx, &s, &i)?.is_none() { return Ok(Out::Panic("undefined behaviour: unchecked index out of bounds".into())); }
            l.at(i);
            V::MRef(Rc::new(l))
        }
        StrUbGet => {
            let p = string!(&a[0]);
            match &p[..] {
                [Piece::Sub(x, y)] => {
                    let len = y.sub(x);
                    let Some((lo, hi)) = range_arg(cx, cid, &a[1], &len) else { unknown!("part of a string") };
                    let ok = st.ge0(cx, &lo)? && st.ge0(cx, &hi.sub(&lo))? && st.ge0(cx, &len.sub(&hi))? && crate::lexer::boundary(st, cx, &x.add(&lo))? && crate::lexer::boundary(st, cx, &x.add(&hi))?;
                    if !ok { return Ok(Out::Panic("undefined behaviour: unchecked part of a string".into())); }
                    V::cref(V::S(Rc::new(vec![Piece::Sub(x.add(&lo), x.add(&hi))])))
                }
                _ => {
                    let Some(t) = st.text(cx, &p)? else { unknown!("part of an unknown string") };
                    let Some((lo, hi)) = range_arg(cx, cid, &a[1], &Lin::k(t.len() as i128)) else { unknown!("part of a string") };
                    let (Some(lo), Some(hi)) = (st.fixed(&lo), st.fixed(&hi)) else { unknown!("part of a string") };
                    match t.get(lo.max(0) as usize..hi.max(0) as usize) { Some(x) if lo >= 0 => V::cref(V::lit(x)), _ => return Ok(Out::Panic("undefined behaviour: unchecked part of a string".into())) }
                }
            }
        }
        StrGet | StrIndex if matches!(string!(&a[0])[..], [Piece::Sub(..)]) => {
            let p = string!(&a[0]);
            let [Piece::Sub(x, y)] = &p[..] else { unknown!("part of a string") };
            let len = y.sub(x);
            let Some((lo, hi)) = range_arg(cx, cid, &a[1], &len) else { unknown!("part of a string") };
            let ok = st.ge0(cx, &lo)? && st.ge0(cx, &hi.sub(&lo))? && st.ge0(cx, &len.sub(&hi))? && crate::lexer::boundary(st, cx, &x.add(&lo))? && crate::lexer::boundary(st, cx, &x.add(&hi))?;
            let r = V::cref(V::S(Rc::new(vec![Piece::Sub(x.add(&lo), x.add(&hi))])));
            match (n == StrGet, ok) { (true, true) => V::some(r), (true, false) => V::none(), (false, true) => r, _ => return Ok(Out::Panic("string index out of bounds".into())) }
        }
        StrGet | StrIndex if { let p = string!(&a[0]); matches!(p[..], [Piece::Tok(t)] if st.sf(t).lit.is_none()) && {
            // the whole of it, or beyond it
            let [Piece::Tok(t)] = p[..] else { unreachable!() };
            let len = st.word_len(cx, t)?;
            match range_arg(cx, cid, &a[1], &len) { Some((lo, hi)) => lo.is_const() == Some(0) && st.ge0(cx, &hi.sub(&len))?, None => false }
        } } => {
            let p = string!(&a[0]);
            let [Piece::Tok(t)] = p[..] else { unreachable!() };
            let len = st.word_len(cx, t)?;
            let Some((_, hi)) = range_arg(cx, cid, &a[1], &len) else { unknown!("part of a string") };
            match (n == StrGet, st.eq0(cx, &hi.sub(&len))?) { (true, true) => V::some(V::cref(V::S(p.clone()))), (true, false) => V::none(), (false, true) => V::cref(V::S(p.clone())), _ => return Ok(Out::Panic("string index out of bounds".into())) }
        }
        StrGet => {
            let p = string!(&a[0]);
            let Some(t) = st.text(cx, &p)? else { unknown!("part of an unknown string") };
            let Some((lo, hi)) = range_arg(cx, cid, &a[1], &Lin::k(t.len() as i128)) else { unknown!("part of a string") };
            let (Some(lo), Some(hi)) = (st.fixed(&lo), st.fixed(&hi)) else { unknown!("part of a string") };
            if lo < 0 || hi < lo || !t.is_char_boundary(lo as usize) || !t.is_char_boundary(hi as usize) { V::none() } else { V::some(V::cref(V::lit(&t[lo as usize..hi as usize]))) }
        }
        ArrFrom => {
            let Some(o) = cx.prog.callees[cid].output else { unknown!("conversion") };
            let TyKind::Adt { args, .. } = &cx.prog.tys[o].kind else { unknown!("conversion") };
            let mut t = args[0];
            let by_ref = if let TyKind::Ref(x, _) = cx.prog.tys[t].kind { t = x; true } else { false };
            let TyKind::Array(_, k) = cx.prog.tys[t].kind else { unknown!("conversion") };
            let s = match &a[0] { V::Seq(s) => s.clone(), _ => seq!(&a[0]) };
            if st.eq0(cx, &s.len().addk(-(k as i128)))? { V::ok(if by_ref { V::cref(V::Seq(s)) } else { V::Seq(s) }) } else { V::err(if matches!(a[0], V::Seq(_)) { a[0].clone() } else { V::agg(0, vec![V::unit()]) }) }
        }
        ConcatSeq | ByRefLen => unknown!("unsupported"),
        SliceWindows => {
            let s = seq!(&a[0]);
            let k = int!(&a[1]);
            if !st.ge0(cx, &k.addk(-1))? { return Ok(Out::Panic("window size must be non-zero".into())); }
            V::agg(0, vec![V::Seq(s), V::int(0), V::Int(k)])
        }
        WindowsNext => {
            let l = loc!(&a[0]);
            let it = st.read(cx, &l)?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 3 { unknown!("iterator"); }
            let V::Seq(s) = &f[0] else { unknown!("iterator") };
            let (p, k) = (int!(&f[1]), int!(&f[2]));
            if !st.ge0(cx, &s.len().sub(&p.add(&k)))? { return Ok(Out::Val(V::none())); }
            let Some(w) = st.seq_sub(cx, s, &p, &p.add(&k))? else { unknown!("windows") };
            return Ok(Out::W(V::some(V::cref(V::Seq(Rc::new(w)))), vec![(l, V::agg(0, vec![f[0].clone(), V::Int(p.addk(1)), f[2].clone()]))]));
        }
        SliceReverse => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            if !s.segs.iter().all(|g| matches!(g, Seg::El(_))) { unknown!("reverse"); }
            let mut segs = s.segs.clone();
            segs.reverse();
            return Ok(Out::W(V::unit(), vec![(l, V::Seq(Rc::new(Seq { elem: s.elem, segs })))]));
        }
        SliceSwap => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let (i, j) = (int!(&a[1]), int!(&a[2]));
            let (Some(x), Some(y)) = (st.seq_get(cx, &s, &i)?, st.seq_get(cx, &s, &j)?) else { return Ok(Out::Panic("index out of bounds".into())) };
            let Some(t) = st.seq_set(cx, &s, &i, y)? else { unknown!("swap") };
            let Some(t) = st.seq_set(cx, &t, &j, x)? else { unknown!("swap") };
            return Ok(Out::W(V::unit(), vec![(l, V::Seq(Rc::new(t)))]));
        }
        SliceToVec => V::Seq(match &a[0] { V::Seq(s) => s.clone(), v => seq!(v) }),
        SliceContains => unknown!("contains"),
        SeqEq | SeqNe => { let (x, y) = (st.deref_all(cx, &a[0])?, st.deref_all(cx, &a[1])?); if x == y && !x.has_top() { V::Bool(n == SeqEq) } else { unknown!("comparison of sequences") } }
        MemReplace => { let l = loc!(&a[0]); let old = st.read(cx, &l)?; return Ok(Out::W(old, vec![(l, a[1].clone())])); }
        MemTake => {
            let l = loc!(&a[0]);
            let old = st.read(cx, &l)?;
            let Some(d) = default_of(cx, elem_ty(cx, cid)) else { unknown!("mem::take") };
            return Ok(Out::W(old, vec![(l, d)]));
        }
        MemSwap => {
            let (l, m) = (loc!(&a[0]), loc!(&a[1]));
            let (x, y) = (st.read(cx, &l)?, st.read(cx, &m)?);
            return Ok(Out::W(V::unit(), vec![(l, y), (m, x)]));
        }
        StepFwd => V::Int(int!(&a[0]).add(&int!(&a[1]))),
        StepBwd => V::Int(int!(&a[0]).sub(&int!(&a[1]))),
        DefaultOf => {
            let t = cx.prog.callees[cid].output.unwrap_or(0);
            match default_of(cx, t) { Some(v) => v, None => unknown!("default") }
        }
        Panic => return Ok(Out::Panic(match a.first() { Some(v) => match str_arg(st, cx, v)? { Some(p) => str_lit(st, &p).unwrap_or_default(), None => "panic".into() }, None => "panic".into() })),
        DiscrVal => {
            let t = elem_ty(cx, cid);
            match st.deref(cx, &a[0])? {
                V::Agg(k, _) => V::int(cx.prog.adt(t).and_then(|(_, vs)| vs.get(k as usize)).map(|v| v.discr).unwrap_or(k as i128)),
                V::Sel(b, i, f) => match st.sel_variant(cx, b, &i, &f)? { Some(k) => V::int(k as i128), None => unknown!("discriminant") },
                _ => unknown!("discriminant"),
            }
        }
        CheckedAdd | CheckedSub | CheckedMul | CheckedAddSigned => {
            let (x, y) = (int!(&a[0]), int!(&a[1]));
            let r = match n { CheckedAdd | CheckedAddSigned => x.add(&y), CheckedSub => x.sub(&y), _ => match (x.is_const(), y.is_const()) { (Some(k), _) => y.scale(k), (_, Some(k)) => x.scale(k), _ => unknown!("multiplication") } };
            let t = self_int(cx, cid);
            if range(st, cx, &r, t)? == 0 { V::some(V::Int(r)) } else { V::none() }
        }
        WrappingAdd | WrappingSub | WrappingAddSigned => {
            let t = self_int(cx, cid);
            binop(st, cx, if n == WrappingSub { Bin::Sub } else { Bin::Add }, &a[0], &a[1], false, Some(t))?
        }
        SaturatingSub | SaturatingAdd => {
            let t = self_int(cx, cid);
            let (x, y) = (int!(&a[0]), int!(&a[1]));
            let r = if n == SaturatingSub { x.sub(&y) } else { x.add(&y) };
            let (lo, hi) = cx.prog.int_bounds(t).unwrap_or((0, 0));
            V::Int(match range(st, cx, &r, t)? { 0 => r, -1 => Lin::k(lo), _ => Lin::k(hi) })
        }
        UnsignedAbs => { let x = int!(&a[0]); V::Int(if st.ge0(cx, &x)? { x } else { x.neg() }) }
        Abs => {
            let x = int!(&a[0]);
            if st.ge0(cx, &x)? { V::Int(x) } else {
                let hi = cx.prog.callees[cid].output.and_then(|t| cx.prog.int_bounds(t)).map(|b| b.1).unwrap_or(i64::MAX as i128);
                if !st.ge0(cx, &Lin::k(hi).add(&x))? { return Ok(Out::Panic("overflow in absolute value".into())); }
                V::Int(x.neg())
            }
        }
        AbsOr(k) => {
            let x = int!(&a[0]);
            let t = self_int(cx, cid);
            let (lo, hi) = cx.prog.int_bounds(t).unwrap_or((0, 0));
            let r = if st.ge0(cx, &x)? { Some(x) } else if st.ge0(cx, &Lin::k(hi).add(&x))? { Some(x.neg()) } else { None };
            match (k, r) { (1, Some(r)) => V::some(V::Int(r)), (1, None) => V::none(), (_, Some(r)) => V::Int(r), (0, None) => V::int(lo), _ => V::int(hi) }
        }
        IsPositive => V::Bool(st.ge0(cx, &int!(&a[0]).addk(-1))?),
        IsNegative => V::Bool(st.ge0(cx, &int!(&a[0]).neg().addk(-1))?),
        Nop => V::unit(),
        CtPop => unknown!("unsupported"),
        BoxNew | CellNew => V::agg(0, vec![a[0].clone()]),
        // a cell is reached through the variable it is part of
        CellGet | CellSet | CellReplace | CellIn => {
            let V::MRef(l) = &a[0] else { unknown!("shared cell") };
            let mut l = (**l).clone();
            l.path.push(PE::F(0));
            match n {
                CellGet => st.read(cx, &l)?,
                CellSet => return Ok(Out::W(V::unit(), vec![(l, a[1].clone())])),
                CellReplace => { let old = st.read(cx, &l)?; return Ok(Out::W(old, vec![(l, a[1].clone())])); }
                _ => V::MRef(Rc::new(l)),
            }
        }
        Guard => match &a[0] {
            V::CRef(v) => match &**v { V::MRef(_) => (**v).clone(), _ => unknown!("shared cell") },
            V::MRef(l) => match st.read(cx, l)? { v @ V::MRef(_) => v, _ => unknown!("shared cell") },
            _ => unknown!("shared cell"),
        },
        StrM => {
            let one = crate::strings::as_chars(st, cx, a)?;
            let a = one.as_deref().unwrap_or(a);
            let m = cx.prog.callees[cid].path.rsplit("::").next().unwrap_or("").to_string();
            match crate::strings::method(st, cx, &m, a)? { Some(v) => v, None => unknown!("string the analysis does not know") }
        }
        CharM | ByteM => {
            let m = cx.prog.callees[cid].path.rsplit("::").next().unwrap_or("").to_string();
            let c = match st.deref_all(cx, &a[0])? { V::Int(l) => l, _ => unknown!("character the analysis does not know") };
            let arg = match a.get(1) { Some(x) => match st.deref_all(cx, x)? { V::Int(l) => l.is_const(), _ => None }, None => None };
            if let Some((x, s, o)) = st.as_byte(&c) {
                match st.by_byte(x, &s, &|b| crate::strings::char_method(&m, b as i128 + o, n == ByteM, arg))? { Some(v) => return Ok(Out::Val(v)), None => unknown!("character function") }
            }
            let Some(c) = st.value_of(cx, &c)? else { unknown!("character the analysis does not know") };
            match crate::strings::char_method(&m, c, n == ByteM, arg) { Some(v) => v, None => unknown!("character function") }
        }
        IMin | IMax => { let (x, y) = (int!(&a[0]), int!(&a[1])); let le = st.ge0(cx, &y.sub(&x))?; V::Int(if le == (n == IMin) { x } else { y }) }
        TryFromInt => {
            let Some(o) = cx.prog.callees[cid].output else { unknown!("conversion") };
            let TyKind::Adt { args, .. } = &cx.prog.tys[o].kind else { unknown!("conversion") };
            let t = args[0];
            let x = int!(&a[0]);
            if range(st, cx, &x, t)? == 0 { V::ok(V::Int(x)) } else { V::err(V::agg(0, vec![V::unit()])) }
        }
        Rem => {
            let (x, y) = (int!(&a[0]), int!(&a[1]));
            let (Some(c), true) = (y.is_const().filter(|c| *c > 0), st.ge0(cx, &x)?) else { unknown!("remainder") };
            if let Some(k) = x.is_const() { V::int(k.rem_euclid(c)) } else { match divide(st, cx, Bin::Rem, &a[0], &a[1], None)? { Some(l) => V::Int(l), None => unknown!("remainder") } }
        }
        AbsDiff => { let (x, y) = (int!(&a[0]), int!(&a[1])); V::Int(if st.ge0(cx, &x.sub(&y))? { x.sub(&y) } else { y.sub(&x) }) }
        Pow => { let (Some(x), Some(y)) = (int!(&a[0]).is_const(), int!(&a[1]).is_const()) else { unknown!("power") }; match x.checked_pow(y as u32) { Some(r) => { let t = self_int(cx, cid); if range(st, cx, &Lin::k(r), t)? == 0 { V::int(r) } else { return Ok(Out::Panic("overflow in Pow".into())) } } None => return Ok(Out::Panic("overflow in Pow".into())) } }
        WrappingNeg => { let t = self_int(cx, cid); binop(st, cx, Bin::Sub, &V::int(0), &a[0], false, Some(t))? }
        CheckedNeg => { let x = int!(&a[0]).neg(); let t = self_int(cx, cid); if range(st, cx, &x, t)? == 0 { V::some(V::Int(x)) } else { V::none() } }
        WrappingMul => { let t = self_int(cx, cid); binop(st, cx, Bin::Mul, &a[0], &a[1], false, Some(t))? }
        Overflowing(b) => {
            let t = self_int(cx, cid);
            let w = binop(st, cx, b, &a[0], &a[1], false, Some(t))?;
            let c = binop(st, cx, b, &a[0], &a[1], true, Some(t))?;
            match c { V::Agg(_, f) => V::agg(0, vec![w, f[1].clone()]), _ => unknown!("overflowing operation") }
        }
        Signum => { let x = int!(&a[0]); if st.eq0(cx, &x)? { V::int(0) } else if st.ge0(cx, &x)? { V::int(1) } else { V::int(-1) } }
        FloatF(name) => {
            let mut v = vec![];
            for x in a { match x { V::Float(x) => v.push(x.clone()), _ => unknown!("float") } }
            let f = Fl::F(name, Rc::new(v.clone()));
            let one = cx.prog.callees[cid].path.contains("f32");
            if one && !matches!(name, "abs" | "min" | "max" | "floor" | "ceil" | "round" | "trunc" | "signum" | "copysign" | "clamp") { unknown!("float"); }
            V::Float(if v.iter().all(|x| matches!(x, Fl::C(_))) { match crate::witness::Wit::default().float(&f) { Some(x) => Fl::C(x.to_bits()), None => f } } else { f })
        }
        FloatIs(Bin::Offset) => match apply(st, cx, cid, FloatIs(Bin::And), a)? { Out::Val(V::Bool(b)) => V::Bool(!b), o => return Ok(o) },
        FloatIs(k) => match &a[0] {
            V::Float(Fl::C(b)) => { let x = f64::from_bits(*b); V::Bool(if k == Bin::Or { x.is_finite() } else { fcmp(k, x, 0.0) }) }
            V::Float(Fl::Parse(s)) => {
                if k == Bin::Or {
                    if st.float_cmp(cx, *s, Bin::Rem, 0)? == V::Bool(true) { V::Bool(false) } else { match st.float_cmp(cx, *s, Bin::Xor, 0)? { V::Bool(b) => V::Bool(!b), v => v } }
                } else { st.float_cmp(cx, *s, k, 0)? }
            }
            _ => unknown!("float"),
        },
        VecDrain => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let len = s.len();
            let Some((lo, hi)) = range_arg(cx, cid, &a[1], &len) else { unknown!("drain") };
            let (Some(x), Some(y), Some(z)) = (st.seq_sub(cx, &s, &lo, &hi)?, st.seq_sub(cx, &s, &Lin::k(0), &lo)?, st.seq_sub(cx, &s, &hi, &len)?) else { return Ok(Out::Panic("range out of bounds".into())) };
            let mut segs = y.segs.clone();
            segs.extend(z.segs.iter().cloned());
            let k = x.len();
            return Ok(Out::W(V::agg(0, vec![V::Seq(Rc::new(x)), V::int(0), V::Int(k)]), vec![(l, V::seq(s.elem, segs))]));
        }
        VecSplitOff => {
            let l = loc!(&a[0]);
            let s = seq!(&a[0]);
            let k = int!(&a[1]);
            let (Some(x), Some(y)) = (st.seq_sub(cx, &s, &Lin::k(0), &k)?, st.seq_sub(cx, &s, &k, &s.len())?) else { return Ok(Out::Panic("range out of bounds".into())) };
            return Ok(Out::W(V::Seq(Rc::new(y)), vec![(l, V::Seq(Rc::new(x)))]));
        }
        SliceFirstMut => {
            let mut l = loc!(&a[0]);
            let s = seq!(&a[0]);
            if st.eq0(cx, &s.len())? { return Ok(Out::Val(V::none())); }
            l.at(Lin::k(0));
            V::some(V::MRef(Rc::new(l)))
        }
        SliceChunks => {
            let s = seq!(&a[0]);
            let k = int!(&a[1]);
            if !st.ge0(cx, &k.addk(-1))? { return Ok(Out::Panic("chunk size must be non-zero".into())); }
            let exact = cx.prog.callees[cid].path.ends_with("exact");
            V::agg(0, vec![V::Seq(s), V::int(0), V::Int(k), V::Bool(exact)])
        }
        ChunksNext => {
            let l = loc!(&a[0]);
            let it = st.read(cx, &l)?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 4 { unknown!("iterator"); }
            let V::Seq(s) = &f[0] else { unknown!("iterator") };
            let (p, k) = (int!(&f[1]), int!(&f[2]));
            let left = s.len().sub(&p);
            let full = st.ge0(cx, &left.sub(&k))?;
            if !full && (f[3] == V::Bool(true) || st.eq0(cx, &left)?) { return Ok(Out::Val(V::none())); }
            let e = if full { p.add(&k) } else { s.len() };
            let Some(w) = st.seq_sub(cx, s, &p, &e)? else { unknown!("chunks") };
            return Ok(Out::W(V::some(V::cref(V::Seq(Rc::new(w)))), vec![(l, V::agg(0, vec![f[0].clone(), V::Int(e), f[2].clone(), f[3].clone()]))]));
        }
        IterGet => {
            let it = st.deref_all(cx, &a[0])?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 3 { unknown!("iterator"); }
            if let V::MRef(m) = &f[0] {
                let mut m = (**m).clone();
                m.at(int!(&f[1]).add(&int!(&a[1])));
                return Ok(Out::Val(V::MRef(Rc::new(m))));
            }
            let V::Seq(s) = &f[0] else { unknown!("iterator") };
            let Some(v) = st.seq_get(cx, s, &int!(&f[1]).add(&int!(&a[1])))? else { unknown!("iterator") };
            if cx.prog.callees[cid].path.starts_with("<std::slice") { V::cref(v) } else { v }
        }
        IterRemaining => {
            let it = st.deref_all(cx, &a[0])?;
            let Some(f) = it.fields() else { unknown!("iterator") };
            if f.len() != 3 { unknown!("iterator"); }
            let V::Seq(s) = &f[0] else { unknown!("iterator") };
            match st.seq_sub(cx, s, &int!(&f[1]), &int!(&f[2]))? { Some(s) => V::cref(V::Seq(Rc::new(s))), None => unknown!("iterator") }
        }
        Join => {
            let s = seq!(&a[0]);
            if let Some(Seg::El(v)) = s.segs.first() { if let V::Seq(_) = st.deref_all(cx, v)? {
                if a.len() > 1 { unknown!("join"); }
                let mut segs = vec![];
                for g in &s.segs { let Seg::El(v) = g else { unknown!("join") }; let V::Seq(t) = st.deref_all(cx, v)? else { unknown!("join") }; segs.extend(t.segs.iter().cloned()); }
                return Ok(Out::Val(V::Seq(Rc::new(Seq { elem: 0, segs }.norm()))));
            } }
            let sep: Rc<Vec<Piece>> = match a.get(1) { Some(v) => string!(v), None => Rc::new(vec![]) };
            let mut out: Vec<Piece> = vec![];
            for (i, g) in s.segs.iter().enumerate() {
                let Seg::El(v) = g else { unknown!("join") };
                if i > 0 { out.extend(sep.iter().cloned()); }
                match st.deref_all(cx, v)? { V::S(p) => out.extend(p.iter().cloned()), _ => unknown!("join") }
            }
            concat(&[], &out)
        }
        StrCmp => {
            let (x, y) = (string!(&a[0]), string!(&a[1]));
            let (Some(x), Some(y)) = (st.text(cx, &x)?, st.text(cx, &y)?) else { unknown!("comparison of two unknown strings") };
            let v = V::agg(match x.cmp(&y) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 }, vec![]);
            if cx.prog.callees[cid].path.ends_with("partial_cmp") { V::some(v) } else { v }
        }
        StrIndex => {
            let p = string!(&a[0]);
            let Some(t) = st.text(cx, &p)? else { unknown!("part of an unknown string") };
            let Some((lo, hi)) = range_arg(cx, cid, &a[1], &Lin::k(t.len() as i128)) else { unknown!("part of a string") };
            let (Some(lo), Some(hi)) = (st.fixed(&lo), st.fixed(&hi)) else { unknown!("part of a string") };
            if lo < 0 || hi < lo || !t.is_char_boundary(lo as usize) || !t.is_char_boundary(hi as usize) { return Ok(Out::Panic("string index out of bounds".into())); }
            V::cref(V::lit(&t[lo as usize..hi as usize]))
        }
        UbGet => {
            let s = seq!(&a[0]);
            match &a[1] {
                V::Int(i) => match st.seq_get(cx, &s, i)? { Some(v) => V::cref(v), None => return Ok(Out::Panic("undefined behaviour: unchecked index out of bounds".into())) },
                r => {
                    let Some((lo, hi)) = range_arg(cx, cid, r, &s.len()) else { unknown!("index") };
                    match st.seq_sub(cx, &s, &lo, &hi)? { Some(t) => V::cref(V::Seq(Rc::new(t))), None => return Ok(Out::Panic("undefined behaviour: unchecked range out of bounds".into())) }
                }
            }
        }
        FmtLower => unknown!("format"),
    }))
}

fn step_int(cx: &Cx, cid: CalleeId) -> TyId {
    // <usize as std::iter::Step>::...
    let name = cx.prog.callees[cid].path.trim_start_matches('<').split(' ').next().unwrap_or("usize").to_string();
    cx.prog.tys.iter().position(|t| t.name == name).unwrap_or(0)
}

fn self_int(cx: &Cx, cid: CalleeId) -> TyId {
    // core::num::<impl usize>::...
    let p = &cx.prog.callees[cid].path;
    let name = p.split("<impl ").nth(1).and_then(|r| r.split('>').next()).unwrap_or("usize");
    cx.prog.tys.iter().position(|t| t.name == name).unwrap_or(0)
}

trait Pipe: Sized { fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R { f(self) } }
impl Pipe for V {}

pub fn seq_len(st: &State, v: &V) -> Option<Lin> {
    match v { V::Seq(s) => Some(s.len()), V::S(p) => str_len(st, p), _ => None }
}

/// The location a mutable reference points to, through any number of references.
pub fn mloc(st: &State, cx: &Cx, v: &V) -> Dec<Option<Loc>> {
    let mut v = v.clone();
    loop {
        match v {
            V::MRef(l) => {
                let inner = st.read(cx, &l)?;
                if let V::MRef(_) = inner { v = inner; continue; }
                return Ok(Some((*l).clone()));
            }
            V::CRef(x) => v = (*x).clone(),
            _ => return Ok(None),
        }
    }
}
