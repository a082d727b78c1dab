//! Lowering of rustc's monomorphic MIR (through rustc_public) into `ir`.
use crate::ir::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, AggregateKind, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_public::ty::{self, Allocation, ConstantKind, GenericArgKind, RigidTy, Ty};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

pub struct Lowerer<'p> {
    pub prog: Program,
    tymap: HashMap<Ty, TyId>,
    inst: HashMap<Instance, CalleeId>,
    queue: VecDeque<(CalleeId, Instance)>,
    modelled: &'p dyn Fn(&str) -> bool,
    inline: &'p dyn Fn(&str) -> bool,
    models: HashMap<String, ty::FnDef>,
    /// types seen as trait objects: (trait, type)
    dyns: Vec<(ty::TraitDef, Ty)>,
    /// methods called on trait objects
    virtuals: Vec<(CalleeId, ty::TraitDef, Instance)>,
}

fn principal(t: Ty) -> Option<ty::TraitDef> {
    match t.kind().rigid() { Some(RigidTy::Dynamic(ps, _)) => ps.iter().find_map(|p| match p.clone().skip_binder() { ty::ExistentialPredicate::Trait(t) => Some(t.def_id), _ => None }), _ => None }
}
/// What a reference, pointer or box refers to.
fn pointee(t: Ty) -> Option<Ty> {
    match t.kind().rigid() {
        Some(RigidTy::Ref(_, t, _)) | Some(RigidTy::RawPtr(t, _)) => Some(*t),
        Some(RigidTy::Adt(d, a)) if d.is_box() => a.0.iter().find_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None }),
        _ => None,
    }
}


/// The stand-in (in models/lib.rs) for a library function, by path.
fn redirect(path: &str) -> Option<String> {
    let exact = match path {
        "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" => "vec_from_iter",
        "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend" => "vec_extend",
        "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend" => "vec_extend_ref",
        "<std::string::String as std::iter::FromIterator<&'a str>>::from_iter" => "string_from_iter_str",
        "<std::string::String as std::iter::FromIterator<std::string::String>>::from_iter" => "string_from_iter_string",
        "std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq" => "vec_eq",
        "std::vec::partial_eq::<impl std::cmp::PartialEq<[U]> for std::vec::Vec<T, A>>::eq" => "vec_eq_slice",
        "std::vec::partial_eq::<impl std::cmp::PartialEq<&[U]> for std::vec::Vec<T, A>>::eq" => "vec_eq_slice_ref",
        "std::vec::partial_eq::<impl std::cmp::PartialEq<[U; N]> for std::vec::Vec<T, A>>::eq" => "vec_eq_array",
        "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq" => "slice_eq",
        "core::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq" | "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq" => "array_eq",
        "std::array::<impl [T; N]>::map" | "core::array::<impl [T; N]>::map" => "array_map",
        "std::array::from_fn" | "core::array::from_fn" => "array_from_fn",
        "std::collections::HashMap::<K, V, S>::get" => "hm_get", "std::collections::HashMap::<K, V, S>::contains_key" => "hm_contains_key", "std::collections::HashMap::<K, V, S>::insert" => "hm_insert",
        "std::collections::HashMap::<K, V, S, A>::get" => "hm_get", "std::collections::HashMap::<K, V, S, A>::contains_key" => "hm_contains_key", "std::collections::HashMap::<K, V, S, A>::insert" => "hm_insert",
        "std::collections::HashSet::<T, S>::contains" | "std::collections::HashSet::<T, S, A>::contains" => "hs_contains", "std::collections::HashSet::<T, S>::insert" | "std::collections::HashSet::<T, S, A>::insert" => "hs_insert",
        "std::collections::BTreeMap::<K, V, A>::get" => "bm_get", "std::collections::BTreeMap::<K, V, A>::contains_key" => "bm_contains_key", "std::collections::BTreeMap::<K, V, A>::insert" => "bm_insert",
        "std::collections::BTreeSet::<T, A>::contains" => "bs_contains", "std::collections::BTreeSet::<T, A>::insert" => "bs_insert",
        "std::collections::HashMap::<K, V, S, A>::get_mut" | "std::collections::HashMap::<K, V, S>::get_mut" => "hm_get_mut", "std::collections::HashMap::<K, V, S, A>::remove" | "std::collections::HashMap::<K, V, S>::remove" => "hm_remove",
        "<std::collections::HashMap<K, V, S, A> as std::ops::Index<&Q>>::index" | "<std::collections::HashMap<K, V, S> as std::ops::Index<&Q>>::index" => "hm_index",
        "std::collections::HashMap::<K, V, S, A>::entry" | "std::collections::HashMap::<K, V, S>::entry" => "hm_entry",
        "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert" | "std::collections::hash_map::Entry::<'a, K, V>::or_insert" => "hm_or_insert",
        "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with" | "std::collections::hash_map::Entry::<'a, K, V>::or_insert_with" => "hm_or_insert_with",
        "std::collections::hash_map::Entry::<'a, K, V, A>::or_default" | "std::collections::hash_map::Entry::<'a, K, V>::or_default" => "hm_or_default",
        "<std::string::String as std::iter::FromIterator<char>>::from_iter" => "string_from_iter_char",
        "<std::string::String as std::iter::FromIterator<&'a char>>::from_iter" => "string_from_iter_charref",
        "<std::string::String as std::iter::Extend<char>>::extend" => "string_extend_char",
        "<std::string::String as std::iter::Extend<&'a str>>::extend" => "string_extend_str",
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition" => "slice_rposition",
        "core::slice::<impl [T]>::is_sorted" => "slice_is_sorted",
        "std::cell::Cell::<T>::take" => "cell_take", "std::cell::RefCell::<T>::take" => "refcell_take", "std::cell::Cell::<T>::update" => "cell_update",
        "<std::cell::Cell<T> as std::default::Default>::default" => "cell_default", "<std::cell::RefCell<T> as std::default::Default>::default" => "refcell_default",
        "core::slice::<impl [T]>::is_sorted_by" => "slice_is_sorted_by",
        "core::slice::<impl [T]>::is_sorted_by_key" => "slice_is_sorted_by_key",
        "core::f64::<impl f64>::clamp" | "core::num::<impl f64>::clamp" | "std::f64::<impl f64>::clamp" => "clamp_f64",
        "<std::collections::HashSet<T, S> as std::iter::FromIterator<T>>::from_iter" | "<std::collections::HashSet<T, S, A> as std::iter::FromIterator<T>>::from_iter" => "hs_from_iter",
        "std::collections::VecDeque::<T, A>::pop_front" => "vd_pop_front", "std::collections::VecDeque::<T, A>::push_front" => "vd_push_front",
        "<std::collections::HashMap<K, V, S> as std::iter::FromIterator<(K, V)>>::from_iter" => "hm_from_iter", "<std::collections::HashMap<K, V> as std::convert::From<[(K, V); N]>>::from" => "hm_from_array",
        "<std::collections::HashSet<T> as std::convert::From<[T; N]>>::from" => "hs_from_array",
        "<std::collections::BTreeMap<K, V> as std::iter::FromIterator<(K, V)>>::from_iter" => "bm_from_iter", "<std::collections::BTreeMap<K, V> as std::convert::From<[(K, V); N]>>::from" => "bm_from_array",
        "<std::collections::BTreeSet<T> as std::iter::FromIterator<T>>::from_iter" => "bs_from_iter",
        "<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter" => "bm_iter_ref", "<&'a std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter" => "bs_iter_ref",
        "<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter" => "bm_into_iter", "<std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter" => "bs_into_iter",
        "<std::collections::BTreeMap<K, V, A> as std::ops::Index<&Q>>::index" => "bm_index",
        "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert" => "bm_or_insert", "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with" => "bm_or_insert_with", "std::collections::btree_map::Entry::<'a, K, V, A>::or_default" => "bm_or_default",
        "std::collections::hash_map::Entry::<'a, K, V, A>::and_modify" | "std::collections::hash_map::Entry::<'a, K, V>::and_modify" => "hm_and_modify",
        "<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index" => "vd_index", "<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from" => "vd_from_vec",
        "<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter" => "vd_into_iter", "std::collections::VecDeque::<T, A>::iter" => "vd_iter",
        _ => "",
    };
    if let Some(r) = path.strip_prefix("std::collections::BTreeMap::<K, V, A>::") {
        if ["iter", "keys", "values", "into_values", "get_mut", "remove", "entry", "first_key_value", "last_key_value"].contains(&r) { return Some(format!("bm_{}", r)); }
    }
    if path == "std::collections::BTreeSet::<T, A>::iter" { return Some("bs_iter".into()); }
    if let Some(r) = path.strip_prefix("std::string::String::") {
        if ["pop", "insert", "insert_str", "truncate", "remove", "retain"].contains(&r) { return Some(format!("string_{}", r)); }
    }
    if let Some((t, r)) = path.strip_prefix('<').and_then(|p| p.split_once(" as std::iter::Step>::")) { if r == "steps_between" { return Some(format!("steps_{}", t)); } }
    if let Some((t, r)) = path.strip_prefix("core::num::<impl ").and_then(|p| p.split_once(">::")) {
        if ["checked_div", "checked_rem", "div_euclid", "rem_euclid", "div_ceil", "next_multiple_of"].contains(&r) { return Some(format!("{}_{}", r, t)); }
    }
    if let Some(r) = path.strip_prefix("std::vec::Vec::<T, A>::") {
        if ["dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "insert", "remove", "swap_remove", "resize", "pop_if", "resize_with", "extend_from_within", "splice"].contains(&r) { return Some(format!("vec_{}", r)); }
    }
    if let Some(r) = path.strip_prefix("core::slice::<impl [T]>::").or_else(|| path.strip_prefix("std::slice::<impl [T]>::")).or_else(|| path.strip_prefix("alloc::slice::<impl [T]>::")) {
        if ["contains", "starts_with", "ends_with", "split_first", "split_last", "split_at", "split_at_checked", "sort", "sort_by", "sort_by_key", "fill", "rotate_left", "rotate_right", "binary_search", "binary_search_by", "binary_search_by_key", "partition_point", "copy_from_slice", "clone_from_slice", "fill_with", "split_first_mut", "split_last_mut", "split", "chunk_by", "rchunks", "first_chunk", "last_chunk", "split_first_chunk"].contains(&r) { return Some(format!("slice_{}", r)); }
        if let "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" = r { return Some(format!("slice_{}", r.replace("_unstable", ""))); }
    }
    if !exact.is_empty() { return Some(exact.to_string()); }
    for (pre, m) in [
        ("<std::slice::Iter<'a, T> as std::iter::Iterator>::", "slice_iter"),
        ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::", "slice_iter_mut"),
        ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::", "vec_into_iter"),
        ("<std::str::Chars<'a> as std::iter::Iterator>::", "chars"),
        ("<std::str::Bytes<'_> as std::iter::Iterator>::", "bytes"),
        ("<std::array::IntoIter<T, N> as std::iter::Iterator>::", "array_into_iter"),
        ("<std::slice::Windows<'a, T> as std::iter::Iterator>::", "slice_windows"), ("<std::slice::Chunks<'a, T> as std::iter::Iterator>::", "slice_chunks"), ("<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::", "slice_chunks_exact"),
        ("<std::str::SplitWhitespace<'a> as std::iter::Iterator>::", "str_words"), ("<std::str::SplitAsciiWhitespace<'a> as std::iter::Iterator>::", "str_ascii_words"), ("<std::str::Lines<'a> as std::iter::Iterator>::", "str_lines"), ("<std::str::CharIndices<'a> as std::iter::Iterator>::", "char_indices"),
        ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::", "vd_it"), ("<std::collections::btree_map::Iter<'a, K, V> as std::iter::Iterator>::", "bm_it"), ("<std::collections::btree_map::Keys<'a, K, V> as std::iter::Iterator>::", "bm_keys_it"),
        ("<std::collections::btree_map::Values<'a, K, V> as std::iter::Iterator>::", "bm_values_it"), ("<std::collections::btree_set::Iter<'a, T> as std::iter::Iterator>::", "bs_it"),
        ("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::", "slice_iter_b"),
        ("<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::", "vec_into_iter_b"),
        ("<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::", "chars_b"),
    ] {
        if let Some(r) = path.strip_prefix(pre) { return Some(format!("{}::{}", m, r)); }
    }
    None
}

/// The arguments of a library function in the order that its stand-in has them, lifetimes
/// first; none if they do not fit.
fn stand_in_args(d: rustc_public::ty::FnDef, a: &rustc_public::ty::GenericArgs) -> Option<rustc_public::ty::GenericArgs> {
    let ty = d.ty();
    let kind = ty.kind();
    let Some(RigidTy::FnDef(_, own)) = kind.rigid() else { return None };
    let of = |a: &GenericArgKind| match a { GenericArgKind::Lifetime(_) => 0, GenericArgKind::Type(_) => 1, GenericArgKind::Const(_) => 2 };
    let want = own.0.iter().filter(|x| of(x) == 0).count();
    let mut v: Vec<GenericArgKind> = a.0.iter().filter(|x| of(x) == 0).cloned().collect();
    if v.len() < want { if a.0.is_empty() || v.is_empty() { return None; } let l = v[0].clone(); while v.len() < want { v.push(l.clone()); } }
    v.truncate(want);
    v.extend(a.0.iter().filter(|x| of(x) != 0).cloned());
    if v.len() != own.0.len() || v.iter().zip(own.0.iter()).any(|(x, y)| of(x) != of(y)) { return None; }
    Some(rustc_public::ty::GenericArgs(v))
}

fn idx<T: rustc_public_bridge::IndexedVal>(v: T) -> usize { v.to_index() }

impl<'p> Lowerer<'p> {
    pub fn new(modelled: &'p dyn Fn(&str) -> bool, inline: &'p dyn Fn(&str) -> bool) -> Self {
        Lowerer { prog: Program::default(), tymap: HashMap::new(), inst: HashMap::new(), queue: VecDeque::new(), modelled, inline, dyns: vec![], virtuals: vec![], models: {
            let mut m = HashMap::new();
            for c in rustc_public::find_crates("objmodels") {
                for f in c.fn_defs() { m.insert(f.name().to_string().trim_start_matches("objmodels::").trim_start_matches("more::").trim_start_matches("extra::").to_string(), f); }
            }
            m
        } }
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let id = self.prog.tys.len();
        self.tymap.insert(t, id);
        self.prog.tys.push(TyInfo { name: format!("{}", t), kind: TyKind::Other });
        let k = t.kind();
        let kind = match k.rigid() {
            None => TyKind::Other,
            Some(r) => match r {
                RigidTy::Bool => TyKind::Bool,
                RigidTy::Char => TyKind::Char,
                RigidTy::Int(i) => TyKind::Int { signed: true, bits: i.num_bytes() as u32 * 8 },
                RigidTy::Uint(i) => TyKind::Int { signed: false, bits: i.num_bytes() as u32 * 8 },
                RigidTy::Float(_) => TyKind::Float,
                RigidTy::Str => TyKind::Str,
                RigidTy::Adt(def, args) => {
                    let path = def.name().to_string();
                    let local = def.krate().is_local;
                    let mut targs = vec![];
                    for a in &args.0 { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t)); } }
                    let mut variants = vec![];
                    let expand = local || path.contains("option::Option") || path.contains("result::Result")
                        || path.contains("ops::ControlFlow") || path.contains("cmp::Ordering")
                        || path.contains("::Range") || path.contains("num::") || path.contains("borrow::Cow") || path.contains("Infallible") || path.contains("ops::Bound");
                    if expand {
                        for v in def.variants_iter() {
                            let discr = if def.kind() == ty::AdtKind::Enum {
                                let d = def.discriminant_for_variant(v.idx());
                                match d.ty.kind().rigid() { Some(RigidTy::Int(i)) => { let sh = 128 - 8 * i.num_bytes() as u32; ((d.val << sh) as i128) >> sh } _ => d.val as i128 }
                            } else { 0 };
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(args);
                                fs.push((f.name.to_string(), self.ty(ft)));
                            }
                            variants.push(VariantInfo { name: v.name().to_string(), discr, fields: fs });
                        }
                    }
                    TyKind::Adt { path, args: targs, variants, is_enum: def.kind() == ty::AdtKind::Enum, local }
                }
                RigidTy::Array(e, n) => { let e = self.ty(*e); TyKind::Array(e, n.eval_target_usize().unwrap_or(0)) }
                RigidTy::Slice(e) => { let e = self.ty(*e); TyKind::Slice(e) }
                RigidTy::RawPtr(e, _) => { let e = self.ty(*e); TyKind::RawPtr(e) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(*e); TyKind::Ref(e, matches!(m, mir::Mutability::Mut)) }
                RigidTy::FnDef(def, args) => match Instance::resolve(*def, args) {
                    Ok(i) => { let c = self.callee(i); TyKind::FnDef(c) }
                    Err(_) => TyKind::Other,
                },
                RigidTy::FnPtr(_) => TyKind::FnPtr,
                RigidTy::Closure(d, _) => TyKind::Closure(d.name().to_string()),
                RigidTy::Never => TyKind::Never,
                RigidTy::Tuple(ts) => { let v = ts.clone().iter().map(|t| self.ty(*t)).collect(); TyKind::Tuple(v) }
                _ => TyKind::Other,
            },
        };
        if self.prog.tys[id].name.starts_with("std::boxed::BoxRaw<") { self.prog.boxraw.insert(id); }
        self.prog.tys[id].kind = kind;
        id
    }

    pub fn callee(&mut self, i: Instance) -> CalleeId {
        if let Some(&c) = self.inst.get(&i) { return c; }
        let path = i.def.name().to_string();
        // a closure as a pattern
        let by_fn = path.strip_prefix("core::str::<impl str>::").or_else(|| path.strip_prefix("std::str::<impl str>::")).or_else(|| path.strip_prefix("alloc::str::<impl str>::"))
            .filter(|_| i.args().0.iter().any(|a| matches!(a, GenericArgKind::Type(t) if matches!(t.kind().rigid(), Some(RigidTy::Closure(..)))))).map(|r| format!("strf_{}", r));
        if let Some(m) = by_fn.or_else(|| redirect(&path)) {
            if let Some(d) = self.models.get(&m) {
                if let Some(Ok(Ok(j))) = stand_in_args(*d, &i.args()).map(|a| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(*d, &a)))) {
                    let c = self.callee(j);
                    self.inst.insert(i, c);
                    return c;
                }
            }
        }
        let id = self.prog.callees.len();
        self.inst.insert(i, id);
        let full = i.name().to_string();
        let krate = i.def.krate();
        let shim = i.kind == InstanceKind::Shim;
        self.prog.callees.push(Callee { path: path.clone(), full: full.clone(), args: vec![], func: None, local: krate.is_local, shim, unsafe_: false, krate: krate.name.to_string(), output: None });
        let mut targs = vec![];
        for a in &i.args().0 { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t)); } }
        self.prog.callees[id].args = targs;
        if let Some(sig) = i.ty().kind().fn_sig() { self.prog.callees[id].unsafe_ = sig.skip_binder().safety == mir::Safety::Unsafe; }
        let out = i.ty().kind().fn_sig().map(|s| s.skip_binder().output());
        if let Some(o) = out { if o.kind().rigid().is_some() { let o = self.ty(o); self.prog.callees[id].output = Some(o); } }
        let drop_glue = shim && path.contains("drop_in_place");
        let intr = matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. });
        let want = !drop_glue && !intr && !(self.modelled)(&path) && (krate.is_local || krate.name == "objmodels" || shim || (self.inline)(&path));
        if want { self.queue.push_back((id, i)); }
        if let InstanceKind::Virtual { .. } = i.kind {
            let me = i.args().0.iter().find_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None });
            if let Some(t) = me.and_then(principal) { self.virtuals.push((id, t, i)); }
        }
        id
    }

    /// The methods of trait objects, for the types that are seen as such.
    fn dispatch(&mut self) {
        let (vs, ds) = (self.virtuals.clone(), self.dyns.clone());
        for (cid, t, i) in &vs {
            for (d, ty) in &ds {
                if d != t { continue; }
                let me = self.ty(*ty);
                if self.prog.dispatch.contains_key(&(*cid, me)) { continue; }
                let mut first = true;
                let args: Vec<GenericArgKind> = i.args().0.iter().map(|a| match a { GenericArgKind::Type(_) if first => { first = false; GenericArgKind::Type(*ty) } a => a.clone() }).collect();
                let def = i.ty().kind();
                let Some(RigidTy::FnDef(f, _)) = def.rigid() else { continue };
                let f = f.clone();
                if let Ok(Ok(j)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(f, &ty::GenericArgs(args)))) {
                    let c = self.callee(j);
                    self.prog.dispatch.insert((*cid, me), c);
                }
            }
        }
    }

    pub fn run(&mut self) {
        loop {
            while let Some((cid, inst)) = self.queue.pop_front() {
                let Some(body) = inst.body() else { continue };
                let f = self.body(cid, &body);
                let fid = self.prog.funcs.len();
                self.prog.funcs.push(f);
                self.prog.callees[cid].func = Some(fid);
            }
            self.dispatch();
            if self.queue.is_empty() { break; }
        }
        // types that hold cells
        loop {
            let c = &self.prog.cells;
            let more: Vec<TyId> = (0..self.prog.tys.len()).filter(|t| !c.contains(t) && match &self.prog.tys[*t].kind {
                TyKind::Adt { path, args, variants, .. } => match path.as_str() {
                    "std::cell::Cell" | "std::cell::RefCell" => true,
                    "std::vec::Vec" | "std::boxed::Box" => args.iter().any(|a| c.contains(a)),
                    _ => variants.iter().any(|v| v.fields.iter().any(|f| c.contains(&f.1))),
                },
                TyKind::Tuple(v) => v.iter().any(|t| c.contains(t)),
                TyKind::Array(t, _) | TyKind::Slice(t) => c.contains(t),
                _ => false,
            }).collect();
            if more.is_empty() { break; }
            self.prog.cells.extend(more);
        }
    }

    fn body(&mut self, cid: CalleeId, b: &mir::Body) -> Func {
        let locals: Vec<TyId> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local, v.name.to_string()); }
            }
        }
        let mut blocks = vec![];
        let mut raw = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line as u32;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p2 = self.place(p);
                        let is_raw = |p: &mir::Place| matches!(p.projection.first(), Some(ProjectionElem::Deref)) && matches!(b.locals()[p.local].ty.kind().rigid(), Some(RigidTy::RawPtr(..)));
                        if is_raw(p) || match r { Rvalue::Use(mir::Operand::Copy(q) | mir::Operand::Move(q), ..) | Rvalue::Ref(_, _, q) | Rvalue::Len(q) | Rvalue::Discriminant(q) => is_raw(q), _ => false } { raw.push(line); }
                        let r2 = self.rvalue(r, b.locals());
                        st.push((St::Assign(p2, r2), line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p2 = self.place(place);
                        st.push((St::SetDiscr(p2, idx(*variant_index)), line));
                    }
                    StatementKind::StorageDead(l) => st.push((St::Dead(*l), line)),
                    StatementKind::StorageLive(l) => st.push((St::Live(*l), line)),
                    _ => {}
                }
            }
            let tm_line = bb.terminator.source_info.span.get_lines().start_line as u32;
            let tm = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Tm::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    Tm::Switch(o, targets.branches().collect(), targets.otherwise())
                }
                TerminatorKind::Resume | TerminatorKind::Abort => Tm::Resume,
                TerminatorKind::Return => Tm::Return,
                TerminatorKind::Unreachable => Tm::Unreachable,
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); Tm::Drop(p, *target) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).ok();
                    let callee = fty.and_then(|t| match t.kind().rigid() {
                        Some(RigidTy::FnDef(d, a)) => Instance::resolve(*d, a).ok().map(|i| self.callee(i)),
                        _ => None,
                    });
                    let func = self.op(func);
                    let args = args.iter().map(|a| self.op(a)).collect();
                    let dest = self.place(destination);
                    Tm::Call { callee, func, args, dest, target: *target }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let cond = self.op(cond);
                    let m = match msg {
                        mir::AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        mir::AssertMessage::Overflow(o, ..) => format!("overflow in {:?}", o),
                        mir::AssertMessage::OverflowNeg(_) => "overflow in negation".to_string(),
                        mir::AssertMessage::DivisionByZero(_) => "division by zero".to_string(),
                        mir::AssertMessage::RemainderByZero(_) => "remainder by zero".to_string(),
                        other => format!("{:?}", other).split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string(),
                    };
                    Tm::Assert { cond, expected: *expected, msg: m, target: *target }
                }
                TerminatorKind::InlineAsm { .. } => Tm::Other("inline asm".into()),
            };
            blocks.push(Block { st, tm, tm_line, loop_head: false, live_in: vec![] });
        }
        let lines = b.span.get_lines();
        let callee = &self.prog.callees[cid];
        let mut f = Func {
            name: callee.full.clone(),
            file: b.span.get_filename().to_string(),
            line: lines.start_line as u32,
            argc: b.arg_locals().len(),
            spread: b.spread_arg(),
            locals,
            names,
            blocks,
            local: callee.local,
            callee: cid,
            closure: callee.path.ends_with('}') && callee.path.contains("{closure#") && !callee.shim,
            raw,
        };
        mark_loops(&mut f);
        liveness(&mut f);
        f
    }

    fn place(&mut self, p: &mir::Place) -> Place {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => Proj::Deref,
                ProjectionElem::Field(i, t) => Proj::Field(*i, self.ty(*t)),
                ProjectionElem::Index(l) => Proj::Index(*l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => Proj::ConstIndex { offset: *offset, from_end: *from_end },
                ProjectionElem::Subslice { from, to, from_end } => Proj::Subslice { from: *from, to: *to, from_end: *from_end },
                ProjectionElem::Downcast(v) => Proj::Downcast(idx(*v)),
                ProjectionElem::OpaqueCast(_) => continue,
            });
        }
        Place { local: p.local, proj }
    }

    fn op(&mut self, o: &Operand) -> Op {
        match o {
            Operand::Copy(p) => Op::Copy(self.place(p)),
            Operand::Move(p) => Op::Move(self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
                    ConstantKind::ZeroSized => self.zst(t),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        ty::TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                        ty::TyConstKind::ZSTValue(t) => self.zst(*t),
                        _ => CVal::Opaque("tyconst".into()),
                    },
                    _ => CVal::Opaque("unevaluated".into()),
                };
                Op::Const(Rc::new(v), ti)
            }
            Operand::RuntimeChecks(k) => {
                let v = matches!(k, mir::RuntimeChecks::OverflowChecks);
                let bt = self.ty(Ty::bool_ty());
                Op::Const(Rc::new(CVal::Bool(v)), bt)
            }
        }
    }

    fn zst(&mut self, t: Ty) -> CVal {
        match t.kind().rigid() {
            Some(RigidTy::FnDef(d, a)) => match Instance::resolve(*d, a) {
                Ok(i) => CVal::Fn(self.callee(i)),
                Err(_) => CVal::Opaque("fn".into()),
            },
            Some(RigidTy::Tuple(ts)) => { let v = ts.clone().iter().map(|t| self.zst(*t)).collect(); CVal::Agg(0, v) }
            Some(RigidTy::Adt(d, args)) if d.kind() == ty::AdtKind::Struct => {
                let vs = d.variants();
                let fs = vs[0].fields();
                let v = fs.iter().map(|f| { let t = f.ty_with_args(args); self.zst(t) }).collect();
                CVal::Agg(0, v)
            }
            Some(RigidTy::Array(..)) => CVal::Array(vec![]),
            _ => CVal::Zst,
        }
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> CVal {
        self.try_decode(a, off, t, depth).unwrap_or_else(|| CVal::Opaque(format!("{}", t)))
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> { a.read_partial_uint(off..off + n).ok() }

    fn ptr(a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let (_, p) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        let addend = Self::uint(a, off, 8)? as usize;
        Some((GlobalAlloc::from(p.0), addend))
    }

    fn try_decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<CVal> {
        if depth > 12 { return None; }
        let k = t.kind();
        Some(match k.rigid()? {
            RigidTy::Bool => CVal::Bool(Self::uint(a, off, 1)? != 0),
            RigidTy::Char => CVal::Char(Self::uint(a, off, 4)? as u32),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = Self::uint(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                CVal::Int(((v << sh) as i128) >> sh)
            }
            RigidTy::Uint(i) => CVal::Int(Self::uint(a, off, i.num_bytes())? as i128),
            RigidTy::Float(f) => match f {
                ty::FloatTy::F64 => CVal::Float(Self::uint(a, off, 8)? as u64),
                ty::FloatTy::F32 => CVal::Float((f32::from_bits(Self::uint(a, off, 4)? as u32) as f64).to_bits()),
                _ => return None,
            },
            RigidTy::Tuple(ts) => {
                let shape = t.layout().ok()?.shape();
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return if ts.is_empty() { Some(CVal::Agg(0, vec![])) } else { None };
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.decode(a, off + offsets[i].bytes(), *ft, depth + 1)); }
                CVal::Agg(0, v)
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()?;
                if matches!(e.kind().rigid(), Some(RigidTy::Uint(ty::UintTy::U8))) {
                    let mut v = vec![];
                    for i in 0..n as usize { v.push(Self::uint(a, off + i, 1)? as u8); }
                    return Some(CVal::Bytes(v.into()));
                }
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n as usize { v.push(self.decode(a, off + i * sz, *e, depth + 1)); }
                CVal::Array(v)
            }
            RigidTy::RawPtr(inner, _) | RigidTy::Ref(_, inner, _) => {
                let ik = inner.kind();
                let (ga, addend) = match Self::ptr(a, off) {
                    Some(x) => x,
                    None => {
                        // dangling reference to a ZST or an empty slice
                        return Some(match ik.rigid()? {
                            RigidTy::Str => CVal::Str("".into()),
                            RigidTy::Slice(_) => CVal::Ref(Box::new(CVal::Array(vec![]))),
                            _ => CVal::Ref(Box::new(self.zst(*inner))),
                        });
                    }
                };
                match ga {
                    GlobalAlloc::Memory(m) => match ik.rigid()? {
                        RigidTy::Str => {
                            let n = Self::uint(a, off + 8, 8)? as usize;
                            let mut v = vec![];
                            for i in 0..n { v.push(Self::uint(&m, addend + i, 1)? as u8); }
                            CVal::Str(String::from_utf8(v).ok()?.into())
                        }
                        RigidTy::Slice(e) => {
                            let n = Self::uint(a, off + 8, 8)? as usize;
                            if matches!(e.kind().rigid(), Some(RigidTy::Uint(ty::UintTy::U8))) {
                                let mut v = vec![];
                                for i in 0..n { v.push(Self::uint(&m, addend + i, 1)? as u8); }
                                CVal::Ref(Box::new(CVal::Bytes(v.into())))
                            } else {
                                let sz = e.layout().ok()?.shape().size.bytes();
                                let mut v = vec![];
                                for i in 0..n { v.push(self.decode(&m, addend + i * sz, *e, depth + 1)); }
                                CVal::Ref(Box::new(CVal::Array(v)))
                            }
                        }
                        _ => CVal::Ref(Box::new(self.decode(&m, addend, *inner, depth + 1))),
                    },
                    GlobalAlloc::Static(s) => {
                        // what an immutable static without interior mutability holds
                        if let Ok(m) = s.eval_initializer() {
                            if m.mutability == mir::Mutability::Not { return Some(match ik.rigid()? { RigidTy::Str | RigidTy::Slice(_) => CVal::Opaque(format!("data of static {}", s.name())), _ => CVal::Ref(Box::new(self.decode(&m, addend, *inner, depth + 1))) }); }
                        }
                        CVal::Opaque(format!("static {}: {}", s.name(), s.ty()))
                    }
                    GlobalAlloc::Function(i) => CVal::Fn(self.callee(i)),
                    _ => return None,
                }
            }
            RigidTy::FnPtr(_) => match Self::ptr(a, off)?.0 {
                GlobalAlloc::Function(i) => CVal::Fn(self.callee(i)),
                _ => return None,
            },
            RigidTy::FnDef(..) => self.zst(t),
            RigidTy::Adt(def, args) => {
                let p = def.name().to_string();
                if p == "std::vec::Vec" || p == "alloc::vec::Vec" { return Some(CVal::EmptyVec); }
                if p == "std::string::String" || p == "alloc::string::String" { return Some(CVal::EmptyString); }
                let shape = t.layout().ok()?.shape();
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => match &shape.fields {
                        FieldsShape::Arbitrary { offsets } => (idx(*index), offsets.iter().map(|o| o.bytes()).collect()),
                        _ => (idx(*index), vec![]),
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => match length {
                                    rustc_public::abi::IntegerLength::I8 => 1,
                                    rustc_public::abi::IntegerLength::I16 => 2,
                                    rustc_public::abi::IntegerLength::I32 => 4,
                                    rustc_public::abi::IntegerLength::I64 => 8,
                                    rustc_public::abi::IntegerLength::I128 => 16,
                                },
                                rustc_public::abi::Primitive::Pointer(_) => 8,
                                _ => return None,
                            },
                        };
                        let has_ptr = Self::ptr(a, toff).is_some();
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let v = Self::uint(a, toff, tsz)?;
                                let mut f = None;
                                for vd in def.variants_iter() {
                                    let d = def.discriminant_for_variant(vd.idx()).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if d & mask == v & mask { f = Some(idx(vd.idx())); }
                                }
                                f?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr { idx(*untagged_variant) } else {
                                    let v = Self::uint(a, toff, tsz)?;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & mask;
                                    let (s, e) = (idx(*niche_variants.start()), idx(*niche_variants.end()));
                                    if rel <= (e - s) as u128 { s + rel as usize } else { idx(*untagged_variant) }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return None,
                };
                let vs = def.variants();
                let mut v = vec![];
                for (i, f) in vs[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(args);
                    v.push(self.decode(a, off + *offs.get(i)?, ft, depth + 1));
                }
                CVal::Agg(vi as u32, v)
            }
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, _locals: &[mir::LocalDecl]) -> Rv {
        match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(o)),
            Rvalue::CopyForDeref(p) => { let p = self.place(p); Rv::Use(Op::Copy(p)) }
            Rvalue::Ref(_, k, p) => { let m = !matches!(k, mir::BorrowKind::Shared); let p = self.place(p); Rv::Ref(p, m) }
            Rvalue::AddressOf(_, p) => { let p = self.place(p); Rv::Ref(p, true) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); Rv::Use(Op::Copy(p)) }
            Rvalue::BinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); Rv::Bin(bin(*b), x, y, false) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); Rv::Bin(bin(*b), x, y, true) }
            Rvalue::UnaryOp(u, x) => {
                let x = self.op(x);
                Rv::Un(match u { mir::UnOp::Not => Un::Not, mir::UnOp::Neg => Un::Neg, mir::UnOp::PtrMetadata => Un::Meta }, x)
            }
            Rvalue::Cast(k, o, t) if matches!(k, mir::CastKind::PointerCoercion(mir::PointerCoercion::Unsize)) && pointee(*t).and_then(principal).is_some()
                && o.ty(_locals).ok().and_then(pointee).is_some_and(|s| principal(s).is_none()) => {
                let (s, d) = (o.ty(_locals).ok().and_then(pointee).unwrap(), pointee(*t).and_then(principal).unwrap());
                if !self.dyns.contains(&(d, s)) { self.dyns.push((d, s)); }
                let s = self.ty(s);
                Rv::Dyn(self.op(o), s)
            }
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); Rv::Cast(format!("{:?}", k), o, t) }
            Rvalue::Discriminant(p) => Rv::Discr(self.place(p)),
            Rvalue::Len(p) => Rv::Len(self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops2 = ops.iter().map(|o| self.op(o)).collect();
                let t = r.ty(_locals).ok();
                let ti = match t { Some(t) => self.ty(t), None => 0 };
                let k2 = match k {
                    AggregateKind::Array(_) => AggK::Array,
                    AggregateKind::Tuple => AggK::Tuple,
                    AggregateKind::Adt(_, v, ..) => AggK::Adt(idx(*v)),
                    AggregateKind::Closure(d, a) => {
                        match Instance::resolve_closure(*d, a, ty::ClosureKind::FnOnce) {
                            Ok(i) => AggK::Closure(self.callee(i)),
                            Err(_) => AggK::Other,
                        }
                    }
                    _ => AggK::Other,
                };
                Rv::Agg(k2, ops2, ti)
            }
            Rvalue::Repeat(o, n) => { let o = self.op(o); Rv::Repeat(o, n.eval_target_usize().unwrap_or(0)) }
            Rvalue::ThreadLocalRef(i) => Rv::Other(format!("thread local {}", i.name())),
        }
    }
}

fn bin(b: mir::BinOp) -> Bin {
    use mir::BinOp::*;
    match b {
        Add | AddUnchecked => Bin::Add, Sub | SubUnchecked => Bin::Sub, Mul | MulUnchecked => Bin::Mul, Div => Bin::Div, Rem => Bin::Rem,
        BitXor => Bin::Xor, BitAnd => Bin::And, BitOr => Bin::Or, Shl | ShlUnchecked => Bin::Shl, Shr | ShrUnchecked => Bin::Shr,
        Eq => Bin::Eq, Lt => Bin::Lt, Le => Bin::Le, Ne => Bin::Ne, Ge => Bin::Ge, Gt => Bin::Gt, Cmp => Bin::Cmp, Offset => Bin::Offset,
    }
}

pub fn succs(b: &Block) -> Vec<usize> {
    match &b.tm {
        Tm::Goto(t) => vec![*t],
        Tm::Switch(_, v, o) => { let mut r: Vec<usize> = v.iter().map(|x| x.1).collect(); r.push(*o); r }
        Tm::Drop(_, t) => vec![*t],
        Tm::Call { target, .. } => target.iter().copied().collect(),
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn mark_loops(f: &mut Func) {
    // DFS back edges
    let n = f.blocks.len();
    let mut color = vec![0u8; n];
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![(0, succs(&f.blocks[0]), 0)];
    color[0] = 1;
    let mut heads = HashSet::new();
    while let Some((b, ss, i)) = stack.pop() {
        if i < ss.len() {
            let s = ss[i];
            stack.push((b, ss, i + 1));
            if color[s] == 0 { color[s] = 1; let q = succs(&f.blocks[s]); stack.push((s, q, 0)); }
            else if color[s] == 1 { heads.insert(s); }
        } else { color[b] = 2; }
    }
    for h in heads { f.blocks[h].loop_head = true; }
}

fn use_place(p: &Place, uses: &mut Vec<usize>) {
    uses.push(p.local);
    for e in &p.proj { if let Proj::Index(l) = e { uses.push(*l); } }
}
fn use_op(o: &Op, uses: &mut Vec<usize>) {
    match o { Op::Copy(p) | Op::Move(p) => use_place(p, uses), _ => {} }
}

/// Backward liveness of locals; a local whose address is taken stays live until its storage ends.
fn liveness(f: &mut Func) {
    let nl = f.locals.len();
    let mut addr = vec![false; nl];
    for b in &f.blocks {
        for (s, _) in &b.st {
            if let St::Assign(_, Rv::Ref(p, _)) = s { if !matches!(p.proj.first(), Some(Proj::Deref)) { addr[p.local] = true; } }
        }
    }
    let n = f.blocks.len();
    // forward: may the storage of an address-taken local hold something?
    let mut held: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    for l in 1..=f.argc { held[0][l] = true; }
    let mut changed = true;
    while changed {
        changed = false;
        for b in 0..n {
            let mut cur = held[b].clone();
            for (s, _) in &f.blocks[b].st {
                match s {
                    St::Assign(p, _) => cur[p.local] = true,
                    St::SetDiscr(p, _) => cur[p.local] = true,
                    St::Dead(l) | St::Live(l) => cur[*l] = false,
                }
            }
            if let Tm::Call { dest, .. } = &f.blocks[b].tm { cur[dest.local] = true; }
            for s in succs(&f.blocks[b]) {
                for l in 0..nl { if cur[l] && !held[s][l] { held[s][l] = true; changed = true; } }
            }
        }
    }
    let mut live: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut cur = vec![false; nl];
            for s in succs(&f.blocks[b]) { for l in 0..nl { cur[l] |= live[s][l]; } }
            let blk = &f.blocks[b];
            let mut uses = vec![];
            match &blk.tm {
                Tm::Switch(o, ..) => use_op(o, &mut uses),
                Tm::Return => uses.push(0),
                Tm::Drop(..) => {}
                Tm::Call { func, args, dest, .. } => {
                    if dest.proj.is_empty() { cur[dest.local] = false; } else { use_place(dest, &mut uses); }
                    use_op(func, &mut uses);
                    for a in args { use_op(a, &mut uses); }
                }
                Tm::Assert { cond, .. } => use_op(cond, &mut uses),
                _ => {}
            }
            for u in uses { cur[u] = true; }
            for (s, _) in blk.st.iter().rev() {
                let mut uses = vec![];
                match s {
                    St::Assign(p, r) => {
                        if p.proj.is_empty() { cur[p.local] = false; } else { use_place(p, &mut uses); }
                        match r {
                            Rv::Use(o) | Rv::Un(_, o) | Rv::Cast(_, o, _) | Rv::Dyn(o, _) | Rv::Repeat(o, _) => use_op(o, &mut uses),
                            Rv::Ref(p, _) | Rv::Discr(p) | Rv::Len(p) => use_place(p, &mut uses),
                            Rv::Bin(_, a, b, _) => { use_op(a, &mut uses); use_op(b, &mut uses); }
                            Rv::Agg(_, v, _) => for o in v { use_op(o, &mut uses); },
                            Rv::Other(_) => {}
                        }
                    }
                    St::SetDiscr(p, _) => use_place(p, &mut uses),
                    St::Dead(l) | St::Live(l) => cur[*l] = false,
                }
                for u in uses { cur[u] = true; }
            }
            if cur != live[b] { live[b] = cur; changed = true; }
        }
    }
    for b in 0..n {
        f.blocks[b].live_in = (0..nl).map(|l| live[b][l] || (addr[l] && held[b][l])).collect();
    }
}
