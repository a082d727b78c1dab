//! The intermediate representation that the analyses work on: a monomorphic,
//! constant-evaluated copy of the MIR of everything reachable from the roots.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = usize;
pub type FnId = usize;

#[derive(Clone, Debug)]
pub struct VariantInfo {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, TyId)>,
}

#[derive(Clone, Debug)]
pub enum TyKind {
    Int { signed: bool, bits: u32 },
    Bool,
    Char,
    Float,
    Str,
    Adt { path: String, args: Vec<TyId>, variants: Vec<VariantInfo>, is_enum: bool, local: bool },
    Tuple(Vec<TyId>),
    Array(TyId, u64),
    Slice(TyId),
    Ref(TyId, bool),
    RawPtr(TyId),
    FnDef(CalleeId),
    FnPtr,
    Closure(String),
    Never,
    Other,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub name: String,
    pub kind: TyKind,
}

pub type CalleeId = usize;

/// A statically resolved callee.
#[derive(Clone, Debug)]
pub struct Callee {
    /// Path of the definition, without generic arguments instantiated.
    pub path: String,
    /// Fully instantiated name.
    pub full: String,
    pub args: Vec<TyId>,
    /// The lowered function, if the body is part of the program.
    pub func: Option<FnId>,
    pub local: bool,
    pub shim: bool,
    /// calling it is an unsafe operation
    pub unsafe_: bool,
    /// Where it is defined (crate name)
    pub krate: String,
    pub output: Option<TyId>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CVal {
    Int(i128),
    Bool(bool),
    Char(u32),
    Float(u64),
    Str(Rc<str>),
    Bytes(Rc<[u8]>),
    Agg(u32, Vec<CVal>),
    Array(Vec<CVal>),
    Ref(Box<CVal>),
    Fn(CalleeId),
    Zst,
    EmptyVec,
    EmptyString,
    Opaque(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Proj {
    Deref,
    Field(usize, TyId),
    Index(usize),
    ConstIndex { offset: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Place {
    pub local: usize,
    pub proj: Vec<Proj>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(Rc<CVal>, TyId),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add, Sub, Mul, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset,
}

#[derive(Clone, Debug)]
pub enum AggK {
    Array,
    Tuple,
    Adt(usize),
    Closure(CalleeId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Ref(Place, bool),
    Bin(Bin, Op, Op, bool),
    Un(Un, Op),
    Cast(String, Op, TyId),
    /// a reference (or box) to a value of the type, seen as one to a trait object
    Dyn(Op, TyId),
    Discr(Place),
    Len(Place),
    Agg(AggK, Vec<Op>, TyId),
    Repeat(Op, u64),
    Other(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un { Not, Neg, Meta }

#[derive(Clone, Debug)]
pub enum St {
    Assign(Place, Rv),
    SetDiscr(Place, usize),
    Dead(usize),
    Live(usize),
}

#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Op, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Drop(Place, usize),
    Call { callee: Option<CalleeId>, func: Op, args: Vec<Op>, dest: Place, target: Option<usize> },
    Assert { cond: Op, expected: bool, msg: String, target: usize },
    Resume,
    Other(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub st: Vec<(St, u32)>,
    pub tm: Tm,
    pub tm_line: u32,
    pub loop_head: bool,
    /// locals whose value may still be used from the start of this block on
    pub live_in: Vec<bool>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub file: String,
    pub line: u32,
    pub argc: usize,
    pub spread: Option<usize>,
    pub locals: Vec<TyId>,
    pub names: HashMap<usize, String>,
    pub blocks: Vec<Block>,
    pub local: bool,
    pub callee: CalleeId,
    /// the body of a closure
    pub closure: bool,
    /// uses of raw pointers (lines)
    pub raw: Vec<u32>,
}

#[derive(Default)]
pub struct Program {
    pub tys: Vec<TyInfo>,
    pub callees: Vec<Callee>,
    pub funcs: Vec<Func>,
    /// every function definition of the crate: (path, is_public_api, callee if lowered)
    pub roots: Vec<(String, CalleeId)>,
    pub defs: Vec<(String, String, u32)>,
    pub statics: Vec<String>,
    /// types whose values hold cells: what a shared reference to one refers to can change
    pub cells: std::collections::HashSet<TyId>,
    /// the types of what is inside a box
    pub boxraw: std::collections::HashSet<TyId>,
    /// methods of trait objects: the method and the type behind it -> the function
    pub dispatch: std::collections::HashMap<(CalleeId, TyId), CalleeId>,
}

/// The tag of a value (or of a reference) behind a trait object: its type, itself.
pub const DYN: u32 = u32::MAX - 7;


impl Program {
    pub fn ty_name(&self, t: TyId) -> &str { &self.tys[t].name }
    pub fn adt(&self, t: TyId) -> Option<(&str, &Vec<VariantInfo>)> {
        match &self.tys[t].kind {
            TyKind::Adt { path, variants, .. } => Some((path, variants)),
            _ => None,
        }
    }
    pub fn find_adt(&self, path: &str) -> Option<TyId> {
        self.tys.iter().position(|t| matches!(&t.kind, TyKind::Adt { path: p, .. } if p == path))
    }
    pub fn int_bounds(&self, t: TyId) -> Option<(i128, i128)> {
        match self.tys[t].kind {
            TyKind::Int { signed, bits } => Some(if signed {
                if bits >= 127 { (i128::MIN / 4, i128::MAX / 4) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
            } else if bits >= 127 { (0, i128::MAX / 4) } else { (0, (1i128 << bits) - 1) }),
            TyKind::Char => Some((0, 0x10ffff)),
            _ => None,
        }
    }
}
