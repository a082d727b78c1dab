//! Abstract values, abstract states, and the decisions (with case splits) on them.
use crate::ir::*;
use crate::lin::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type StrId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Piece {
    Lit(Rc<str>),
    /// a whole token or a part of one
    Tok(StrId),
    /// decimal rendering of an integer
    Int(Lin),
    /// rendering of a float
    Flt(Fl),
    /// some string, known only by name (introduced by joins)
    Name(Atom),
    /// what `Display` writes for a value of the named type
    Disp(TyId, Rc<V>),
    /// the part of the text between two positions
    Sub(Lin, Lin),
    /// the same with formatting options
    Fmt(crate::fmtspec::Spec, Rc<Vec<Piece>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Fl {
    C(u64),
    /// `str::parse` of a token
    Parse(StrId),
    Name(Atom),
    Op(Rc<(Bin, Fl, Fl)>),
    Neg(Rc<Fl>),
    /// rounded to single precision
    R32(Rc<Fl>),
    /// a function of floats, by name
    F(&'static str, Rc<Vec<Fl>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(u32),
    E(Lin),
    /// part of a sequence, from one position to another
    R(Lin, Lin),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Loc { pub depth: usize, pub local: usize, pub path: Vec<PE> }
impl Loc {
    /// Element number `i` of what is here.
    pub fn at(&mut self, i: Lin) {
        match self.path.pop() {
            Some(PE::R(lo, _)) => self.path.push(PE::E(lo.add(&i))),
            Some(p) => { self.path.push(p); self.path.push(PE::E(i)) }
            None => self.path.push(PE::E(i)),
        }
    }
    /// Elements `a` to `b` of what is here.
    pub fn part(&mut self, a: Lin, b: Lin) {
        match self.path.pop() {
            Some(PE::R(lo, _)) => self.path.push(PE::R(lo.add(&a), lo.add(&b))),
            Some(p) => { self.path.push(p); self.path.push(PE::R(a, b)) }
            None => self.path.push(PE::R(a, b)),
        }
    }
}

/// The variable of a comprehension.
pub const BV: Atom = 0;
/// The run of bytes that is the text.
pub const TEXT: Atom = u32::MAX - 7;

/// A set of bytes.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct BSet(pub [u64; 4]);
impl BSet {
    pub const ALL: BSet = BSet([u64::MAX; 4]);
    pub fn of(f: impl Fn(u8) -> bool) -> BSet { let mut s = BSet([0; 4]); for b in 0..=255u8 { if f(b) { s.0[(b >> 6) as usize] |= 1 << (b & 63); } } s }
    pub fn has(&self, b: u8) -> bool { self.0[(b >> 6) as usize] >> (b & 63) & 1 == 1 }
    pub fn and(&self, o: &BSet) -> BSet { BSet([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) }
    pub fn or(&self, o: &BSet) -> BSet { BSet([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) }
    pub fn minus(&self, o: &BSet) -> BSet { BSet([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]]) }
    pub fn empty(&self) -> bool { self.0 == [0; 4] }
    pub fn iter(&self) -> impl Iterator<Item = u8> + '_ { (0..=255u8).filter(|b| self.has(*b)) }
    pub fn filter(&self, f: impl Fn(u8) -> bool) -> BSet { self.and(&BSet::of(f)) }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    El(V),
    /// `body` for BV in lo..hi
    Comp { lo: Lin, hi: Lin, body: V },
    /// a run of elements known only by name; `form` is what is known of each element
    Base { id: Atom, len: Lin, form: V },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Seq { pub elem: TyId, pub segs: Vec<Seg> }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Undef,
    Top,
    Int(Lin),
    Bool(bool),
    Float(Fl),
    S(Rc<Vec<Piece>>),
    Agg(u32, Rc<Vec<V>>),
    /// shared reference: holds (a snapshot of) what it refers to
    CRef(Rc<V>),
    MRef(Rc<Loc>),
    Seq(Rc<Seq>),
    Fn(CalleeId),
    /// element number `.1` of the run named `.0`, of form `.2`
    Sel(Atom, Lin, Rc<V>),
}

impl V {
    pub fn int(i: i128) -> V { V::Int(Lin::k(i)) }
    pub fn unit() -> V { V::Agg(0, Rc::new(vec![])) }
    pub fn agg(v: u32, f: Vec<V>) -> V { V::Agg(v, Rc::new(f)) }
    pub fn lit(s: &str) -> V { V::S(Rc::new(if s.is_empty() { vec![] } else { vec![Piece::Lit(s.into())] })) }
    pub fn tok(t: StrId) -> V { V::S(Rc::new(vec![Piece::Tok(t)])) }
    /// as a value of the type, if that is the single precision float
    pub fn single(self, cx: &Cx, t: TyId) -> V { match self { V::Float(x) if cx.prog.tys[t].name == "f32" => V::Float(crate::interp::single(x)), v => v } }
    pub fn cref(v: V) -> V { V::CRef(Rc::new(v)) }
    pub fn none() -> V { V::agg(0, vec![]) }
    pub fn some(v: V) -> V { V::agg(1, vec![v]) }
    pub fn ok(v: V) -> V { V::agg(0, vec![v]) }
    pub fn err(v: V) -> V { V::agg(1, vec![v]) }
    pub fn seq(elem: TyId, segs: Vec<Seg>) -> V { V::Seq(Rc::new(Seq { elem, segs })) }
    pub fn fields(&self) -> Option<&Vec<V>> { if let V::Agg(_, f) = self { Some(f) } else { None } }
    pub fn lin(&self) -> Option<&Lin> { if let V::Int(l) = self { Some(l) } else { None } }
    pub fn has_top(&self) -> bool {
        match self {
            V::Top => true,
            V::Agg(_, f) => f.iter().any(|x| x.has_top()),
            V::CRef(v) => v.has_top(),
            V::Seq(s) => s.segs.iter().any(|g| match g { Seg::El(v) | Seg::Comp { body: v, .. } => v.has_top(), _ => false }),
            _ => false,
        }
    }
    pub fn map_lins(&self, f: &mut dyn FnMut(&Lin) -> Lin) -> V {
        match self {
            V::Int(l) => V::Int(f(l)),
            V::Agg(k, v) => V::Agg(*k, Rc::new(v.iter().map(|x| x.map_lins(f)).collect())),
            V::CRef(v) => V::cref(v.map_lins(f)),
            V::Seq(s) => V::Seq(Rc::new(Seq { elem: s.elem, segs: s.segs.iter().map(|g| match g {
                Seg::El(v) => Seg::El(v.map_lins(f)),
                // the body of a nested comprehension has its own variable
                Seg::Comp { lo, hi, body } => Seg::Comp { lo: f(lo), hi: f(hi), body: body.clone() },
                Seg::Base { id, len, form } => Seg::Base { id: *id, len: f(len), form: form.clone() },
            }).collect() })),
            V::Sel(a, l, fm) => V::Sel(*a, f(l), fm.clone()),
            V::MRef(l) => V::MRef(Rc::new(Loc { depth: l.depth, local: l.local, path: l.path.iter().map(|p| match p { PE::E(x) => PE::E(f(x)), PE::R(x, y) => { let x = f(x); PE::R(x, f(y)) } p => p.clone() }).collect() })),
            _ => self.clone(),
        }
    }
    /// The value of a comprehension body at position `at`.
    pub fn at(&self, at: &Lin) -> V {
        self.map_lins(&mut |l| l.subst(&mut |a| if a == BV { Some(at.clone()) } else { None }))
    }
}

impl Seg {
    pub fn len(&self) -> Lin {
        match self {
            Seg::El(_) => Lin::k(1),
            Seg::Comp { lo, hi, .. } => hi.sub(lo),
            Seg::Base { len, .. } => len.clone(),
        }
    }
}
impl Seq {
    pub fn len(&self) -> Lin { let mut l = Lin::k(0); for s in &self.segs { l = l.add(&s.len()); } l }
    pub fn norm(self) -> Seq {
        let mut out: Vec<Seg> = Vec::with_capacity(self.segs.len());
        for s in self.segs {
            match s {
                Seg::Comp { lo, hi, body } => {
                    if let Some(n) = hi.sub(&lo).is_const() {
                        if n <= 0 { continue; }
                        if n <= 8 { for i in 0..n { push_norm(&mut out, Seg::El(body.at(&lo.addk(i)))); } continue; }
                    }
                    push_norm(&mut out, Seg::Comp { lo, hi, body });
                }
                Seg::Base { len, .. } if len.is_const() == Some(0) => {}
                s => push_norm(&mut out, s),
            }
        }
        Seq { elem: self.elem, segs: out }
    }
}
pub fn push_norm(out: &mut Vec<Seg>, s: Seg) {
    match (&s, out.last_mut()) {
        (Seg::El(v), Some(Seg::Comp { hi, body, .. })) => if body.at(hi) == *v { *hi = hi.addk(1); return; },
        (Seg::Comp { lo, hi: h2, body: b2 }, Some(Seg::Comp { hi, body, .. })) => if hi == lo && body == b2 { *hi = h2.clone(); return; },
        _ => {}
    }
    if let Seg::Comp { lo, hi, body } = &s {
        // single elements before it that follow the same pattern
        let mut k = 0;
        while let Some(Seg::El(v)) = out.last() { if *v == body.at(&lo.addk(-k - 1)) { out.pop(); k += 1; } else { break; } }
        if k > 0 { push_norm(out, Seg::Comp { lo: lo.addk(-k), hi: hi.clone(), body: body.clone() }); return; }
    }
    out.push(s);
}

// ---- facts about strings ---------------------------------------------------
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct SFact {
    pub lit: Option<Rc<str>>,
    pub not: Vec<Rc<str>>,
    /// has the syntax of a (signed) integer
    pub int: Option<bool>,
    /// starts with a minus sign (only if `int`)
    pub neg: Option<bool>,
    /// parses as a float
    pub flt: Option<bool>,
    /// value, if `int`
    pub val: Option<Atom>,
    /// pieces between slashes; one piece is the token itself
    pub parts: Option<Vec<StrId>>,
    pub empty: Option<bool>,
    /// order relations with constants that the float value is known to satisfy
    pub fcmp: Vec<(Bin, u64, bool)>,
    /// answers to questions about the spelling
    pub ask: Vec<(crate::strings::Ask, bool)>,
    /// length in bytes, if it has a name
    pub len: Option<Atom>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Con {
    Ge(Lin),
    Is(StrId, Rc<str>),
    Same(StrId, StrId),
    Differ(StrId, StrId),
    Not(StrId, Vec<Rc<str>>),
    IntSyn(StrId, bool, Atom),
    Neg(StrId, bool),
    Flt(StrId, bool),
    Parts(StrId, Vec<StrId>),
    Empty(StrId, bool),
    FCmp(StrId, Bin, u64, bool),
    Ask(StrId, crate::strings::Ask, bool),
    Len(StrId, Atom),
    FCon(Bin, Fl, Fl, bool),
    Fetch(Option<StrId>),
    Taint(&'static str),
    /// the element selected has this form
    Form(Atom, Lin, V),
    Choose(u32),
    /// the byte of the text at this position is one of these
    Byte(Lin, BSet),
    In(Atom, BSet),
    /// p = c*q + r with 0 <= r < c
    Div(Lin, i128, Atom, Atom),
}

/// A decision needs a case split: the alternatives, each a list of constraints.
#[derive(Debug)]
pub struct Fork(pub Vec<Vec<Con>>, pub &'static str);
pub type Dec<T> = Result<T, Box<Fork>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum StrKind { Tok, Part(StrId) }

/// Things that outlive a single state.
pub struct Cx<'p> {
    pub prog: &'p Program,
    pub natoms: Atom,
    /// atoms that count something the input contains (tokens, elements, steps): below 2^62
    pub count_like: Vec<bool>,
    /// how many words of the input each counts
    pub weight: HashMap<Atom, i128>,
    pub nstrs: StrId,
    pub strs: Vec<StrKind>,
    pub natives: Vec<Option<crate::native::N>>,
    pub notes: BTreeMap<String, usize>,
    pub lp: usize,
    /// what the bytes of the text may be, by position
    /// the names of bytes, by position
    pub byte_atoms: HashMap<Lin, Atom>,
    pub byte_menu: Option<Rc<dyn Fn(&Lin) -> Vec<BSet>>>,
    pub words: Vec<Rc<str>>,
    pub word_cap: usize,
    pub menu: Rc<dyn Fn(&crate::spec::Ghost) -> Vec<crate::spec::Choice>>,
}

impl<'p> Cx<'p> {
    pub fn fresh(&mut self, count: bool) -> Atom {
        let a = self.natoms;
        self.natoms += 1;
        self.count_like.push(count);
        a
    }
    pub fn fresh_str(&mut self, k: StrKind) -> StrId {
        let a = self.nstrs;
        self.nstrs += 1;
        self.strs.push(k);
        a
    }
    pub fn note(&mut self, s: &str) { *self.notes.entry(s.to_string()).or_insert(0) += 1; }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub func: FnId,
    pub bb: usize,
    pub si: usize,
    pub locals: Vec<V>,
    /// where the caller wants the result, and where it continues
    pub dest: Option<(Place, Option<usize>)>,
}

#[derive(Clone, Debug)]
pub struct Trace { pub ev: Ev, pub prev: Option<Rc<Trace>>, pub len: usize, /// the calls under which it was read, outermost first
    pub at: Vec<(FnId, usize)> }
#[derive(Clone, Debug)]
pub enum Ev { Tok(StrId), Eof, /// so many repetitions of these words
    Rep(Rc<Vec<StrId>>, Lin) }

#[derive(Clone, Debug)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub facts: Rc<Vec<Lin>>,
    pub strs: Rc<BTreeMap<StrId, SFact>>,
    /// words known to be the same as another one, and pairs known to differ
    pub alias: Rc<BTreeMap<StrId, StrId>>,
    pub differ: Rc<Vec<(StrId, StrId)>>,
    /// comparisons of floats that came out one way or the other
    pub fcons: Rc<Vec<(Bin, Fl, Fl, bool)>>,
    pub forms: Rc<Vec<(Atom, Lin, V)>>,
    /// quotients and remainders that have names
    pub divs: Rc<Vec<(Lin, i128, Atom, Atom)>>,
    /// the bytes of the text that have been looked at, and what is known of them
    pub bytes: Rc<Vec<(Lin, Atom)>>,
    /// stretches of the text that repeat the same kinds of bytes: from where, how often, what
    pub runs: Rc<Vec<(Lin, Lin, Vec<BSet>)>>,
    pub sets: Rc<BTreeMap<Atom, BSet>>,
    /// state of the reference semantics
    pub ghost: Rc<crate::spec::Ghost>,
    /// the token being delivered
    pub pending: Option<Option<StrId>>,
    /// the request for a token has been taken from the worklist
    pub fetched: bool,
    /// from here on, the shortest way to the end of the input
    pub finishing: bool,
    /// a choice made for re-execution of the current step
    pub choice: Option<u32>,
    pub taint: Option<&'static str>,
    pub trace: Option<Rc<Trace>>,
    pub steps: usize,
}

impl State {
    pub fn new() -> State {
        State { frames: vec![], facts: Rc::new(vec![]), strs: Rc::new(BTreeMap::new()), alias: Rc::new(BTreeMap::new()), differ: Rc::new(vec![]), fcons: Rc::new(vec![]), forms: Rc::new(vec![]), divs: Rc::new(vec![]), bytes: Rc::new(vec![]), runs: Rc::new(vec![]), sets: Rc::new(BTreeMap::new()), ghost: Rc::new(crate::spec::Ghost::None), pending: None, fetched: false, finishing: false, choice: None, taint: None, trace: None, steps: 0 }
    }
    pub fn top(&self) -> &Frame { self.frames.last().unwrap() }
    pub fn top_mut(&mut self) -> &mut Frame { Rc::make_mut(self.frames.last_mut().unwrap()) }
    pub fn taint(&mut self, why: &'static str) { if self.taint.is_none() { self.taint = Some(why); } }

    // ---- linear facts ----
    fn facts_for(&self, cx: &Cx, l: &Lin) -> Vec<Lin> {
        let mut f: Vec<Lin> = (*self.facts).clone();
        let mut at: Vec<Atom> = l.t.iter().map(|x| x.0).collect();
        if l.t.len() > 2 { for a in self.facts.iter().flat_map(|f| f.t.iter().map(|x| x.0)) { if !at.contains(&a) { at.push(a); } } }
        for a in &at { if cx.count_like.get(*a as usize).copied().unwrap_or(false) { f.push(Lin { c: 1 << 62, t: vec![(*a, -cx.weight.get(a).copied().unwrap_or(1))] }); } }
        for (a, _) in &l.t { if let Some(s) = self.sets.get(a) { let (lo, hi) = (s.iter().next().unwrap_or(0), s.iter().last().unwrap_or(0)); f.push(Lin::atom(*a).addk(-(lo as i128))); f.push(Lin::k(hi as i128).sub(&Lin::atom(*a))); } }
        f
    }
    pub fn entails(&self, cx: &Cx, l: &Lin) -> bool {
        if let Some(c) = l.is_const() { return c >= 0; }
        if !self.sets.is_empty() {
            if let [(a, k)] = l.t[..] { if let Some(s) = self.sets.get(&a) { return s.iter().all(|b| b as i128 * k + l.c >= 0); } }
            if l.t.iter().any(|x| self.sets.contains_key(&x.0)) { return entails(&self.facts_for(cx, l), l); }
        }
        if l.c > 1 << 40 || l.c < -(1 << 40) { return entails(&self.facts_for(cx, l), l); }
        entails(&self.facts, l)
    }
    /// Is l >= 0 ?
    pub fn ge0(&self, cx: &Cx, l: &Lin) -> Dec<bool> {
        if let Some(c) = l.is_const() { return Ok(c >= 0); }
        if self.entails(cx, l) { return Ok(true); }
        let n = l.neg().addk(-1);
        if self.entails(cx, &n) { return Ok(false); }
        Err(Box::new(Fork(vec![vec![Con::Ge(l.clone())], vec![Con::Ge(n)]], "integer comparison")))
    }
    pub fn eq0(&self, cx: &Cx, l: &Lin) -> Dec<bool> {
        if let Some(c) = l.is_const() { return Ok(c == 0); }
        if let [(a, k)] = l.t[..] { if let Some(s) = self.sets.get(&a) {
            let t = s.filter(|b| b as i128 * k + l.c == 0);
            if t.empty() { return Ok(false); }
            let u = s.minus(&t);
            if u.empty() { return Ok(true); }
            return Err(Box::new(Fork(vec![vec![Con::In(a, t)], vec![Con::In(a, u)]], "byte comparison")));
        } }
        let (p, n) = (l.addk(-1), l.neg().addk(-1));
        let ge = self.entails(cx, l);
        let le = self.entails(cx, &l.neg());
        if ge && le { return Ok(true); }
        if self.entails(cx, &p) || self.entails(cx, &n) { return Ok(false); }
        let mut alts = vec![vec![Con::Ge(l.clone()), Con::Ge(l.neg())]];
        if !le { alts.push(vec![Con::Ge(p)]); }
        if !ge { alts.push(vec![Con::Ge(n)]); }
        Err(Box::new(Fork(alts, "integer equality")))
    }
    /// The value of an integer, if there is only one.
    pub fn value_of(&self, _cx: &Cx, l: &Lin) -> Dec<Option<i128>> { Ok(l.is_const()) }
    /// Are the two provably equal?
    pub fn same_int(&self, cx: &Cx, a: &Lin, b: &Lin) -> bool {
        if a == b { return true; }
        let d = a.sub(b);
        if let Some(c) = d.is_const() { return c == 0; }
        self.entails(cx, &d) && self.entails(cx, &d.neg())
    }

    // ---- strings ----
    pub fn sf(&self, s: StrId) -> SFact { self.strs.get(&self.root(s)).cloned().unwrap_or_default() }
    pub fn sf_mut(&mut self, s: StrId) -> &mut SFact { let s = self.root(s); Rc::make_mut(&mut self.strs).entry(s).or_default() }
    pub fn root(&self, s: StrId) -> StrId { let mut s = s; while let Some(t) = self.alias.get(&s) { s = *t; } s }
    /// Are the two words the same?
    pub fn same_word(&self, cx: &Cx, a: StrId, b: StrId) -> Dec<bool> {
        let (a, b) = (self.root(a), self.root(b));
        if a == b { return Ok(true); }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        if self.differ.iter().any(|(p, q)| { let (p, q) = (self.root(*p), self.root(*q)); (p, q) == (x, y) || (q, p) == (x, y) }) { return Ok(false); }
        let _ = cx;
        Err(Box::new(Fork(vec![vec![Con::Same(x, y)], vec![Con::Differ(x, y)]], "same word")))
    }
    fn unify(&mut self, cx: &mut Cx, a: StrId, b: StrId) -> bool {
        let (a, b) = (self.root(a), self.root(b));
        if a == b { return true; }
        let (f, g) = (self.sf(a), self.sf(b));
        // the one that stays has the narrower kind
        let (keep, gone) = if matches!(cx.strs[b as usize], StrKind::Part(_)) && cx.strs[a as usize] == StrKind::Tok { (b, a) } else { (a, b) };
        let (f, g) = if keep == a { (f, g) } else { (g, f) };
        fn both<X: Clone + PartialEq>(x: &Option<X>, y: &Option<X>) -> Result<Option<X>, ()> {
            match (x, y) { (Some(p), Some(q)) if p != q => Err(()), (Some(p), _) | (_, Some(p)) => Ok(Some(p.clone())), _ => Ok(None) }
        }
        let lit = match (&f.lit, &g.lit) {
            (Some(x), Some(y)) => if x == y { Some(x.clone()) } else { return false },
            (Some(x), None) => if self.could_be(cx, gone, x) { Some(x.clone()) } else { return false },
            (None, Some(x)) => if self.could_be(cx, keep, x) { Some(x.clone()) } else { return false },
            _ => None,
        };
        let mut h = SFact { lit: None, not: f.not.clone(), ..f.clone() };
        for n in &g.not { if !h.not.contains(n) { h.not.push(n.clone()); } }
        h.not.sort();
        let (Ok(i), Ok(n), Ok(fl), Ok(e)) = (both(&f.int, &g.int), both(&f.neg, &g.neg), both(&f.flt, &g.flt), both(&f.empty, &g.empty)) else { return false };
        h.int = i; h.neg = n; h.flt = fl; h.empty = e;
        if h.int == Some(true) && h.flt == Some(false) { return false; }
        h.val = f.val.or(g.val);
        h.len = f.len.or(g.len);
        for q in &g.ask { if h.ask.contains(&(q.0.clone(), !q.1)) { return false; } if !h.ask.contains(q) { h.ask.push(q.clone()); } }
        h.ask.sort();
        if !h.spelling_ok() { return false; }
        let eql = match (f.len, g.len) { (Some(x), Some(y)) if x != y => Some(Lin::atom(x).sub(&Lin::atom(y))), _ => None };
        for c in &g.fcmp { if !h.fcmp.contains(c) { h.fcmp.push(c.clone()); } }
        let eq = match (f.val, g.val) { (Some(x), Some(y)) if x != y => Some(Lin::atom(x).sub(&Lin::atom(y))), _ => None };
        let (mut pairs, mut parts) = (vec![], None);
        match (&f.parts, &g.parts) {
            (Some(x), Some(y)) => {
                if x.len() != y.len() { return false; }
                if x.len() > 1 { pairs = x.iter().copied().zip(y.iter().copied()).collect(); }
                parts = Some(x.clone());
            }
            (Some(x), None) | (None, Some(x)) => parts = Some(x.clone()),
            _ => {}
        }
        if parts.as_ref().is_some_and(|p| p.len() > 1) && (matches!(cx.strs[keep as usize], StrKind::Part(_)) || h.int == Some(true) || h.flt == Some(true)) { return false; }
        h.parts = parts;
        Rc::make_mut(&mut self.alias).insert(gone, keep);
        Rc::make_mut(&mut self.strs).remove(&gone);
        Rc::make_mut(&mut self.strs).insert(keep, h);
        if self.differ.iter().any(|(p, q)| self.root(*p) == self.root(*q)) { return false; }
        for d in [eq, eql].into_iter().flatten() { if !self.assume(cx, &[Con::Ge(d.clone()), Con::Ge(d.neg())]) { return false; } }
        for (x, y) in pairs { if !self.unify(cx, x, y) { return false; } }
        if let Some(l) = lit { if !self.assume(cx, &[Con::Is(keep, l)]) { return false; } }
        true
    }

    pub fn valid_token(l: &str) -> bool {
        l == "\n" || (!l.is_empty() && !l.bytes().any(|b| matches!(b, b' ' | b'\\' | b'\t' | b'\n' | b'\r' | b'#')))
    }
    pub fn could_be(&self, cx: &Cx, s: StrId, l: &str) -> bool {
        let f = self.sf(s);
        if let Some(x) = &f.lit { return &**x == l; }
        if f.not.iter().any(|n| &**n == l) { return false; }
        if !self.differ.is_empty() {
            let r = self.root(s);
            for (p, q) in self.differ.iter() {
                let (p, q) = (self.root(*p), self.root(*q));
                let o = if p == r { q } else if q == r { p } else { continue };
                if self.sf(o).lit.is_some_and(|x| &*x == l) { return false; }
            }
        }
        match cx.strs[s as usize] {
            StrKind::Tok => if !Self::valid_token(l) { return false; },
            StrKind::Part(_) => if l.contains('/') || (!l.is_empty() && !Self::valid_token(l)) || l == "\n" { return false; },
        }
        if let Some(e) = f.empty { if e != l.is_empty() { return false; } }
        if f.ask.iter().any(|(q, b)| q.holds(l) != *b) { return false; }
        if let Some(a) = f.len {
            let d = Lin::atom(a).addk(-(l.len() as i128));
            if self.entails(cx, &d.addk(-1)) || self.entails(cx, &d.neg().addk(-1)) { return false; }
        }
        if let Some(b) = f.int { if int_syntax(l) != b { return false; } }
        if let Some(b) = f.flt { if l.parse::<f64>().is_ok() != b { return false; } }
        if let Some(p) = &f.parts { if l.split('/').count() != p.len() { return false; } }
        if let (Some(b), true) = (f.neg, int_syntax(l)) { if l.starts_with('-') != b { return false; } }
        if let (Some(a), true) = (f.val, int_syntax(l)) {
            if let Ok(v) = l.parse::<i128>() {
                let d = Lin::atom(a).addk(-v);
                if self.entails(cx, &d.addk(-1)) || self.entails(cx, &d.neg().addk(-1)) { return false; }
            }
        }
        true
    }
    /// Which of the literals is the string equal to, if any?
    pub fn which(&self, cx: &Cx, s: StrId, ls: &[&str]) -> Dec<Option<usize>> {
        let f = self.sf(s);
        if let Some(x) = &f.lit { return Ok(ls.iter().position(|l| *l == &**x)); }
        let c: Vec<&str> = ls.iter().copied().filter(|l| self.could_be(cx, s, l)).collect();
        if c.is_empty() { return Ok(None); }
        let mut alts: Vec<Vec<Con>> = c.iter().map(|l| vec![Con::Is(s, (*l).into())]).collect();
        alts.push(vec![Con::Not(s, c.iter().map(|l| (*l).into()).collect())]);
        Err(Box::new(Fork(alts, "string comparison")))
    }
    /// The length of a word in bytes.
    pub fn word_len(&self, cx: &mut Cx, s: StrId) -> Dec<Lin> {
        let f = self.sf(s);
        if let Some(l) = &f.lit { return Ok(Lin::k(l.len() as i128)); }
        if let Some(a) = f.len { return Ok(Lin::atom(a)); }
        let a = cx.fresh(true);
        Err(Box::new(Fork(vec![vec![Con::Len(s, a)]], "length")))
    }
    /// The value of an expression, if the facts leave only one.
    pub fn fixed(&self, l: &Lin) -> Option<i128> {
        if let Some(c) = l.is_const() { return Some(c); }
        match (minimize(&self.facts, l), minimize(&self.facts, &l.neg())) { (Min::At(n, d), Min::At(m, e)) if d == 1 && e == 1 && n == -m => Some(n), _ => None }
    }
    /// The answer to a question about the spelling of a word.
    pub fn ask(&self, s: StrId, q: crate::strings::Ask) -> Dec<bool> {
        let f = self.sf(s);
        if let Some(l) = &f.lit { return Ok(q.holds(l)); }
        if f.empty == Some(true) { return Ok(q.holds("")); }
        if let Some(x) = f.ask.iter().find(|x| x.0 == q) { return Ok(x.1); }
        if let Some(b) = f.answer(&q) { return Ok(b); }
        Err(Box::new(Fork(vec![vec![Con::Ask(s, q.clone(), false)], vec![Con::Ask(s, q, true)]], "spelling")))
    }
    pub fn is_lit(&self, cx: &Cx, s: StrId, l: &str) -> Dec<bool> { Ok(self.which(cx, s, &[l])?.is_some()) }
    pub fn is_empty_str(&self, cx: &Cx, s: StrId) -> Dec<bool> {
        if cx.strs[s as usize] == StrKind::Tok { return Ok(false); }
        let f = self.sf(s);
        if let Some(l) = &f.lit { return Ok(l.is_empty()); }
        if let Some(e) = f.empty { return Ok(e); }
        if f.int == Some(true) || f.flt == Some(true) { return Ok(false); }
        Err(Box::new(Fork(vec![vec![Con::Empty(s, true)], vec![Con::Empty(s, false)]], "empty string")))
    }
    pub fn is_float(&self, cx: &Cx, s: StrId) -> Dec<bool> {
        let f = self.sf(s);
        if let Some(l) = &f.lit { return Ok(l.parse::<f64>().is_ok()); }
        if let Some(b) = f.flt { return Ok(b); }
        if f.int == Some(true) { return Ok(true); }
        if f.empty == Some(true) { return Ok(false); }
        if f.parts.as_ref().is_some_and(|p| p.len() > 1) { return Ok(false); }
        let _ = cx;
        Err(Box::new(Fork(vec![vec![Con::Flt(s, true)], vec![Con::Flt(s, false)]], "float syntax")))
    }
    /// Integer syntax; on success the (unbounded) value.
    pub fn int_value(&self, cx: &mut Cx, s: StrId) -> Dec<Option<Lin>> {
        let f = self.sf(s);
        if let Some(l) = &f.lit {
            return Ok(if int_syntax(l) { l.parse::<i128>().ok().map(Lin::k) } else { None });
        }
        match f.int {
            Some(true) => return Ok(Some(Lin::atom(f.val.unwrap()))),
            Some(false) => return Ok(None),
            None => {}
        }
        if f.flt == Some(false) || f.empty == Some(true) || f.parts.as_ref().is_some_and(|p| p.len() > 1) { return Ok(None); }
        let a = cx.fresh(false);
        Err(Box::new(Fork(vec![vec![Con::IntSyn(s, true, a)], vec![Con::IntSyn(s, false, a)]], "integer syntax")))
    }
    /// `s.parse::<integer type>()`
    pub fn parse_int(&self, cx: &mut Cx, s: StrId, ty: TyId) -> Dec<Option<Lin>> {
        let Some(v) = self.int_value(cx, s)? else { return Ok(None) };
        let (lo, hi) = cx.prog.int_bounds(ty).unwrap();
        if lo == 0 {
            let f = self.sf(s);
            let neg = match (&f.lit, f.neg) {
                (Some(l), _) => l.starts_with('-'),
                (_, Some(b)) => b,
                _ => {
                    if self.entails(cx, &v.addk(-1)) { false }
                    else if self.entails(cx, &v.neg().addk(-1)) { true }
                    else { return Err(Box::new(Fork(vec![vec![Con::Neg(s, false)], vec![Con::Neg(s, true)]], "sign"))) }
                }
            };
            if neg { return Ok(None); }
        }
        let (over, under) = (v.addk(-hi - 1), Lin::k(lo - 1).sub(&v));
        let fits = |st: &State| st.entails(cx, &Lin::k(hi).sub(&v)) && st.entails(cx, &v.addk(-lo));
        if fits(self) { return Ok(Some(v)); }
        if self.entails(cx, &over) || self.entails(cx, &under) { return Ok(None); }
        let mut alts = vec![vec![Con::Ge(Lin::k(hi).sub(&v)), Con::Ge(v.addk(-lo))]];
        if self.consistent(cx, &over) { alts.push(vec![Con::Ge(over)]); }
        if self.consistent(cx, &under) { alts.push(vec![Con::Ge(under)]); }
        Err(Box::new(Fork(alts, "integer range")))
    }
    pub fn consistent(&self, cx: &Cx, l: &Lin) -> bool { !self.entails(cx, &l.neg().addk(-1)) }
    pub fn parts(&self, cx: &mut Cx, s: StrId) -> Dec<Vec<StrId>> {
        let f = self.sf(s);
        if let Some(p) = f.parts { return Ok(p); }
        if let StrKind::Part(_) = cx.strs[s as usize] { return Ok(vec![s]); }
        if let Some(l) = &f.lit {
            if !l.contains('/') { return Ok(vec![s]); }
        } else if f.int == Some(true) || f.flt == Some(true) { return Ok(vec![s]); }
        let lit = f.lit.clone();
        let mut alts = vec![];
        for n in 1..=5usize {
            if let Some(l) = &lit { if l.split('/').count() != n { continue; } }
            if n == 1 { alts.push(vec![Con::Parts(s, vec![s])]); continue; }
            let ps: Vec<StrId> = (0..n).map(|_| cx.fresh_str(StrKind::Part(s))).collect();
            let mut a = vec![Con::Parts(s, ps.clone())];
            if let Some(l) = &lit { for (p, q) in ps.iter().zip(l.split('/')) { a.push(Con::Is(*p, q.into())); } }
            alts.push(a);
        }
        Err(Box::new(Fork(alts, "number of slashes")))
    }

    /// Add constraints; false if they contradict what is known.
    pub fn assume(&mut self, cx: &mut Cx, cs: &[Con]) -> bool {
        for c in cs {
            match c {
                Con::Ge(l) => {
                    if let Some(c) = l.is_const() { if c < 0 { return false; } continue; }
                    if let [(a, k)] = l.t[..] { if let Some(s) = self.sets.get(&a) {
                        let t = s.filter(|b| b as i128 * k + l.c >= 0);
                        if !self.assume(cx, &[Con::In(a, t)]) { return false; }
                        continue;
                    } }
                    if !self.consistent(cx, l) { return false; }
                    if !self.facts.contains(l) { Rc::make_mut(&mut self.facts).push(l.clone()); }
                }
                Con::Same(a, b) => if !self.unify(cx, *a, *b) { return false; },
                Con::Differ(a, b) => Rc::make_mut(&mut self.differ).push((*a, *b)),
                Con::Is(s, l) => {
                    let f = self.sf(*s);
                    if let (Some(a), true) = (f.val, int_syntax(l)) {
                        if let Ok(v) = l.parse::<i128>() {
                            let d = Lin::atom(a).addk(-v);
                            if !self.assume(cx, &[Con::Ge(d.clone()), Con::Ge(d.neg())]) { return false; }
                        }
                    }
                    if let Some(a) = f.len {
                        let d = Lin::atom(a).addk(-(l.len() as i128));
                        if !self.assume(cx, &[Con::Ge(d.clone()), Con::Ge(d.neg())]) { return false; }
                    }
                    if f.ask.iter().any(|(q, b)| q.holds(l) != *b) { return false; }
                    self.sf_mut(*s).lit = Some(l.clone());
                }
                Con::Ask(s, q, b) => {
                    let f = self.sf_mut(*s);
                    if let Some(l) = &f.lit { if q.holds(l) != *b { return false; } continue; }
                    if !f.ask.contains(&(q.clone(), *b)) { f.ask.push((q.clone(), *b)); f.ask.sort(); }
                    if !f.spelling_ok() { return false; }
                }
                Con::Len(s, a) => {
                    self.sf_mut(*s).len = Some(*a);
                    let least = if cx.strs[*s as usize] == StrKind::Tok || self.sf(*s).empty == Some(false) { 1 } else { 0 };
                    if !self.assume(cx, &[Con::Ge(Lin::atom(*a).addk(-least))]) { return false; }
                }
                Con::Not(s, ls) => {
                    let f = self.sf_mut(*s);
                    for l in ls { if !f.not.contains(l) { f.not.push(l.clone()); } }
                    f.not.sort();
                }
                Con::IntSyn(s, b, a) => {
                    let f = self.sf_mut(*s);
                    f.int = Some(*b);
                    if *b { f.val = Some(*a); f.flt = Some(true); f.empty = Some(false); }
                    if !f.spelling_ok() { return false; }
                    if *b {
                        for (o, k, r) in std::mem::take(&mut self.sf_mut(*s).fcmp) {
                            match crate::interp::int_fcmp(&Lin::atom(*a), o, k, r) {
                                Some(ls) => { let cs: Vec<Con> = ls.into_iter().map(Con::Ge).collect(); if !self.assume(cx, &cs) { return false; } }
                                None => self.taint("comparison of a number that may be an integer"),
                            }
                        }
                    }
                }
                Con::Neg(s, b) => {
                    let a = self.sf(*s).val.unwrap();
                    self.sf_mut(*s).neg = Some(*b);
                    let l = if *b { Lin::atom(a).neg() } else { Lin::atom(a) };
                    if !self.assume(cx, &[Con::Ge(l)]) { return false; }
                }
                Con::Flt(s, b) => { let f = self.sf_mut(*s); f.flt = Some(*b); if *b { f.empty = Some(false); } else { f.int = Some(false); } if !f.spelling_ok() { return false; } }
                Con::Parts(s, ps) => {
                    let f = self.sf_mut(*s);
                    f.parts = Some(ps.clone());
                    if ps.len() > 1 { f.int = Some(false); f.flt = Some(false); }
                }
                Con::Empty(s, b) => { let f = self.sf_mut(*s); f.empty = Some(*b); if *b { f.int = Some(false); f.flt = Some(false); f.lit = Some("".into()); }
                    if *b && f.ask.iter().any(|(q, b)| q.holds("") != *b) { return false; }
                    if let Some(a) = f.len { let l = if *b { Lin::atom(a).neg() } else { Lin::atom(a).addk(-1) }; if !self.assume(cx, &[Con::Ge(l)]) { return false; } }
                }
                Con::FCmp(s, b, k, r) => {
                    self.sf_mut(*s).fcmp.push((*b, *k, *r));
                    if !crate::witness::float_sample(&self.sf(*s)).is_some() { return false; }
                }
                Con::FCon(b, x, y, r) => Rc::make_mut(&mut self.fcons).push((*b, x.clone(), y.clone(), *r)),
                Con::Fetch(t) => self.pending = Some(*t),
                Con::Taint(w) => self.taint(w),
                Con::Form(a, l, v) => Rc::make_mut(&mut self.forms).push((*a, l.clone(), v.clone())),
                Con::Choose(k) => self.choice = Some(*k),
                Con::In(a, s) => {
                    let t = self.sets.get(a).copied().unwrap_or(BSet::ALL).and(s);
                    if t.empty() { return false; }
                    Rc::make_mut(&mut self.sets).insert(*a, t);
                    if !crate::lexer::may_be_utf8(self, *a) { return false; }
                }
                Con::Byte(p, s) => {
                    let a = match cx.byte_atoms.get(p) { Some(a) => *a, None => { let a = cx.fresh(false); cx.byte_atoms.insert(p.clone(), a); a } };
                    Rc::make_mut(&mut self.sets).insert(a, *s);
                    Rc::make_mut(&mut self.bytes).push((p.clone(), a));
                    if !crate::lexer::may_be_utf8(self, a) { return false; }
                    crate::lexer::sync(self, cx);
                }
                Con::Div(p, c, q, r) => {
                    Rc::make_mut(&mut self.divs).push((p.clone(), *c, *q, *r));
                    let e = Lin::atom(*q).scale(*c).add(&Lin::atom(*r)).sub(p);
                    if !self.assume(cx, &[Con::Ge(Lin::atom(*r)), Con::Ge(Lin::k(c - 1).sub(&Lin::atom(*r))), Con::Ge(e.clone()), Con::Ge(e.neg())]) { return false; }
                }
            }
        }
        true
    }

    // ---- sequences ----
    /// Which segment holds position i, and the offset in it.
    pub fn seq_find(&self, cx: &Cx, s: &Seq, i: &Lin) -> Dec<Option<(usize, Lin)>> {
        if !self.ge0(cx, i)? { return Ok(None); }
        let mut off = Lin::k(0);
        for (k, g) in s.segs.iter().enumerate() {
            let end = off.add(&g.len());
            // i < end ?
            if self.ge0(cx, &end.sub(i).addk(-1))? { return Ok(Some((k, i.sub(&off)))); }
            off = end;
        }
        Ok(None)
    }
    pub fn seg_at(&self, g: &Seg, o: &Lin) -> V {
        match g {
            Seg::El(v) => v.clone(),
            Seg::Comp { lo, body, .. } => body.at(&lo.add(o)),
            Seg::Base { id, form, .. } => V::Sel(*id, o.clone(), Rc::new(form.clone())),
        }
    }
    pub fn seq_get(&self, cx: &Cx, s: &Seq, i: &Lin) -> Dec<Option<V>> {
        if let [(a, k)] = i.t[..] { if let Some(set) = self.sets.get(&a) {
            // a table looked up with a byte
            if s.segs.len() > 8 && s.segs.iter().all(|g| matches!(g, Seg::El(_))) {
                return self.by_byte(a, set, &|b| {
                    let j = b as i128 * k + i.c;
                    if j < 0 { return None; }
                    match s.segs.get(j as usize) { Some(Seg::El(v)) => Some(v.clone()), _ => None }
                });
            }
        } }
        let Some((k, o)) = self.seq_find(cx, s, i)? else { return Ok(None) };
        match self.seg_at(&s.segs[k], &o) { V::Sel(TEXT, p, _) => Ok(Some(V::Int(self.byte_at(cx, &p)?))), v => Ok(Some(v)) }
    }
    /// A function of a byte, when it is the same for all values the byte may have.
    pub fn by_byte<R: PartialEq + Clone>(&self, a: Atom, s: &BSet, f: &dyn Fn(u8) -> R) -> Dec<R> {
        let mut groups: Vec<(R, BSet)> = vec![];
        for b in s.iter() {
            let r = f(b);
            match groups.iter_mut().find(|g| g.0 == r) { Some(g) => g.1 = g.1.or(&BSet::of(|x| x == b)), None => groups.push((r, BSet::of(|x| x == b))) }
        }
        if groups.len() == 1 { return Ok(groups.pop().unwrap().0); }
        Err(Box::new(Fork(groups.into_iter().map(|g| vec![Con::In(a, g.1)]).collect(), "byte")))
    }
    /// If the expression is a byte of the text with an offset: the byte, its values, the offset.
    pub fn as_byte(&self, l: &Lin) -> Option<(Atom, BSet, i128)> {
        match l.t[..] { [(a, 1)] => self.sets.get(&a).map(|s| (a, *s, l.c)), _ => None }
    }
    /// The byte of the text at a position inside it.
    pub fn byte_at(&self, cx: &Cx, p: &Lin) -> Dec<Lin> {
        for (q, a) in self.bytes.iter().rev() {
            if self.same_int(cx, p, q) {
                let s = &self.sets[a];
                let mut it = s.iter();
                if let (Some(b), None) = (it.next(), it.next()) { return Ok(Lin::k(b as i128)); }
                return Ok(Lin::atom(*a));
            }
        }
        // the same byte under another name?
        for (q, _) in self.bytes.iter() {
            let d = p.sub(q);
            if d.is_const().is_none() && self.eq0(cx, &d)? { unreachable!() }
        }
        for (lo, k, unit) in self.runs.iter() {
            if !self.ge0(cx, &p.sub(lo))? || self.ge0(cx, &p.sub(&lo.add(&k.scale(unit.len() as i128))))? { continue; }
            if unit.len() == 1 { return Err(Box::new(Fork(vec![vec![Con::Byte(p.clone(), unit[0])]], "byte"))); }
            return Err(Box::new(Fork(vec![vec![Con::Taint("a byte somewhere in a repeated stretch")]], "byte")));
        }
        let alts = crate::lexer::classes(cx, p);
        Err(Box::new(Fork(alts.into_iter().map(|s| vec![Con::Byte(p.clone(), s)]).collect(), "byte")))
    }
    pub fn sub_seq(a: &Lin, b: &Lin) -> Seq { Seq { elem: 0, segs: vec![Seg::Comp { lo: a.clone(), hi: b.clone(), body: V::Sel(TEXT, Lin::atom(BV), Rc::new(V::Undef)) }] } }
    /// The part of the text that a sequence of bytes is.
    pub fn as_sub(s: &Seq) -> Option<(Lin, Lin)> {
        let mut r: Option<(Lin, Lin)> = None;
        for g in &s.segs {
            let (lo, hi) = match g {
                Seg::Comp { lo, hi, body: V::Sel(TEXT, l, _) } if *l == Lin::atom(BV) => (lo.clone(), hi.clone()),
                Seg::El(V::Sel(TEXT, l, _)) => (l.clone(), l.addk(1)),
                _ => return None,
            };
            r = Some(match r { None => (lo, hi), Some((a, b)) => if b == lo { (a, hi) } else { return None } });
        }
        r
    }
    pub fn seq_set(&self, cx: &mut Cx, s: &Seq, i: &Lin, v: V) -> Dec<Option<Seq>> {
        let Some((k, o)) = self.seq_find(cx, s, i)? else { return Ok(None) };
        let mut segs = s.segs[..k].to_vec();
        match &s.segs[k] {
            Seg::El(_) => segs.push(Seg::El(v)),
            Seg::Comp { lo, hi, body } => {
                let x = lo.add(&o);
                segs.push(Seg::Comp { lo: lo.clone(), hi: x.clone(), body: body.clone() });
                // keep it a function of the position when it was one
                segs.push(Seg::El(v));
                segs.push(Seg::Comp { lo: x.addk(1), hi: hi.clone(), body: body.clone() });
            }
            Seg::Base { len, form, .. } => {
                let id = cx.fresh(false);
                let form = if *form == v { form.clone() } else { V::Top };
                segs.push(Seg::Base { id, len: len.clone(), form });
            }
        }
        segs.extend_from_slice(&s.segs[k + 1..]);
        Ok(Some(Seq { elem: s.elem, segs }.norm()))
    }
    /// The elements from position a up to b.
    pub fn seq_sub(&self, cx: &Cx, s: &Seq, a: &Lin, b: &Lin) -> Dec<Option<Seq>> {
        let n = s.len();
        if !self.ge0(cx, a)? || !self.ge0(cx, &b.sub(a))? || !self.ge0(cx, &n.sub(b))? { return Ok(None); }
        if a.is_const() == Some(0) && *b == n { return Ok(Some(s.clone())); }
        let mut out = vec![];
        let mut off = Lin::k(0);
        for g in &s.segs {
            let end = off.add(&g.len());
            // overlap of [off,end) with [a,b)
            let from = if self.ge0(cx, &off.sub(a))? { off.clone() } else { a.clone() };
            let to = if self.ge0(cx, &b.sub(&end))? { end.clone() } else { b.clone() };
            if self.ge0(cx, &to.sub(&from).addk(-1))? {
                match g {
                    Seg::El(_) => out.push(g.clone()),
                    Seg::Comp { lo, body, .. } => out.push(Seg::Comp { lo: lo.add(&from.sub(&off)), hi: lo.add(&to.sub(&off)), body: body.clone() }),
                    Seg::Base { form, len, .. } => {
                        if from == off && to == end { out.push(g.clone()); }
                        else if let Some(k) = to.sub(&from).is_const().filter(|k| *k <= 8) {
                            for j in 0..k { out.push(Seg::El(self.seg_at(g, &from.sub(&off).addk(j)))); }
                        } else { let _ = len; return Ok(Some(Seq { elem: s.elem, segs: vec![Seg::Base { id: u32::MAX, len: b.sub(a), form: form.clone() }] })); }
                    }
                }
            }
            off = end;
        }
        Ok(Some(Seq { elem: s.elem, segs: out }.norm()))
    }
}

pub fn int_syntax(l: &str) -> bool {
    let b = l.strip_prefix(['+', '-']).unwrap_or(l);
    !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit())
}
