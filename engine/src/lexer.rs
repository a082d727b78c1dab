//! Tokenization: the function that delivers tokens, on a text of symbolic bytes, against a
//! reference tokenizer that reads the same bytes.
use crate::explore::here;
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::spec::{self, Ghost};
use crate::val::*;
use crate::witness;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum LS { Skip, AfterCr, Comment, Word(Lin) }
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum LTok { Word(Lin, Lin), Nl, End }

/// State of the reference tokenizer.
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Lex {
    pub s: LS,
    /// how far it has read
    pub pos: Lin,
    /// the length of the text
    pub n: Lin,
    /// tokens it has found that were not yet delivered
    pub out: Vec<LTok>,
    pub ended: bool,
    /// where the word delivered last starts and ends
    pub last: Option<(Lin, Lin)>,
}

pub fn is_blank(b: u8) -> bool { matches!(b, b' ' | b'\t' | b'\\') }
/// The bytes that the format treats alike: blanks, line feed, carriage return, hash, the rest.
pub fn class_sets() -> [BSet; 5] {
    [BSet::of(|b| !is_blank(b) && !matches!(b, b'\n' | b'\r' | b'#')), BSet::of(is_blank), BSet::of(|b| b == b'\n'), BSet::of(|b| b == b'\r'), BSet::of(|b| b == b'#')]
}
pub fn classes(cx: &Cx, p: &Lin) -> Vec<BSet> { match &cx.byte_menu { Some(m) => m(p), None => class_sets().to_vec() } }

impl Lex {
    pub fn new(n: Lin) -> Lex { Lex { s: LS::Skip, pos: Lin::k(0), n, out: vec![], ended: false, last: None } }
    /// One byte; all bytes in the set are of one class.
    fn byte(&mut self, b: u8) {
        let at = self.pos.clone();
        let nl = |me: &mut Lex| { me.out.push(LTok::Nl); me.s = if b == b'\r' { LS::AfterCr } else { LS::Skip }; };
        let after_cr = self.s == LS::AfterCr;
        if let LS::Word(a) = self.s.clone() {
            if is_blank(b) || matches!(b, b'\n' | b'\r' | b'#') { self.out.push(LTok::Word(a, at.clone())); self.s = LS::Skip; }
        }
        match (&self.s, b) {
            (LS::Word(_), _) => {}
            (_, b'\n') if after_cr => self.s = LS::Skip,
            (_, b'\n' | b'\r') => nl(self),
            (LS::Comment, _) => {}
            (_, b'#') => self.s = LS::Comment,
            (_, x) if is_blank(x) => self.s = LS::Skip,
            _ => self.s = LS::Word(at.clone()),
        }
        self.pos = at.addk(1);
    }
    pub fn enc(&self) -> V {
        let w = |t: &LTok| match t { LTok::Word(a, b) => V::agg(0, vec![V::Int(a.clone()), V::Int(b.clone())]), LTok::Nl => V::agg(1, vec![]), LTok::End => V::agg(2, vec![]) };
        V::agg(0, vec![V::Int(self.pos.clone()), match &self.s { LS::Word(a) => V::Int(a.clone()), _ => V::unit() }, V::agg(self.out.len() as u32, self.out.iter().map(w).collect()),
            match &self.last { None => V::none(), Some((a, b)) => V::some(V::agg(0, vec![V::Int(a.clone()), V::Int(b.clone())])) }])
    }
    pub fn dec(&self, v: &V) -> Option<Lex> {
        fn f(v: &V) -> Option<&[V]> { match v { V::Agg(_, f) => Some(&f[..]), _ => None } }
        fn i(v: &V) -> Option<Lin> { match v { V::Int(l) => Some(l.clone()), _ => None } }
        let x = f(v)?;
        let mut g = self.clone();
        g.pos = i(&x[0])?;
        if let LS::Word(_) = g.s { g.s = LS::Word(i(&x[1])?); }
        g.out = f(&x[2])?.iter().map(|t| Some(match t { V::Agg(0, w) => LTok::Word(i(&w[0])?, i(&w[1])?), V::Agg(1, _) => LTok::Nl, V::Agg(2, _) => LTok::End, _ => return None })).collect::<Option<Vec<_>>>()?;
        g.last = match &x[3] { V::Agg(1, w) => { let w = f(&w[0])?; Some((i(&w[0])?, i(&w[1])?)) } _ => None };
        Some(g)
    }
    fn end(&mut self) {
        if self.ended { return; }
        if let LS::Word(a) = self.s.clone() { self.out.push(LTok::Word(a, self.n.clone())); self.s = LS::Skip; }
        self.out.push(LTok::End);
        self.ended = true;
    }
}

/// Let the reference tokenizer read the bytes that are known by now.
pub fn sync(st: &mut State, cx: &Cx) {
    let Ghost::Lex(g) = &*st.ghost else { return };
    let mut g = g.clone();
    loop {
        let Some(s) = st.bytes.iter().rev().find(|(p, _)| st.same_int(cx, p, &g.pos)).map(|(_, a)| st.sets[a]) else { break };
        g.byte(s.iter().next().unwrap());
    }
    st.ghost = Rc::new(Ghost::Lex(g));
}

/// What a state is apart from the bytes that lie some way back: two states with the same
/// identity behave alike as long as the code does not return to those bytes.
pub fn ident(st: &State) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for f in &st.frames { (f.func, f.bb, f.si).hash(&mut h); f.locals.hash(&mut h); }
    st.facts.hash(&mut h);
    st.taint.is_some().hash(&mut h);
    if let Ghost::Lex(g) = &*st.ghost {
        g.hash(&mut h);
        for (p, a) in st.bytes.iter() { if g.pos.sub(p).is_const().is_none_or(|d| d <= 2) { (p, st.sets[a]).hash(&mut h); } }
    }
    h.finish()
}

/// Is the position the start of a character of the text (or its end)?
pub fn boundary(st: &State, cx: &Cx, p: &Lin) -> Dec<bool> {
    let Ghost::Lex(g) = &*st.ghost else { return Ok(true) };
    let same = |q: &Lin| st.same_int(cx, p, q);
    if p.is_const() == Some(0) || same(&g.n) { return Ok(true); }
    // where the reference tokenizer starts or ends a word, there is one of the separators, which are characters of one byte
    if let LS::Word(a) = &g.s { if same(a) { return Ok(true); } }
    for t in &g.out { if let LTok::Word(a, b) = t { if same(a) || same(b) { return Ok(true); } } }
    if let Some((a, b)) = &g.last { if same(a) || same(b) { return Ok(true); } }
    let known = |q: &Lin| st.bytes.iter().rev().find(|(r, _)| st.same_int(cx, q, r)).map(|(_, a)| (*a, st.sets[a]));
    if let Some((_, s)) = known(&p.addk(-1)) { if s.iter().all(|b| b < 128) { return Ok(true); } }
    // the byte before is in a repeated stretch
    for (lo, k, unit) in st.runs.iter() {
        if unit.iter().all(|s| s.iter().all(|b| b < 128)) && st.entails(cx, &p.sub(lo).addk(-1)) && st.entails(cx, &lo.add(&k.scale(unit.len() as i128)).sub(p)) { return Ok(true); }
    }
    if st.eq0(cx, &g.n.sub(p))? { return Ok(true); }
    let (a, s) = match known(p) { Some(x) => x, None => { st.byte_at(cx, p)?; unreachable!() } };
    st.by_byte(a, &s, &|b| b & 0xc0 != 0x80)
}

/// Bytes for the whole text that agree with what is known and are UTF-8.
pub fn text(st: &State, cx: &Cx, extra: &[(i128, BSet)]) -> Option<Vec<u8>> {
    let Ghost::Lex(g) = &*st.ghost else { return None };
    let m = witness::ints(st, cx, &[])?;
    let base = match g.n.eval(&m) { Some(n) => n, None => g.n.is_const()? };
    for n in [base, base + 1, base + 2, base + 3, base - 1, base - 2] {
        if n < 0 || n > 100_000 { continue; }
        let d = g.n.addk(-n);
        if !st.consistent(cx, &d) || !st.consistent(cx, &d.neg()) { continue; }
        let mut want = vec![BSet::ALL; n as usize];
        let mut ok = true;
        for (p, a) in st.bytes.iter() { match p.eval(&m).or(p.is_const()) { Some(k) if k >= 0 && k < n => want[k as usize] = want[k as usize].and(&st.sets[a]), _ => ok = false } }
        for (lo, k, unit) in st.runs.iter() {
            let (Some(a), Some(k)) = (lo.eval(&m).or(lo.is_const()), k.eval(&m)) else { ok = false; continue };
            for j in 0..k * unit.len() as i128 { let p = a + j; if p >= 0 && p < n { want[p as usize] = want[p as usize].and(&unit[j as usize % unit.len()]); } else { ok = false; } }
        }
        for (k, s) in extra { if *k >= 0 && *k < n { want[*k as usize] = want[*k as usize].and(s); } else { ok = false; } }
        if !ok { continue; }
        if let Some(b) = utf8(&want) { return Some(b); }
    }
    None
}
fn at_len(l: &Lin, n: &Lin, len: usize) -> Option<i128> {
    match n.t[..] { [(a, 1)] if n.c == 0 => l.eval(&BTreeMap::from([(a, len as i128)])).or(l.is_const()), _ => l.is_const() }
}
/// Can the bytes around the one named be part of a UTF-8 text?
pub fn may_be_utf8(st: &State, a: Atom) -> bool {
    let Some((p, _)) = st.bytes.iter().rev().find(|(_, b)| *b == a) else { return true };
    let mut w: [Option<BSet>; 7] = [None; 7];
    for (q, b) in st.bytes.iter().rev().take(12) { if let Some(d) = q.sub(p).is_const() { if (-3..=3).contains(&d) { w[(d + 3) as usize] = Some(st.sets[b]); } } }
    let mut can = [true; 8];
    for s in w {
        let mut to = [false; 8];
        for i in 0..8 { if can[i] { match &s { None => to = [true; 8], Some(s) => for b in s.iter() { if let Some(t) = utf8_next(i, b) { to[t] = true; } } } } }
        can = to;
    }
    can.iter().any(|x| *x)
}
// states: 0 between characters; 1..=3 so many continuation bytes to come; 4: after E0, 5: after ED, 6: after F0, 7: after F4
fn utf8_next(s: usize, b: u8) -> Option<usize> {
    match (s, b) {
        (0, 0..=0x7f) => Some(0), (0, 0xc2..=0xdf) => Some(1), (0, 0xe0) => Some(4), (0, 0xed) => Some(5), (0, 0xe1..=0xef) => Some(2), (0, 0xf0) => Some(6), (0, 0xf1..=0xf3) => Some(3), (0, 0xf4) => Some(7),
        (1..=3, 0x80..=0xbf) => Some(s - 1), (4, 0xa0..=0xbf) | (5, 0x80..=0x9f) => Some(1), (6, 0x90..=0xbf) | (7, 0x80..=0x8f) => Some(2),
        _ => None,
    }
}
/// A UTF-8 text with each byte in its set; plain letters where possible.
pub fn utf8(want: &[BSet]) -> Option<Vec<u8>> {
    let n = want.len();
    let mut can = vec![[false; 8]; n + 1];
    can[n][0] = true;
    for i in (0..n).rev() { for s in 0..8 { can[i][s] = want[i].iter().any(|b| utf8_next(s, b).is_some_and(|t| can[i + 1][t])); } }
    if !can[0][0] { return None; }
    let mut s = 0;
    let mut out = vec![];
    for i in 0..n {
        let pref: [u8; 8] = [b'a' + (i % 26) as u8, b'a', b' ', b'\n', b'\r', b'#', 0xc3, 0xa9];
        let b = pref.into_iter().chain(0..=255).find(|b| want[i].has(*b) && utf8_next(s, *b).is_some_and(|t| can[i + 1][t]))?;
        s = utf8_next(s, b).unwrap();
        out.push(b);
    }
    Some(out)
}

struct Round { next: Vec<State>, exits: Vec<State>, panics: bool, ended: bool }
type Place3 = (usize, FnId, usize, usize);
/// Where the code is.
fn place(st: &State) -> Place3 { let t = st.top(); (st.frames.len(), t.func, t.bb, t.si) }
/// How far the reference tokenizer has read.
fn pos_of(st: &State) -> Option<Lin> { match &*st.ghost { Ghost::Lex(g) => Some(g.pos.clone()), _ => None } }

pub struct LexRun<'a, 'p> {
    pub cx: &'a mut Cx<'p>,
    pub findings: Vec<String>,
    kinds: BTreeMap<String, usize>,
    pub steps: usize,
    pub paths: usize,
    pub calls: usize,
    pub merged: usize,
    pub obligations: usize,
    pub discharged: usize,
    pub why: BTreeMap<String, usize>,
    pub funcs: HashSet<FnId>,
    pub unchecked: bool,
    pub deadline: std::time::Instant,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got { Tok(Lin, Lin), Lit(String), None, Unknown }

pub const ALLP: [&str; 12] = ["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];

impl<'a, 'p> LexRun<'a, 'p> {
    pub fn new(cx: &'a mut Cx<'p>) -> Self {
        let unchecked = cx.prog.funcs.iter().any(|f| f.local && crate::effects::callees(cx.prog, f).iter().any(|(c, _)| cx.prog.callees[*c].path.contains("from_utf8_unchecked")));
        LexRun { cx, findings: vec![], kinds: BTreeMap::new(), steps: 0, paths: 0, calls: 0, merged: 0, obligations: 0, discharged: 0, why: BTreeMap::new(), funcs: HashSet::new(), unchecked, deadline: std::time::Instant::now() + std::time::Duration::from_secs(3000) }
    }
    pub fn miss(&mut self, w: &str) { *self.why.entry(w.to_string()).or_insert(0) += 1; }
    /// The states in which the entry point first asks for a token: the object that delivers
    /// them, and the function.
    pub fn initial(&mut self, func: FnId, n: &Lin, cons: &[Con]) -> Vec<(State, CalleeId)> {
        let mut out = vec![];
        let mut st = State::new();
        st.ghost = Rc::new(Ghost::Lex(Lex::new(n.clone())));
        if !st.assume(self.cx, &[Con::Ge(n.clone())]) || !st.assume(self.cx, cons) { return out; }
        push_frame(&mut st, self.cx, func, vec![V::cref(V::S(Rc::new(vec![Piece::Sub(Lin::k(0), n.clone())])))], None);
        let mut stack = vec![st];
        'next: while let Some(mut st) = stack.pop() {
            if std::time::Instant::now() > self.deadline || crate::explore::heavy() { self.miss("time limit"); break; }
            if out.len() + stack.len() > 2000 { self.miss("too many cases before the first token"); break; }
            for _ in 0..100_000 {
                let fr = st.top();
                let b = &self.cx.prog.funcs[fr.func].blocks[fr.bb];
                if fr.si == b.st.len() {
                    if let Tm::Call { callee, args, func, .. } = &b.tm {
                        let cid = match callee { Some(c) => Some(*c), None => match st.op(self.cx, func) { Ok(V::Fn(c)) => Some(c), _ => None } };
                        if let Some(cid) = cid { if spec::cut_call(self.cx.prog, fr.func, cid) {
                            let v = st.op(self.cx, &args[0]).and_then(|v| st.deref_all(self.cx, &v)).and_then(|v| st.resolve(self.cx, &v));
                            let Ok(v) = v else { self.miss("before the first token: undetermined"); continue 'next };
                            if st.taint.is_some() || v.has_top() { let w = st.taint.unwrap_or("unknown value"); self.miss(&format!("before the first token: {}", w)); continue 'next; }
                            let Some(f) = self.cx.prog.callees[cid].func else { continue 'next };
                            st.frames = vec![Rc::new(Frame { func: f, bb: 0, si: 0, locals: vec![V::Undef, v], dest: None })];
                            self.enter(&mut st, cid);
                            out.push((st, cid));
                            continue 'next;
                        } }
                    }
                }
                if fr.bb == 0 { self.funcs.insert(fr.func); }
                match step(&mut st, self.cx) {
                    Ok(Flow::Next | Flow::Head) => {}
                    Ok(Flow::Many(s)) => { stack.extend(s); continue 'next; }
                    Ok(Flow::Panic(m)) => {
                        if let Some(w) = st.taint { self.miss(w); continue 'next; }
                        let at = here(&st, self.cx);
                        let mut ps = ALLP.to_vec();
                        ps.push("C01");
                        if m.contains("undefined behaviour") { ps.push("C03"); }
                        self.found(&st, "panic", &ps, &at, &m, vec![], &[]);
                        continue 'next;
                    }
                    Ok(_) => { self.miss("the entry point ends without asking for a token"); continue 'next; }
                    Err(f) => { for a in f.0.iter().rev() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } } continue 'next; }
                }
            }
            self.miss("before the first token: too many steps");
        }
        out
    }
    pub fn enter(&mut self, st: &mut State, cid: CalleeId) {
        self.calls += 1;
        let f = self.cx.prog.callees[cid].func.unwrap();
        Rc::make_mut(&mut st.frames[0]).locals[0] = V::Undef;
        push_frame(st, self.cx, f, vec![V::MRef(Rc::new(Loc { depth: 0, local: 1, path: vec![] }))], Some((Place { local: 0, proj: vec![] }, None)));
    }
    pub fn got(&self, st: &State) -> Got {
        match &st.frames[0].locals[0] {
            V::Agg(0, _) => Got::None,
            V::Agg(1, f) => match st.deref_all(self.cx, &f[0]) {
                Ok(V::S(p)) => match &p[..] { [Piece::Sub(a, b)] => Got::Tok(a.clone(), b.clone()), p => match crate::native::str_lit(st, p) { Some(s) => Got::Lit(s), None => Got::Unknown } },
                Ok(V::Seq(s)) => match State::as_sub(&s) { Some((a, b)) => Got::Tok(a, b), None => {
                    let b: Option<Vec<u8>> = s.segs.iter().map(|g| match g { Seg::El(V::Int(l)) => l.is_const().map(|c| c as u8), _ => None }).collect();
                    match b.and_then(|b| String::from_utf8(b).ok()) { Some(s) => Got::Lit(s), None => Got::Unknown }
                } },
                _ => Got::Unknown,
            },
            _ => Got::Unknown,
        }
    }
    /// All texts that agree with the initial state, one path after the other, exactly.
    pub fn exact(&mut self, init: State, cid: CalleeId, max_paths: usize) {
        let mut stack = vec![init];
        let mut paths = 0;
        let mut been: HashSet<u64> = HashSet::new();
        while let Some(mut st) = stack.pop() {
            let mut n = 0usize;
            let mut heads: HashSet<u64> = HashSet::new();
            if self.findings.len() >= 12 { return; }
            if std::time::Instant::now() > self.deadline || crate::explore::heavy() { self.miss("time limit"); return; }
            loop {
                n += 1;
                self.steps += 1;
                if n > 20_000 && !st.runs.is_empty() { self.miss("too many steps after a long stretch"); break; }
                if n > 300_000 {
                    // nothing was read in all these steps
                    if st.taint.is_none() { let at = here(&st, self.cx); self.found(&st, "hang", &["C02", "C04"], &at, "no end after 300000 steps without reading", vec![], &[]); } else { self.miss("too many steps"); }
                    break;
                }
                if st.top().bb == 0 { self.funcs.insert(st.top().func); }
                match step(&mut st, self.cx) {
                    Ok(Flow::Dead) if st.frames.len() == 1 => {
                        paths += 1;
                        self.paths += 1;
                        if paths > max_paths { self.miss("limit of paths"); return; }
                        for s in self.returned(st, cid, true) { if been.insert(ident(&s)) { stack.push(s); } else { self.merged += 1; } }
                        break;
                    }
                    Ok(Flow::Head) => {
                        prune_all(&mut st, self.cx);
                        let id = ident(&st);
                        if !heads.insert(id) {
                            if st.taint.is_none() { let at = here(&st, self.cx); self.found(&st, "hang", &["C02", "C04"], &at, "the same state comes back at the head of a loop", vec![], &[]); }
                            break;
                        }
                        if !been.insert(id) { self.merged += 1; break; }
                    }
                    Ok(Flow::Next) => {}
                    Ok(Flow::Done(_)) | Ok(Flow::Dead) => { if let Some(w) = st.taint { self.miss(w); } break; }
                    Ok(Flow::Panic(m)) => {
                        self.obligations += 1;
                        if let Some(w) = st.taint { self.miss(w); break; }
                        let at = here(&st, self.cx);
                        let ub = m.contains("undefined behaviour");
                        let mut ps = ALLP.to_vec();
                        ps.push("C01");
                        if ub { ps.push("C03"); }
                        if m.contains("recursion") { ps.push("C02"); }
                        self.found(&st, "panic", &ps, &at, &m, vec![], &[]);
                        break;
                    }
                    Ok(Flow::Many(ss)) => { stack.extend(ss); break; }
                    Err(f) => { for a in f.0.iter().rev() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } } break; }
                }
            }
        }
    }
    /// A text of some bytes, then any number of repetitions of a unit: the general state, and
    /// the states in which the repetition is left.
    fn general(&mut self, init: State, cid: CalleeId, n: &Lin, fixed: &[usize], unit: &[usize], which: usize) -> Option<(State, Vec<State>)> {
        let cs = class_sets();
        let u = unit.len() as i128;
        let base = pos_of(&init)?.addk(fixed.len() as i128);
        let (b2, f2, u2) = (base.clone(), fixed.to_vec(), unit.to_vec());
        self.cx.byte_menu = Some(Rc::new(move |p: &Lin| {
            let Some(d) = p.sub(&b2).is_const() else { return cs.to_vec() };
            if d < 0 { match f2.get((d + f2.len() as i128) as usize) { Some(c) => vec![cs[*c]], None => cs.to_vec() } } else { vec![cs[u2[d as usize % u2.len()]]] }
        }));
        let mut st = init;
        if !st.assume(self.cx, &[Con::Ge(n.sub(&base).addk(-8 * u - 2))]) { return None; }
        // states at the same place, one unit apart
        let mut heads: Vec<(Place3, i128, State)> = vec![];
        for _ in 0..20_000 {
            let at_head = match step(&mut st, self.cx) {
                Ok(Flow::Dead) if st.frames.len() == 1 => {
                    let mut s = self.returned(st.clone(), cid, true);
                    if s.len() != 1 { return None; }
                    st = s.pop()?;
                    true
                }
                Ok(Flow::Head) => true,
                Ok(Flow::Next) => false,
                Err(f) => {
                    let mut s: Vec<State> = f.0.iter().filter_map(|a| { let mut s = st.clone(); if s.assume(self.cx, a) { Some(s) } else { None } }).collect();
                    // one kind of byte
                    if s.is_empty() || (s.len() > 1 && !f.0.iter().flatten().all(|c| matches!(c, Con::In(..)))) { return None; }
                    let i = which % s.len();
                    st = s.swap_remove(i);
                    false
                }
                _ => return None,
            };
            if st.taint.is_some() { return None; }
            if !at_head { continue; }
            let d = pos_of(&st)?.sub(&base).is_const()?;
            if d < 0 { continue; }
            if d > 7 * u { return None; }
            let pl = place(&st);
            heads.push((pl, d, st.clone()));
            let find = |d: i128| heads.iter().rev().find(|h| h.0 == pl && h.1 == d).map(|h| &h.2);
            let (Some(a), Some(b)) = (find(d - 2 * u), find(d - u)) else { continue };
            let (a, b) = (a.clone(), b.clone());
            for (all, slack) in [(true, 0), (false, 0), (true, 2), (false, 2)] {
                if std::time::Instant::now() > self.deadline { return None; }
                if let Some(r) = self.general1(&a, &b, &st, cid, n, unit, all, slack) { return Some(r); }
            }
        }
        None
    }
    fn general1(&mut self, a: &State, b: &State, c: &State, cid: CalleeId, n: &Lin, unit: &[usize], all: bool, slack: i128) -> Option<(State, Vec<State>)> {
        use crate::accel::*;
        let u = unit.len() as i128;
        let (x, y, z) = (clean_head(a, self.cx)?, clean_head(b, self.cx)?, clean_head(c, self.cx)?);
        if x.facts != z.facts { return None; }
        let (lo, end) = (pos_of(a)?, pos_of(c)?);
        // nothing is known beyond, and the stretches are of the same kinds
        if c.bytes.iter().any(|(p, _)| p.sub(&end).is_const().is_none_or(|d| d >= 0) && !c.entails(self.cx, &end.sub(p).addk(-1))) { return None; }
        let set = |i: i128| c.bytes.iter().rev().find(|(p, _)| *p == lo.addk(i)).map(|(_, x)| c.sets[x]);
        let mut kinds = vec![];
        for i in 0..u { let s = set(i)?; if set(i + u)? != s { return None; } kinds.push(s); }
        // any bytes of the kind, or those that the code saw here
        if all { let cs = class_sets(); let c: Vec<BSet> = (0..u as usize).map(|i| cs[unit[i]]).collect(); if c == kinds { return None; } kinds = c; }
        let k = self.cx.fresh(true);
        self.cx.weight.insert(k, u);
        let pl = place(c);
        let mut g = generalise(&x, &y, &z, &Lin::atom(k))?;
        let hi = lo.add(&Lin::atom(k).scale(u));
        if pos_of(&g)? != hi { return None; }
        if all {
            // whatever the bytes, the state after one repetition is the same
            let mut s = x.clone();
            if !s.assume(self.cx, &[Con::Ge(n.sub(&lo).addk(-u - slack))]) { return None; }
            let r = self.round(s, &lo, &kinds, pl, cid, &|s, cx| same_shape(s, &y) && s.facts.iter().all(|f| x.entails(cx, f)))?;
            if r.next.is_empty() || !r.exits.is_empty() || r.panics || r.ended { return None; }
        }
        // after at least one; the bytes of the last one have names
        let known: Vec<(Lin, Atom)> = c.bytes.iter().filter(|(p, _)| c.entails(self.cx, &lo.sub(p).addk(-1))).cloned().collect();
        g.bytes = Rc::new(known);
        let mut runs = (*g.runs).clone();
        runs.push((lo.clone(), Lin::atom(k).addk(-1), kinds.clone()));
        g.runs = Rc::new(runs);
        if !g.assume(self.cx, &[Con::Ge(Lin::atom(k).addk(-1)), Con::Ge(n.sub(&hi).addk(-slack))]) { return None; }
        for i in 0..u { self.name_byte(&mut g, &hi.addk(i - u), kinds[i as usize]); }
        for pass in 0..2 {
            let mut g1 = g.clone();
            if !g1.assume(self.cx, &[Con::Ge(n.sub(&hi).addk(-u - slack))]) { return None; }
            let (g0, hi2, ks) = (g.clone(), hi.clone(), kinds.clone());
            let Round { mut next, exits, panics, ended } = self.round(g1.clone(), &hi, &kinds, pl, cid, &move |s, _| is_next(&g0, s, k) && (0..u).all(|i| s.bytes.iter().any(|(p, x)| *p == hi2.addk(i) && s.sets[x].minus(&ks[i as usize]).empty())))?;
            let news = |s: &State| -> Vec<Lin> { s.facts.iter().filter(|f| !g1.facts.contains(f) && !g1.entails(self.cx, f)).cloned().collect() };
            let upper = |f: &Lin| f.t.len() == 1 && f.t[0].0 == k && f.t[0].1 < 0;
            if std::env::var("ACC").is_ok() { for e in exits.iter() { eprintln!("exit {} {:?}", here(e, self.cx), news(e)); }
                eprintln!("lexer pass {}: {} next, {} other; {:?}", pass, next.len(), exits.len(), next.iter().map(news).collect::<Vec<_>>()); }
            // all cases together are one more repetition, whatever the case
            if !next.is_empty() && exits.is_empty() && !panics && !ended { return Some((g, vec![])); }
            if next.len() > 1 && pass == 0 { next.retain(|s| news(s).iter().all(upper)); }
            if next.is_empty() { return None; }
            let new = news(&next[0]);
            if next.len() > 1 && (u > 1 || next.iter().any(|s| news(s) != new)) { return None; }
            let none = BSet::ALL.minus(&BSet::ALL);
            let seen = |i: i128| next.iter().fold(none, |t, s| t.or(&s.bytes.iter().rev().find(|(p, _)| *p == hi.addk(i)).map_or(none, |(_, x)| s.sets[x])));
            if (0..u).any(|i| !kinds[i as usize].minus(&seen(i)).empty()) { return None; }
            if new.iter().any(|f| !upper(f)) { return None; }
            if new.is_empty() || pass == 1 { return Some((g, if panics { vec![g1] } else { exits })); }
            for f in new { if !g.assume(self.cx, &[Con::Ge(f.subst(&mut |x| if x == k { Some(Lin::atom(k).addk(-1)) } else { None }))]) { return None; } }
        }
        None
    }
    fn name_byte(&mut self, st: &mut State, p: &Lin, s: BSet) {
        let a = match self.cx.byte_atoms.get(p) { Some(a) => *a, None => { let a = self.cx.fresh(false); self.cx.byte_atoms.insert(p.clone(), a); a } };
        Rc::make_mut(&mut st.sets).insert(a, s);
        Rc::make_mut(&mut st.bytes).push((p.clone(), a));
    }
    /// One repetition: the states in which the code is at the given place when the reference
    /// tokenizer has read it, and the others.
    fn round(&mut self, from: State, hi: &Lin, kinds: &[BSet], pl: Place3, cid: CalleeId, good: &dyn Fn(&State, &Cx) -> bool) -> Option<Round> {
        let u = kinds.len() as i128;
        let mut r = Round { next: vec![], exits: vec![], panics: false, ended: false };
        let (mut stack, mut forks, mut steps) = (vec![from], 0, 0);
        let (b2, ks, cs) = (hi.clone(), kinds.to_vec(), class_sets());
        self.cx.byte_menu = Some(Rc::new(move |p: &Lin| { let Some(d) = p.sub(&b2).is_const() else { return cs.to_vec() }; if d < 0 { cs.to_vec() } else { vec![ks[d as usize % ks.len()]] } }));
        while let Some(mut st) = stack.pop() {
            loop {
                steps += 1;
                self.steps += 1;
                if steps > 100_000 || st.taint.is_some() { return None; }
                let head = match step(&mut st, self.cx) {
                    Ok(Flow::Dead) if st.frames.len() == 1 => { let mut s = self.returned(st, cid, true); let Some(t) = s.pop() else { r.ended = true; break }; stack.extend(s); st = t; true }
                    Ok(Flow::Head) => true,
                    Ok(Flow::Next) => false,
                    Ok(Flow::Dead | Flow::Done(_)) => { r.ended = true; break }
                    Ok(Flow::Many(s)) => { stack.extend(s); break; }
                    Ok(Flow::Panic(_)) => { r.panics = true; break; }
                    Err(f) => { forks += 1; if forks > 500 { return None; } for a in f.0.iter().rev() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } } break; }
                };
                if !head { continue; }
                let d = pos_of(&st)?.sub(hi).is_const()?;
                if d > u { r.exits.push(st); break; }
                if d == u && place(&st) == pl { if let Some(s) = crate::accel::clean_head(&st, self.cx) { if good(&s, self.cx) { r.next.push(s); break; } } }
            }
        }
        Some(r)
    }
    /// Long stretches of any length, one after the other, then up to two bytes of any kind.
    pub fn stretches(&mut self, func: FnId, n: &Lin, parts: &[(Vec<usize>, Vec<usize>)]) -> bool {
        self.cx.byte_menu = None;
        let mut ok = true;
        let inits = { let pre: Vec<usize> = vec![]; let _ = pre; let p0 = parts[0].clone(); let cs = class_sets();
            self.cx.byte_menu = Some(Rc::new(move |p: &Lin| { let Some(d) = p.is_const() else { return cs.to_vec() }; let d = d.max(0) as usize; let c = p0.0.get(d).copied().unwrap_or(p0.1[(d.saturating_sub(p0.0.len())) % p0.1.len()]); vec![cs[c]] }));
            self.initial(func, n, &[Con::Ge(n.addk(-20))]) };
        for (st, cid) in inits {
            let mut cur = st;
            for (i, (fixed, unit)) in parts.iter().enumerate() {
                let had = self.findings.len();
                let Some((g, exits)) = (0..4).find_map(|w| self.general(cur.clone(), cid, n, fixed, unit, w)) else { if self.findings.len() == had { ok = false; } break };
                let hi = match pos_of(&g) { Some(h) => h, None => { ok = false; break } };
                self.cx.byte_menu = None;
                for s in exits {
                    let mut s = s;
                    if s.assume(self.cx, &[Con::Ge(hi.addk(unit.len() as i128 + 4).sub(n))]) { self.exact(s, cid, 5000); }
                }
                if i + 1 == parts.len() {
                    let mut s = g;
                    let (t, a, b, c) = (std::time::Instant::now(), self.steps, self.paths, self.calls); if s.assume(self.cx, &[Con::Ge(hi.addk(3).sub(n))]) { self.exact(s, cid, 20_000); } if std::env::var("ACC").is_ok() { eprintln!("EXACT {:?} {:?} steps {} paths {} calls {}", parts, t.elapsed(), self.steps - a, self.paths - b, self.calls - c); }
                    break;
                }
                cur = g;
            }
        }
        self.cx.byte_menu = None;
        ok
    }
    /// The function returned: compare what it delivered, and call it again.
    pub fn returned(&mut self, st: State, cid: CalleeId, exact: bool) -> Vec<State> {
        let mut out = vec![];
        let mut stack = vec![st];
        while let Some(mut st) = stack.pop() {
            let Ghost::Lex(g) = &*st.ghost else { break };
            if g.out.is_empty() && !g.ended {
                let r = st.eq0(self.cx, &g.n.sub(&g.pos)).and_then(|e| if e { Ok(true) } else { st.byte_at(self.cx, &g.pos).map(|_| false) });
                match r {
                    Ok(true) => { let mut g = g.clone(); g.end(); st.ghost = Rc::new(Ghost::Lex(g)); stack.push(st); }
                    Ok(false) => { let p = g.pos.clone(); sync(&mut st, self.cx); if let Ghost::Lex(h) = &*st.ghost { if h.pos == p { self.miss("the reference tokenizer is stuck"); continue; } } stack.push(st); }
                    Err(f) => for a in f.0.iter() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } },
                }
                if stack.len() > 400 { self.miss("the reference tokenizer runs ahead"); return vec![]; }
                continue;
            }
            let mut g = g.clone();
            let want = if g.out.is_empty() { LTok::End } else { g.out.remove(0) };
            let got = self.got(&st);
            self.obligations += 1;
            let sim = |a: &Lin, b: &Lin| st.same_int(self.cx, a, b);
            let ok = match (&want, &got) {
                (LTok::End, Got::None) => true,
                (LTok::Nl, Got::Lit(s)) => s == "\n",
                (LTok::Nl, Got::Tok(a, b)) => sim(&a.addk(1), b) && st.bytes.iter().any(|(p, x)| sim(p, a) && st.sets[x] == BSet::of(|c| c == b'\n')),
                (LTok::Word(a, b), Got::Tok(c, d)) => sim(a, c) && sim(b, d),
                _ => false,
            };
            if let Some(w) = st.taint { self.miss(w); continue; }
            if !ok {
                if got == Got::Unknown { self.miss("a token of unknown content"); continue; }
                if !exact { return vec![]; }
                let f = &self.cx.prog.funcs[self.cx.prog.callees[cid].func.unwrap()];
                let at = format!("{} ({}:{})", f.name, f.file, f.line);
                let mut props = ALLP.to_vec();
                // a slice that does not lie between characters
                let mut extra = vec![];
                if let Got::Tok(a, b) = &got { for p in [a, b] { if let Some(k) = p.is_const() {
                    let e = vec![(k, BSet::of(|b| b & 0xc0 == 0x80))];
                    if extra.is_empty() && text(&st, self.cx, &e).is_some() { extra = e; }
                } } }
                if !extra.is_empty() { props.push(if self.unchecked { "C03" } else { "C01" }); }
                let gn = g.n.clone();
                let show = |t: &[u8], x: &Got| match x { Got::None => "the end".to_string(), Got::Lit(s) => format!("{:?}", s), Got::Tok(a, b) => match (at_len(a, &gn, t.len()), at_len(b, &gn, t.len())) { (Some(a), Some(b)) => format!("{:?} (bytes {} to {})", String::from_utf8_lossy(t.get(a as usize..b as usize).unwrap_or(b"?")), a, b), _ => "?".into() }, _ => "?".into() };
                let w = match &want { LTok::End => Got::None, LTok::Nl => Got::Lit("\n".into()), LTok::Word(a, b) => Got::Tok(a.clone(), b.clone()) };
                let Some(t) = text(&st, self.cx, &extra) else { if std::env::var("ACC").is_ok() { eprintln!("NOWIT want {:?} got {:?} facts {:?} runs {:?} bytes {:?}", want, got, st.facts, st.runs.iter().map(|r| (r.0.clone(), r.1.clone())).collect::<Vec<_>>(), st.bytes.iter().map(|b| b.0.clone()).collect::<Vec<_>>()); } self.miss("no witness"); continue };
                let d = vec![(vec!["token".to_string()], show(&t, &got), show(&t, &w))];
                if !extra.is_empty() { self.found(&st, "tokens", &["C03"], &at, "a token that is not a piece of the text between characters", d.clone(), &extra); }
                self.found(&st, "tokens", &props, &at, "", d, &extra);
                continue;
            }
            self.discharged += 1;
            if want == LTok::End {
                if g.last == Some((Lin::k(-1), Lin::k(-1))) { continue; }
                // once more: the end stays the end
                g.last = Some((Lin::k(-1), Lin::k(-1)));
            } else if let LTok::Word(a, b) = want { g.last = Some((a, b)); } else { g.last = None; }
            st.ghost = Rc::new(Ghost::Lex(g));
            self.enter(&mut st, cid);
            out.push(st);
        }
        out
    }
    pub fn found(&mut self, st: &State, kind: &str, props: &[&str], at: &str, detail: &str, diffs: Vec<(Vec<String>, String, String)>, extra: &[(i128, BSet)]) {
        use crate::json::*;
        let Some(t) = text(st, self.cx, extra) else { if std::env::var("ACC").is_ok() { eprintln!("NOWIT {} {} {} facts {:?} runs {:?} bytes {:?}", kind, detail, at, st.facts, st.runs.iter().map(|r| (r.0.clone(), r.1.clone())).collect::<Vec<_>>(), st.bytes.iter().map(|b| b.0.clone()).collect::<Vec<_>>()); } self.miss("no witness"); return };
        let n = self.kinds.entry(format!("{}{}{:?}", kind, detail, props)).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let inp = String::from_utf8_lossy(&t).to_string();
        self.findings.push(obj(&[("kind", s(kind)), ("input", s(&inp)), ("detail", s(detail)), ("at", s(at)), ("ctl", s("")), ("props", list(props.iter().map(|p| s(p)))),
            ("diffs", list(diffs.iter().map(|(p, g, w)| obj(&[("path", list(p.iter().map(|x| s(x)))), ("got", s(g)), ("want", s(w))]))))]));
    }
}

/// Shapes of long texts: a run of one kind of thing, then anything.
fn shapes() -> Vec<(&'static str, Vec<usize>, Vec<usize>)> {
    // classes: 0 other, 1 blank, 2 line feed, 3 carriage return, 4 hash
    vec![
        ("a long word", vec![], vec![0]), ("blanks", vec![], vec![1]), ("line feeds", vec![], vec![2]), ("carriage returns", vec![], vec![3]), ("hashes", vec![], vec![4]),
        ("a long comment", vec![4], vec![0]), ("a comment of blanks", vec![4], vec![1]), ("line ends of two bytes", vec![], vec![3, 2]), ("short words", vec![], vec![0, 1]), ("words on lines", vec![], vec![0, 2]),
        ("comment lines", vec![], vec![4, 0, 2]), ("words before comments", vec![], vec![0, 4, 3, 2]), ("blank lines", vec![], vec![1, 2]), ("words after blanks", vec![0], vec![1]), ("a word, then a comment", vec![0, 4], vec![0]),
    ]
}

pub fn analyse(cx: &mut Cx, func: FnId, thorough: bool, reach: usize) -> Option<String> {
    use crate::json::*;
    let t0 = std::time::Instant::now();
    let n = Lin::atom(cx.fresh(true));
    let mut r = LexRun::new(cx);
    r.deadline = t0 + std::time::Duration::from_secs(if thorough { 2400 } else { 90 });
    let mut bound = 0;
    let mut longest = 0;
    let mut general = 0;
    let mut site = vec![];
    {
        // all texts up to some length
        bound = if thorough { 20 } else { 12 };
        for k in [2, bound] {
            for (st, cid) in r.initial(func, &n, &[Con::Ge(Lin::k(k as i128).sub(&n))]) {
                let f = &r.cx.prog.funcs[r.cx.prog.callees[cid].func.unwrap()];
                let x = format!("{} ({}:{})", f.name, f.file, f.line);
                if !site.contains(&x) { site.push(x); }
                r.exact(st, cid, 4_000_000);
            }
        }
        // stretches of any length
        let one = |a: &[usize], b: &[usize]| (a.to_vec(), b.to_vec());
        let mut chains: Vec<Vec<(Vec<usize>, Vec<usize>)>> = shapes().into_iter().map(|(_, a, b)| vec![(a, b)]).collect();
        chains.extend([
            vec![one(&[], &[1]), one(&[], &[0])], vec![one(&[], &[0]), one(&[], &[1])], vec![one(&[], &[2]), one(&[], &[0])], vec![one(&[], &[0]), one(&[], &[2])], vec![one(&[], &[2]), one(&[], &[1])],
            vec![one(&[4], &[0]), one(&[2], &[0])], vec![one(&[4], &[0]), one(&[2, 4], &[0])], vec![one(&[], &[0]), one(&[4], &[0])], vec![one(&[], &[0]), one(&[1], &[0])], vec![one(&[], &[0]), one(&[3, 2], &[0])],
            vec![one(&[], &[1]), one(&[], &[2]), one(&[], &[1]), one(&[], &[0])], vec![one(&[], &[0]), one(&[], &[1]), one(&[4], &[1]), one(&[3], &[2])],
        ]);
        let end = r.deadline;
        let lim = t0.elapsed() + std::time::Duration::from_secs(if thorough { 600 } else { 20 });
        for c in &chains {
            if r.findings.len() >= 12 || std::time::Instant::now() > end.min(t0 + lim) { break; }
            r.deadline = end.min(t0 + lim).min(std::time::Instant::now() + std::time::Duration::from_secs(if thorough { 60 } else { 2 }));
            if r.stretches(func, &n, c) { general += 1; } else { if std::env::var("ACC").is_ok() { eprintln!("FAILED {:?}", c); } r.miss("a stretch of any length was not generalised"); }
        }
        r.deadline = end;
        // long texts of some shapes
        let cs = class_sets();
        let mut ms = [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, reach.min(300)].into_iter().filter(|m| *m <= reach.max(65)).collect::<Vec<_>>();
        for k in crate::numbers(r.cx.prog, &r.funcs, if thorough { 20_000 } else { 5000 }) { ms.extend([k - 1, k, k + 1]); }
        ms.sort();
        ms.dedup();
        for (_, pre, unit) in shapes() {
            for m in ms.iter().copied() {
                if r.findings.len() >= 12 || std::time::Instant::now() > r.deadline { break; }
                if !r.findings.is_empty() { r.deadline = r.deadline.min(t0 + std::time::Duration::from_secs(if thorough { 600 } else { 45 })); }
                let (pre2, unit2) = (pre.clone(), unit.clone());
                r.cx.byte_menu = Some(Rc::new(move |p: &Lin| {
                    let Some(k) = p.is_const() else { return cs.to_vec() };
                    let k = k as usize;
                    if k < pre2.len() { vec![cs[pre2[k]]] } else if k < pre2.len() + m { vec![cs[unit2[(k - pre2.len()) % unit2.len()]]] } else { cs.to_vec() }
                }));
                let len = (pre.len() + m) as i128;
                longest = longest.max(len + 2);
                for (st, cid) in r.initial(func, &n, &[Con::Ge(n.addk(-len)), Con::Ge(Lin::k(len + 2).sub(&n))]) { r.exact(st, cid, 200_000); }
            }
        }
        r.cx.byte_menu = None;
    }
    let num = |x: usize| x.to_string();
    let mut fns: Vec<&str> = r.funcs.iter().filter(|f| r.cx.prog.funcs[**f].local).map(|f| r.cx.prog.funcs[*f].name.as_str()).collect();
    fns.sort();
    Some(obj(&[("what", s("tokenization of a text of symbolic bytes")), ("wall", format!("{:.2}", t0.elapsed().as_secs_f64())), ("findings", list(r.findings.iter().cloned())),
        ("obligations", num(r.obligations)), ("discharged", num(r.discharged)), ("steps", num(r.steps)), ("ends", num(r.paths)), ("expanded", num(r.calls)), ("merged", num(r.merged)), ("all_texts_up_to", num(bound)), ("longest_text", longest.to_string()), ("general", general.to_string()),
        ("functions", list(fns.iter().map(|f| s(f)))), ("sites", list(site.iter().map(|f| s(f)))),
        ("why", obj(&r.why.iter().map(|(k, v)| (k.as_str(), num(*v))).collect::<Vec<_>>())),
        ("notes", obj(&r.cx.notes.iter().map(|(k, v)| (k.as_str(), num(*v))).collect::<Vec<_>>()))]))
}
