//! Exploration of the abstract state space: a worklist of abstract states at the points
//! where the code asks for a token, partitioned by control and shape.
use crate::cv::*;
use crate::interp::*;
use crate::ir::*;
use crate::plans::{Script, Tree};
use crate::spec::Choice;
use crate::val::*;
use crate::witness;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BinaryHeap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Finding {
    /// "panic", "hang" or "result"
    pub kind: &'static str,
    pub input: String,
    /// where in the result, what the code gives, what is prescribed
    pub diffs: Vec<(Vec<String>, String, String)>,
    pub detail: String,
    pub at: String,
    /// what the reference semantics was in the middle of
    pub ctl: String,
}

impl Finding {
    /// What sort of finding it is.
    fn class(&self) -> (&'static str, String, String, Vec<String>) {
        let ds = self.diffs.iter().map(|(p, g, w)| {
            let head = |x: &str| x.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("").trim_matches(|c: char| c.is_ascii_digit()).to_string();
            let names: Vec<String> = p.iter().map(|x| if x.starts_with('[') { if x == "[0]" { "[0]".into() } else { "[]".into() } } else { x.clone() }).collect();
            format!("{} {} {}", names.join("."), head(g), head(w))
        }).collect();
        (self.kind, self.detail.clone(), self.ctl.split(|c: char| !c.is_ascii_alphabetic()).next().unwrap_or("").to_string(), ds)
    }
    pub fn json(&self) -> String {
        use crate::json::*;
        obj(&[("kind", s(self.kind)), ("input", s(&self.input)), ("detail", s(&self.detail)), ("at", s(&self.at)), ("ctl", s(&self.ctl)),
            ("diffs", list(self.diffs.iter().map(|(p, g, w)| obj(&[("path", list(p.iter().map(|x| s(x)))), ("got", s(g)), ("want", s(w))]))))])
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub expanded: usize,
    pub steps: usize,
    pub ends: usize,
    pub matched: usize,
    pub undecided: usize,
    pub tainted: usize,
    pub dropped: usize,
    pub left: usize,
    pub max_len: usize,
    pub funcs: HashSet<FnId>,
    pub blocks: HashSet<(FnId, usize)>,
    pub why: HashMap<String, usize>,
}

pub struct Limits { pub states: usize, pub seconds: f64, pub len: usize, pub clamp: i128, pub findings: usize, pub per_key: usize }

struct Item { prio: (usize, usize), st: State }
impl PartialEq for Item { fn eq(&self, o: &Item) -> bool { self.prio == o.prio } }
impl Eq for Item {}
impl PartialOrd for Item { fn partial_cmp(&self, o: &Item) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Item { fn cmp(&self, o: &Item) -> std::cmp::Ordering { o.prio.cmp(&self.prio) } }

fn skel(st: &State, v: &V, cl: i128, h: &mut DefaultHasher) {
    match v {
        V::Undef => 0u8.hash(h),
        V::Top => 1u8.hash(h),
        V::Int(l) => match l.is_const() { Some(c) => (2u8, c.clamp(-2, cl)).hash(h), None => 3u8.hash(h) },
        V::Bool(b) => (4u8, b).hash(h),
        V::Float(_) => 5u8.hash(h),
        V::S(p) => {
            (6u8, p.len().min(3)).hash(h);
            if let [Piece::Tok(t)] = &p[..] {
                let f = st.sf(*t);
                (f.lit.clone(), f.int, f.flt, f.parts.as_ref().map(|p| p.len()), f.ask).hash(h);
            } else if let [Piece::Lit(l)] = &p[..] { l.hash(h); }
        }
        V::Agg(n, f) => { (7u8, n).hash(h); for x in f.iter() { skel(st, x, cl, h); } }
        V::CRef(x) => { 8u8.hash(h); skel(st, x, cl, h); }
        V::MRef(l) => (9u8, l.depth, l.local).hash(h),
        V::Seq(s) => {
            (10u8, s.len().is_const().map(|c| c.min(cl))).hash(h);
            if let Some(Seg::El(x)) = s.segs.last() { skel_flat(st, x, h); }
        }
        V::Fn(c) => (11u8, c).hash(h),
        V::Sel(..) => 12u8.hash(h),
    }
}
/// Only variants (what a sequence holds matters less than that it holds something).
fn skel_flat(st: &State, v: &V, h: &mut DefaultHasher) {
    match v {
        V::Agg(n, f) => { n.hash(h); for x in f.iter() { skel_flat(st, x, h); } }
        V::Bool(b) => b.hash(h),
        V::CRef(x) => skel_flat(st, x, h),
        V::Seq(s) => s.len().is_const().map(|c| c.min(2)).hash(h),
        _ => {}
    }
}

pub fn key(st: &State, cx: &Cx, cl: i128) -> u64 {
    let mut h = DefaultHasher::new();
    st.ghost.key(&mut h);
    st.taint.is_some().hash(&mut h);
    st.pending.hash(&mut h);
    for fr in &st.frames {
        (fr.func, fr.bb, fr.si).hash(&mut h);
        let blk = &cx.prog.funcs[fr.func].blocks[fr.bb];
        if let Tm::Call { dest, target: Some(t), .. } = &blk.tm {
            let live = &cx.prog.funcs[fr.func].blocks[*t].live_in;
            for (i, v) in fr.locals.iter().enumerate() {
                let l = live.get(i).copied().unwrap_or(true);
                if !l || (i == dest.local && dest.proj.is_empty()) { continue; }
                i.hash(&mut h);
                skel(st, v, cl, &mut h);
            }
        }
    }
    h.finish()
}

pub fn here(st: &State, cx: &Cx) -> String {
    for fr in st.frames.iter().rev() {
        let f = &cx.prog.funcs[fr.func];
        if f.local {
            let b = &f.blocks[fr.bb];
            let line = if fr.si < b.st.len() { b.st[fr.si].1 } else { b.tm_line };
            return format!("{} ({}:{})", f.name, f.file, line);
        }
    }
    String::new()
}

/// The calls within the crate under which a state is, outermost first.
pub fn calls(st: &State, cx: &Cx) -> Vec<(FnId, usize)> {
    let mut out = vec![];
    for fr in &st.frames {
        let f = &cx.prog.funcs[fr.func];
        if !f.local { continue; }
        let b = &f.blocks[fr.bb];
        out.push((fr.func, (if fr.si < b.st.len() { b.st[fr.si].1 } else { b.tm_line }) as usize));
    }
    out
}

/// The path through the call graph under which the last word was read.
pub fn last_read(st: &State, cx: &Cx) -> String {
    let Some(t) = &st.trace else { return String::new() };
    // not the functions that only hand out words
    let file = t.at.last().map(|(f, _)| cx.prog.funcs[*f].file.clone());
    let outer: Vec<_> = t.at.iter().filter(|(f, _)| Some(&cx.prog.funcs[*f].file) != file.as_ref()).copied().collect();
    let at = if outer.is_empty() { &t.at } else { &outer };
    let p: Vec<String> = at.iter().rev().take(4).map(|(f, l)| { let f = &cx.prog.funcs[*f]; format!("{} ({}:{})", f.name, f.file, l) }).collect();
    p.join(" called from ")
}

pub type Pos = (usize, FnId, usize);
/// The loop heads passed on the way to a state.
#[derive(Clone, Default)]
struct Hist { at: HashMap<Pos, (usize, Rc<Vec<State>>, usize)>, clock: usize, failed: Vec<Pos> }
impl Hist {
    /// Three successive states at this head, if the rounds were case splits.
    fn visit(&mut self, pos: Pos, st: &State) -> Option<[State; 3]> {
        self.clock += 1;
        if self.failed.contains(&pos) { return None; }
        let since = self.at.get(&pos).map_or(0, |x| x.0);
        // loops inside this one start afresh
        if since > 0 { self.at.retain(|p, x| *p == pos || x.0 < since); }
        let e = self.at.entry(pos).or_default();
        e.0 = self.clock;
        let v = Rc::make_mut(&mut e.1);
        v.push(st.clone());
        if v.len() > 3 { v.remove(0); }
        e.2 += 1;
        if v.len() < 3 || self.clock < 5 { return None; }
        // a round without a case split goes the same way for a long time, or ends soon
        if (v[0].facts.len() == v[1].facts.len() || v[1].facts.len() == v[2].facts.len()) && (e.2 % 16 != 0 || e.2 > 64) { return None; }
        Some([v[0].clone(), v[1].clone(), v[2].clone()])
    }
}

pub struct Explorer<'a, 'p> {
    pub cx: &'a mut Cx<'p>,
    pub lim: Limits,
    pub stats: Stats,
    pub findings: Vec<Finding>,
    hits: usize,
    heap: BinaryHeap<Item>,
    seen: HashMap<u64, usize>,
    seq: usize,
    ret_ty: TyId,
    /// where states that want a token are put while a script is followed
    basket: Option<Vec<State>>,
    /// how many case splits a stretch between two words may still have
    budget: Option<usize>,
    pub general: usize,
    pub deadline: Option<Instant>,
}

/// Does the analysis use too much memory (looked at now and then)?
pub fn heavy() -> bool {
    use std::sync::atomic::*;
    static N: AtomicUsize = AtomicUsize::new(0);
    static H: AtomicBool = AtomicBool::new(false);
    if N.fetch_add(1, Ordering::Relaxed) % 64 == 0 {
        if let Ok(t) = std::fs::read_to_string("/proc/self/statm") {
            if t.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()).is_some_and(|p| p > 3 << 18) { H.store(true, Ordering::Relaxed); }
        }
    }
    H.load(Ordering::Relaxed)
}

impl<'a, 'p> Explorer<'a, 'p> {
    pub fn new(cx: &'a mut Cx<'p>, lim: Limits, ret_ty: TyId) -> Self {
        Explorer { cx, lim, stats: Stats::default(), findings: vec![], hits: 0, heap: BinaryHeap::new(), seen: HashMap::new(), seq: 0, ret_ty, basket: None, budget: None, general: 0, deadline: None }
    }
    fn enqueue(&mut self, st: State) {
        let k = key(&st, self.cx, self.lim.clamp);
        let n = self.seen.entry(k).or_insert(0);
        *n += 1;
        let many = *n > self.lim.per_key;
        let len = st.trace.as_ref().map_or(0, |t| t.len);
        if many || len > self.lim.len {
            if many { self.stats.dropped += 1; } else { self.stats.left += 1; }
            // not followed further, but what it holds is still compared
            if *n <= self.lim.per_key + 200 { self.finish(st); }
            return;
        }
        self.seq += 1;
        self.heap.push(Item { prio: (len, self.seq), st });
    }
    pub fn run(&mut self, init: State) {
        let t0 = Instant::now();
        self.segment(init);
        while let Some(it) = self.heap.pop() {
            if self.stats.expanded >= self.lim.states || t0.elapsed().as_secs_f64() > self.lim.seconds || self.enough() || heavy() {
                self.stats.left += self.heap.len() + 1;
                break;
            }
            self.stats.expanded += 1;
            let mut st = it.st;
            self.stats.max_len = self.stats.max_len.max(st.trace.as_ref().map_or(0, |t| t.len));
            st.fetched = true;
            self.segment(st);
        }
    }
    fn finish(&mut self, mut st: State) {
        st.finishing = true;
        st.fetched = true;
        self.segment(st);
    }
    fn advance(&mut self, st: State) -> Vec<State> {
        self.basket = Some(vec![]);
        self.segment(st);
        self.basket.take().unwrap()
    }
    fn deliver(&mut self, cur: Vec<State>, c: &Choice) -> Vec<State> {
        let mut out = vec![];
        for mut s in cur {
            let cs = c.cons(self.cx);
            if !s.assume(self.cx, &cs) { continue; }
            s.fetched = true;
            out.extend(self.advance(s));
            if out.len() > (if self.budget.is_some() { 30 } else { 6 }) { self.stats.left += 1; break; }
        }
        out
    }
    /// Follow one kind of repetition: after every so many repetitions, how the input ends in
    /// each of several ways.
    pub fn script(&mut self, init: State, sc: &Script, n: usize) {
        let mut cur = self.advance(init);
        for c in &sc.prefix { cur = self.deliver(cur, c); }
        for i in 0..=n {
            if self.enough() { return; }
            self.stats.expanded += cur.len();
            if i <= 20 || i == n || (i + 2).is_power_of_two() || (i + 1).is_power_of_two() || i.is_power_of_two() || (i - 1).is_power_of_two() || (i - 2).is_power_of_two() {
                if self.late() { return; }
                for s in cur.clone() { self.finish(s); }
                for suf in &sc.suffixes {
                    let mut x = cur.clone();
                    for c in suf { x = self.deliver(x, c); }
                    for s in x { self.finish(s); }
                }
            }
            if i < n { for c in &sc.unit { cur = self.deliver(cur, c); } }
            if cur.is_empty() { break; }
            self.stats.max_len = self.stats.max_len.max(cur[0].trace.as_ref().map_or(0, |t| t.len));
        }
    }
    fn late(&self) -> bool { self.deadline.is_some_and(|d| Instant::now() > d) || heavy() }
    /// Any number of repetitions: true if the general state was found and confirmed.
    pub fn accelerate(&mut self, init: State, sc: &Script) -> bool {
        self.budget = Some(2000);
        let r = self.accelerate1(init, sc).is_some();
        self.budget = None;
        if r { self.general += 1; } else { *self.stats.why.entry(format!("no general state for: {}", sc.name)).or_insert(0) += 1; }
        r
    }
    fn unit(&mut self, mut cur: Vec<State>, u: &[Choice]) -> Vec<State> { for c in u { cur = self.deliver(cur, c); } cur }
    fn accelerate1(&mut self, init: State, sc: &Script) -> Option<()> {
        let mut cur = self.advance(init);
        for c in &sc.prefix { cur = self.deliver(cur, c); }
        let (g, exits) = self.any_number(cur, &sc.unit, sc.name)?;
        for s in std::iter::once(g).chain(exits) {
            if self.late() || self.enough() { return Some(()); }
            self.finish(s.clone());
            for suf in &sc.suffixes {
                let x = self.unit(vec![s.clone()], suf);
                for s in x { self.finish(s); }
            }
        }
        Some(())
    }
    /// The state after any number of repetitions of a unit, and the states in which the
    /// repetition is left.
    fn any_number(&mut self, mut cur: Vec<State>, unit: &[Choice], name: &str) -> Option<(State, Vec<State>)> {
        use crate::accel::*;
        use crate::lin::Lin;
        let mut hist = vec![];
        for i in 0..=5 {
            if cur.len() != 1 { return None; }
            if i >= 3 { hist.push(clean(&cur[0], self.cx)?); }
            if i < 5 { cur = self.unit(cur, unit); }
        }
        if hist[0].facts != hist[2].facts { return None; }
        let a = self.cx.fresh(true);
        let mut g = generalise(&hist[0], &hist[1], &hist[2], &Lin::atom(a))?;
        if !g.assume(self.cx, &[Con::Ge(Lin::atom(a))]) { return None; }
        let toks = witness::tokens(&hist[1].trace, hist[0].trace.as_ref().map_or(0, |t| t.len));
        self.cx.weight.insert(a, toks.len().max(1) as i128);
        let t0 = hist[0].trace.clone();
        g.trace = Some(Rc::new(Trace { ev: Ev::Rep(Rc::new(toks), Lin::atom(a)), len: t0.as_ref().map_or(0, |t| t.len) + 1, at: hist[2].trace.as_ref().map(|t| t.at.clone()).unwrap_or_default(), prev: t0 }));
        let mut exits = vec![];
        for pass in 0..2 {
            let (had, hits, lost) = (self.findings.len(), self.hits, (self.stats.tainted, self.stats.ends, self.stats.left));
            let outs = self.unit(vec![g.clone()], unit);
            let mut next = vec![];
            exits.clear();
            for o in outs { match clean(&o, self.cx) { Some(s) if is_next(&g, &s, a) => next.push(s), _ => exits.push(o) } }
            // a special case somewhere in the middle: what goes before it
            if next.len() > 1 && pass == 0 { next.retain(|s| s.facts.iter().filter(|f| !g.facts.contains(f) && !g.entails(self.cx, f)).all(|f| f.t.len() == 1 && f.t[0].0 == a && f.t[0].1 < 0)); }
            if std::env::var("ACC").is_ok() { eprintln!("{} pass {}: {} next, {} other; {:?}", name, pass, next.len(), exits.len(), next.iter().map(|s| s.facts.iter().filter(|f| !g.facts.contains(f)).collect::<Vec<_>>()).collect::<Vec<_>>()); }
            // all cases together are one more repetition, whatever the case
            if next.len() > 1 && exits.is_empty() && (self.stats.tainted, self.stats.ends, self.stats.left) == lost { break; }
            if next.len() != 1 { self.findings.truncate(had); self.hits = hits; return None; }
            let new: Vec<Lin> = next[0].facts.iter().filter(|f| !g.facts.contains(f) && !g.entails(self.cx, f)).cloned().collect();
            // for how many repetitions it goes on like this: a bound from above
            if new.iter().any(|f| f.t.len() != 1 || f.t[0].0 != a || f.t[0].1 >= 0) { self.findings.truncate(had); self.hits = hits; return None; }
            if new.is_empty() || pass == 1 { break; }
            self.findings.truncate(had); self.hits = hits;
            for f in new { if !g.assume(self.cx, &[Con::Ge(f.subst(&mut |x| if x == a { Some(Lin::atom(a).addk(-1)) } else { None }))]) { return None; } }
        }
        Some((g, exits))
    }
    /// From a state reached in several steps, some of them repeated any number of times: every
    /// sequence of so many of the given pieces, each followed by each of the tails.
    pub fn tree(&mut self, init: State, t: &Tree) {
        self.budget = if t.base.iter().any(|b| b.1) { Some(2000) } else { None };
        let mut cur = self.advance(init);
        for (words, many) in &t.base {
            if *many {
                match self.any_number(cur, words, t.name) {
                    Some((g, exits)) => { for s in exits { self.finish(s); } self.general += 1; cur = vec![g]; }
                    None => { *self.stats.why.entry(format!("no general state for: {}", t.name)).or_insert(0) += 1; self.budget = None; return; }
                }
            } else { cur = self.unit(cur, words); }
        }
        self.branch(cur, t, t.depth);
        self.budget = None;
    }
    fn branch(&mut self, cur: Vec<State>, t: &Tree, depth: usize) {
        if self.late() || self.enough() { self.stats.left += 1; return; }
        self.stats.expanded += cur.len();
        for s in &cur { self.stats.max_len = self.stats.max_len.max(s.trace.as_ref().map_or(0, |t| t.len)); self.finish(s.clone()); }
        for w in &t.tails { for s in self.unit(cur.clone(), w) { self.finish(s); } }
        if depth == 0 { return; }
        for w in &t.pieces { let x = self.unit(cur.clone(), w); if !x.is_empty() { self.branch(x, t, depth - 1); } }
    }
    /// Any number of rounds of a loop, from three successive states at its head: the states in
    /// which it is left.
    fn any_rounds(&mut self, a: &State, b: &State, c: &State, pos: Pos) -> Option<Vec<State>> {
        use crate::accel::*;
        use crate::lin::Lin;
        let (a, b, c) = (clean_head(a, self.cx)?, clean_head(b, self.cx)?, clean_head(c, self.cx)?);
        let k = self.cx.fresh(true);
        let mut g = generalise(&a, &b, &c, &Lin::atom(k))?;
        if !g.assume(self.cx, &[Con::Ge(Lin::atom(k))]) { return None; }
        for pass in 0..2 {
            let (outs, mut exits, ends) = self.round(g.clone(), pos)?;
            let mut next = vec![];
            for o in outs { let s = clean_head(&o, self.cx)?; if is_next(&g, &s, k) { next.push(s); } else { exits.push(o); } }
            if next.len() != 1 { return None; }
            let new: Vec<Lin> = next[0].facts.iter().filter(|f| !g.facts.contains(f) && !g.entails(self.cx, f)).cloned().collect();
            if new.iter().any(|f| f.coef(k) > 0) { return None; }
            if new.is_empty() || pass == 1 {
                for (s, kind, m) in ends { self.end(&s, kind, m); }
                return Some(exits);
            }
            for f in new { if !g.assume(self.cx, &[Con::Ge(f.subst(&mut |x| if x == k { Some(Lin::atom(k).addk(-1)) } else { None }))]) { return None; } }
        }
        None
    }
    /// One round of a loop: states at its head again, states outside of it, and ends.
    #[allow(clippy::type_complexity)]
    fn round(&mut self, g: State, pos: Pos) -> Option<(Vec<State>, Vec<State>, Vec<(State, &'static str, String)>)> {
        let (mut next, mut exits, mut ends) = (vec![], vec![], vec![]);
        let body = crate::accel::reaches(&self.cx.prog.funcs[pos.1], pos.2);
        let (mut stack, mut forks, mut n) = (vec![g], 0, 0);
        while let Some(mut st) = stack.pop() {
            loop {
                n += 1;
                self.stats.steps += 1;
                if n > 100_000 || st.taint.is_some() { return None; }
                {
                    let t = st.top();
                    if t.si == 0 { self.stats.blocks.insert((t.func, t.bb)); if t.bb == 0 { self.stats.funcs.insert(t.func); } }
                }
                match step(&mut st, self.cx) {
                    Ok(f @ (Flow::Next | Flow::Head)) => {
                        let head = matches!(f, Flow::Head);
                        if head { prune(&mut st, self.cx); }
                        let d = st.frames.len() - 1;
                        let t = st.top();
                        if head && (d, t.func, t.bb) == pos { next.push(st); break; }
                        if d < pos.0 || (d == pos.0 && !body.contains(&t.bb)) { exits.push(st); break; }
                    }
                    Ok(Flow::Panic(m)) => { ends.push((st, "panic", m)); break; }
                    Ok(Flow::Dead) => break,
                    Ok(Flow::Done(_) | Flow::Many(_)) => return None,
                    Err(f) => {
                        if f.1 == "fetch" { return None; }
                        forks += 1;
                        if forks > 40 { return None; }
                        for a in f.0.iter().rev() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } }
                        break;
                    }
                }
            }
        }
        Some((next, exits, ends))
    }
    /// Follow a state up to the next requests for a token, or the end.
    fn segment(&mut self, st: State) {
        let mut stack = vec![(st, Hist::default())];
        let mut forks = 0;
        while let Some((mut st, mut hist)) = stack.pop() {
            if self.late() { self.stats.left += 1; continue; }
            let mut n = 0usize;
            let mut heads: HashMap<u64, Vec<Vec<Rc<Frame>>>> = HashMap::new();
            loop {
                n += 1;
                self.stats.steps += 1;
                if n > 3_000_000 && self.budget.is_none() && st.taint.is_none() && st.trace.as_ref().map_or(0, |t| t.len) < 300 {
                    self.end(&st, "hang", "no end in sight after three million steps".into());
                    break;
                }
                if n > 400_000 && (self.budget.is_some() || st.taint.is_some() || st.trace.as_ref().map_or(0, |t| t.len) >= 300) { self.stats.tainted += 1; *self.stats.why.entry(format!("too many steps at {}", here(&st, self.cx))).or_insert(0) += 1; break; }
                {
                    let t = st.top();
                    if t.si == 0 { self.stats.blocks.insert((t.func, t.bb)); if t.bb == 0 { self.stats.funcs.insert(t.func); } }
                }
                match step(&mut st, self.cx) {
                    Ok(Flow::Next) => {}
                    Ok(Flow::Head) => {
                        prune(&mut st, self.cx);
                        if self.budget.is_some() && st.taint.is_none() {
                            let pos = { let t = st.top(); (st.frames.len() - 1, t.func, t.bb) };
                            if let Some([a, b, c]) = hist.visit(pos, &st) {
                                match self.any_rounds(&a, &b, &c, pos) {
                                    Some(ss) => { for s in ss { stack.push((s, Hist::default())); } break; }
                                    None => { hist.failed.push(pos); }
                                }
                            }
                        }
                        if n > 2000 {
                            // the same state at the same loop head, with nothing decided in between
                            let mut h = DefaultHasher::new();
                            for f in &st.frames { (f.func, f.bb, f.si).hash(&mut h); }
                            let e = heads.entry(h.finish()).or_default();
                            if e.len() < 40 {
                                if e.iter().any(|x| *x == st.frames) {
                                    self.end(&st, "hang", String::new());
                                    break;
                                }
                                e.push(st.frames.clone());
                            }
                        }
                    }
                    Ok(Flow::Done(v)) => { self.done(st, v); break; }
                    Ok(Flow::Panic(m)) => { self.end(&st, "panic", m); break; }
                    Ok(Flow::Dead) => { if let Some(w) = st.taint { *self.stats.why.entry(w.to_string()).or_insert(0) += 1; } break; }
                    Ok(Flow::Many(ss)) => { for s in ss { stack.push((s, hist.clone())); } break; }
                    Err(f) => {
                        if f.1 == "fetch" {
                            if st.taint.is_some() { self.stats.tainted += 1; *self.stats.why.entry(st.taint.unwrap().to_string()).or_insert(0) += 1; break; }
                            if st.finishing { st.fetched = true; continue; }
                            if let Some(b) = &mut self.basket { b.push(st); } else { self.enqueue(st); }
                            break;
                        }
                        forks += 1;
                        if self.budget.is_some_and(|b| forks > b) { self.stats.tainted += 1; *self.stats.why.entry(format!("too many cases at {}", here(&st, self.cx))).or_insert(0) += 1; stack.clear(); break; }
                        for a in f.0.iter().rev() {
                            let mut s = st.clone();
                            if s.assume(self.cx, a) { stack.push((s, hist.clone())); }
                        }
                        break;
                    }
                }
            }
        }
    }
    fn enough(&self) -> bool { self.hits >= self.lim.findings }
    /// Keep a few findings of each sort, so that a frequent one does not hide another.
    fn record(&mut self, f: Finding) {
        self.hits += 1;
        let c = f.class();
        if self.findings.iter().filter(|g| g.class() == c).count() < 3 { self.findings.push(f); }
    }
    fn end(&mut self, st: &State, kind: &'static str, detail: String) {
        self.stats.ends += 1;
        if st.taint.is_some() { self.stats.undecided += 1; *self.stats.why.entry(format!("{} after: {}", kind, st.taint.unwrap())).or_insert(0) += 1; return; }
        match witness::witness(st, self.cx) {
            Some(w) => { let f = Finding { kind, input: witness::render(&w), diffs: vec![], detail, at: here(st, self.cx), ctl: st.ghost.ctl() }; self.record(f) }
            None => { self.stats.undecided += 1; *self.stats.why.entry(format!("no witness for {} at {}: {}", kind, here(st, self.cx), detail)).or_insert(0) += 1; }
        }
    }
    fn done(&mut self, st: State, v: V) {
        self.stats.ends += 1;
        let mut stack = vec![st];
        let mut splits = 0;
        while let Some(st) = stack.pop() {
            let g = st.ghost.clone();
            let want = match g.outcome(&st, self.cx) {
                Ok(t) => t,
                Err(f) => { for a in f.0.iter() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } } continue; }
            };
            let got = tree(&st, self.cx, &v, self.ret_ty);
            let mut ds = vec![];
            diff(&st, self.cx, &got, &want, &mut vec![], &mut ds);
            if ds.is_empty() { self.stats.matched += 1; continue; }
            if let Some(DiffK::Split(l)) = ds.iter().map(|d| &d.what).find(|d| matches!(d, DiffK::Split(_))) {
                splits += 1;
                if splits < 40 { for c in [Con::Ge(l.clone()), Con::Ge(l.neg().addk(-1))] { let mut s = st.clone(); if s.assume(self.cx, &[c]) { stack.push(s); } } continue; }
            }
            if st.taint.is_some() { self.stats.undecided += 1; *self.stats.why.entry(st.taint.unwrap().to_string()).or_insert(0) += 1; continue; }
            let mut found = false;
            for d in &ds {
                let tries: Vec<Vec<Con>> = match &d.what {
                    DiffK::Unknown | DiffK::Split(_) => continue,
                    DiffK::Other => vec![vec![]],
                    DiffK::Int(l) => vec![vec![Con::Ge(l.addk(-1))], vec![Con::Ge(l.neg().addk(-1))]],
                };
                for c in tries {
                    let mut s = st.clone();
                    if !s.assume(self.cx, &c) { continue; }
                    // several sets of words: some differences show only with long ones, or capitals
                    let prefs: &[usize] = if d.flt || !s.fcons.is_empty() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47] } else if d.str { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15] } else { &[0] };
                    let mut hit = None;
                    for &pref in prefs {
                        let Some(w) = witness::witness_pref(&s, self.cx, pref) else { if s.fcons.is_empty() && pref > 3 { break } else { continue } };
                        let (x, y) = (eval(&got, &w), eval(&want, &w));
                        let mut out = vec![];
                        cdiff(&x, &y, &mut vec![], &mut out);
                        if !out.is_empty() { hit = Some((w, out)); break; }
                    }
                    if let Some((w, out)) = hit {
                        let f = Finding { kind: "result", input: witness::render(&w), diffs: out, detail: String::new(), at: last_read(&s, self.cx), ctl: g.ctl() };
                        self.record(f);
                        found = true;
                        break;
                    }
                }
                if found { break; }
            }
            if !found { self.stats.undecided += 1; *self.stats.why.entry(format!("unconfirmed difference at {}", ds[0].path.join("."))).or_insert(0) += 1; }
        }
    }
}
