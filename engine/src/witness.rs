//! Choosing a concrete input out of an abstract state.
use crate::interp::fcmp;
use crate::ir::Bin;
use crate::lin::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default, Debug)]
pub struct Wit { pub ints: BTreeMap<Atom, i128>, pub text: BTreeMap<StrId, String>, pub order: Vec<StrId>, pub flts: BTreeMap<Atom, f64>, /// which of the usual numbers to prefer
    pub pref: usize }

/// The functions of floats that are known.
pub const FUNCS: [&str; 17] = ["abs", "min", "max", "floor", "ceil", "round", "trunc", "signum", "copysign", "sqrt", "fract", "recip", "to_radians", "to_degrees", "mul_add", "hypot", "clamp"];

impl Wit {
    pub fn float(&self, f: &Fl) -> Option<f64> {
        Some(match f {
            Fl::C(b) => f64::from_bits(*b),
            Fl::Parse(s) => self.text.get(s)?.parse::<f64>().ok()?,
            Fl::Name(a) => match self.flts.get(a) {
                Some(x) => *x,
                None => { let d = 1.1234567890123 * (*a as f64) - 7.0; [d, 0.0, 1.0, -0.0, 1e21, 1.5e-9, -1.0, f64::INFINITY, f64::NAN, f64::MAX, d.round(), 0.5, 2.0, -d, f64::NEG_INFINITY, 1e-300, 100.0, 1e16][self.pref % 18] }
            },
            Fl::Neg(x) => -self.float(x)?,
            Fl::R32(x) => self.float(x)? as f32 as f64,
            Fl::F(n, v) => {
                let mut a = [0.0; 3];
                for (i, x) in v.iter().enumerate().take(3) { a[i] = self.float(x)?; }
                let [x, y, z] = a;
                match *n {
                    "abs" => x.abs(), "min" => x.min(y), "max" => x.max(y), "floor" => x.floor(), "ceil" => x.ceil(), "round" => x.round(), "trunc" => x.trunc(), "signum" => x.signum(), "copysign" => x.copysign(y), "sqrt" => x.sqrt(), "fract" => x.fract(), "recip" => x.recip(), "to_radians" => x.to_radians(), "to_degrees" => x.to_degrees(), "mul_add" => x.mul_add(y, z), "hypot" => x.hypot(y),
                    "clamp" => if y <= z { x.clamp(y, z) } else { return None },
                    _ => return None,
                }
            }
            Fl::Op(o) => {
                let (x, y) = (self.float(&o.1)?, self.float(&o.2)?);
                match o.0 { Bin::Add => x + y, Bin::Sub => x - y, Bin::Mul => x * y, Bin::Div => x / y, Bin::Rem => x % y, _ => return None }
            }
        })
    }
}

fn float_ok(f: &SFact, x: f64) -> bool { f.fcmp.iter().all(|(b, k, r)| fcmp(*b, x, f64::from_bits(*k)) == *r) }

pub fn float_candidates(f: &SFact, salt: u32) -> Vec<f64> {
    let mut c = vec![0.5 + 1.25 * (salt % 97) as f64, 0.3125, 2.5, -1.5 - (salt % 89) as f64, 1e6 + 0.5, -1e6 - 0.5, 1e300, -1e300, 1e-300, 123456.789012345, 0.1];
    for (_, k, _) in &f.fcmp {
        let k = f64::from_bits(*k);
        c.extend([k, k + 0.5, k - 0.5, k + 1.0, k - 1.0, k * 2.0, k / 2.0, k + 1e-9, k - 1e-9]);
    }
    c.extend([0.0, 1.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
    c.into_iter().filter(|x| float_ok(f, *x)).collect()
}
pub fn float_sample(f: &SFact) -> Option<f64> {
    if f.int == Some(true) { return Some(0.0).filter(|_| true); }
    float_candidates(f, 0).first().copied()
}

/// Integer values for all atoms in the facts (and the extra ones), if the search finds some.
pub fn ints(st: &State, cx: &Cx, extra: &[Atom]) -> Option<BTreeMap<Atom, i128>> {
    let mut atoms: BTreeSet<Atom> = extra.iter().copied().collect();
    for f in st.facts.iter() { for (a, _) in &f.t { atoms.insert(*a); } }
    let mut facts: Vec<Lin> = (*st.facts).clone();
    for a in &atoms { if cx.count_like.get(*a as usize).copied().unwrap_or(false) { facts.push(Lin { c: 1 << 30, t: vec![(*a, -1)] }); facts.push(Lin::atom(*a)); } }
    // quotients and remainders first: they fix what they come from
    let first: Vec<Atom> = st.divs.iter().flat_map(|(_, _, q, r)| [*r, *q]).collect();
    let mut order = first.clone();
    order.retain(|a| atoms.contains(a));
    order.extend(atoms.iter().copied().filter(|a| !first.contains(a)));
    let atoms = order;
    let mut m = BTreeMap::new();
    let mut budget = 400;
    if search(&facts, &atoms, 0, &mut m, &mut budget) { Some(m) } else { None }
}

fn search(facts: &[Lin], atoms: &[Atom], k: usize, m: &mut BTreeMap<Atom, i128>, budget: &mut usize) -> bool {
    if *budget == 0 { return false; }
    *budget -= 1;
    if k == atoms.len() { return facts.iter().all(|f| f.eval(m).is_some_and(|x| x >= 0)); }
    let a = atoms[k];
    // what is already fixed becomes constant
    let fs: Vec<Lin> = facts.iter().map(|f| f.subst(&mut |x| m.get(&x).map(|v| Lin::k(*v)))).collect();
    if fs.iter().any(|f| f.is_const().is_some_and(|c| c < 0)) { return false; }
    let lo = match minimize(&fs, &Lin::atom(a)) { Min::At(n, d) => Some(n.div_euclid(d) + (n.rem_euclid(d) != 0) as i128), Min::Infeasible => return false, _ => None };
    let hi = match minimize(&fs, &Lin::atom(a).neg()) { Min::At(n, d) => Some((-n).div_euclid(d)), Min::Infeasible => return false, _ => None };
    let ok = |x: i128| lo.is_none_or(|l| x >= l) && hi.is_none_or(|h| x <= h);
    let mut c: Vec<i128> = vec![];
    for x in [3, 1, 2, 5, -2, -1, 0, 4, 7] { if ok(x) { c.push(x); } }
    for b in [lo, hi].into_iter().flatten() { for d in [0, 1, -1, 2, -2] { if ok(b + d) { c.push(b + d); } } }
    c.dedup();
    for x in c {
        m.insert(a, x);
        if search(facts, atoms, k + 1, m, budget) { return true; }
        m.remove(&a);
        if *budget == 0 { return false; }
    }
    false
}

fn tok_text(st: &State, cx: &Cx, s: StrId, w: &mut Wit) -> Option<String> {
    if let Some(x) = w.text.get(&s) { return Some(x.clone()); }
    let r = st.root(s);
    if r != s { let x = tok_text(st, cx, r, w)?; w.text.insert(s, x.clone()); return Some(x); }
    let f = st.sf(s);
    let others: Vec<String> = st.differ.iter().filter_map(|(p, q)| { let (p, q) = (st.root(*p), st.root(*q)); let o = if p == s { q } else if q == s { p } else { return None }; w.text.get(&o).cloned() }).collect();
    let len = match f.len { Some(a) => Some(*w.ints.get(&a)? as usize), None => None };
    let bad = |x: &str| len.is_some_and(|n| x.len() != n) || f.ask.iter().any(|(q, b)| q.holds(x) != *b) || f.not.iter().any(|n| &**n == x) || others.iter().any(|o| o == x);
    let part = matches!(cx.strs[s as usize], StrKind::Part(_));
    let mut c: Vec<String> = vec![];
    if let Some(l) = &f.lit { c.push(l.to_string()); }
    else if f.empty == Some(true) { c.push(String::new()); }
    else if let Some(p) = f.parts.as_ref().filter(|p| p.len() > 1) {
        let mut t = vec![];
        for x in p { t.push(tok_text(st, cx, *x, w)?); }
        c.push(t.join("/"));
    } else if f.int == Some(true) {
        let v = *w.ints.get(&f.val?)?;
        if !float_ok(&f, v as f64) { return None; }
        if v == 0 && f.neg == Some(true) { c.push("-0".into()); c.push("-00".into()); }
        else {
            c.push(v.to_string());
            if v >= 0 { c.push(format!("+{}", v)); c.push(format!("0{}", v)); } else { c.push(format!("-0{}", -v)); }
            if let Some(n) = len.filter(|n| *n <= 100000) {
                if v >= 0 { c.push(format!("{:0>1$}", v, n)); if n > 1 { c.push(format!("+{:0>1$}", v, n - 1)); } } else if n > 1 { c.push(format!("-{:0>1$}", -v, n - 1)); }
            }
        }
    } else if f.flt == Some(true) {
        let mut fc = float_candidates(&f, s);
        // numbers that are close to each other, or alike
        if w.pref >= 24 { let h = (s as usize + 1).wrapping_mul(2654435761).wrapping_add(w.pref * 40503) >> 7; fc = [[1.0, -1.0, 2.0, 0.5], [0.0, 1.0, 3.0, -2.5]][w.pref % 2].iter().cycle().skip(h % 4).take(4).copied().filter(|x| float_ok(&f, *x)).chain(fc).collect(); }
        else if w.pref >= 18 { fc = [vec![1.0, 1.0000000000000002, 1.0000000000000004, 0.9999999999999999], vec![0.0, 5e-324, 1e-300, 1e-17, -0.0], vec![1.5, 1.5000001, 1.50000001, 1.500000001], vec![0.5, -0.5, 0.25, -0.25], vec![1.25, 1.5, 1.75, 1.125], vec![1000.001, 1000.0011, 1000.0012, 1000.002]][w.pref - 18].iter().copied().filter(|x| float_ok(&f, *x)).chain(fc).collect(); }
        else if !fc.is_empty() { let k = w.pref % fc.len(); fc.rotate_left(k); }
        for x in fc {
            let t = format!("{:?}", x);
            // must not look like an integer if it is known not to
            if f.int == Some(false) && int_syntax(&t) { continue; }
            if let Some(n) = len.filter(|n| *n <= 100000 && *n > t.len() && !t.contains(['e', 'n', 'i'])) { c.push(format!("{:0<1$}", t, n)); }
            if w.pref >= 18 { c.push(t); continue; }
            for u in [t.clone(), format!("{:e}", x), format!("+{:?}", x), format!("{:E}", x)] { if float_ok(&f, u.parse::<f64>().unwrap_or(x)) { c.push(u); } }
        }
        for u in [".5", "5.", "+.5", "1e3", "inf", "-inf", "infinity", "nan"] { if u.parse::<f64>().is_ok_and(|x| float_ok(&f, x)) { c.push(u.into()); } }
    } else {
        let mut names: Vec<String> = ["w", "Xy", "\u{e9}", "\"q", "'z.", "-n_", "N", "\u{a0}", "0x"].iter().map(|p| format!("{}{}", p, s)).collect();
        names.rotate_left(w.pref % 9);
        // long ones
        if (9..18).contains(&w.pref) { c.push(format!("w{}{}", s, "qwrtypdghjkz".repeat([2, 6, 12, 25, 50, 100, 400, 6000, 1][w.pref - 9]))); }
        c.extend(names);
        let yes: Vec<Vec<String>> = f.ask.iter().filter(|x| x.1).map(|x| { let mut y = x.0.samples(); if !y.is_empty() { let k = w.pref % y.len(); y.rotate_left(k); } y }).collect();
        for y in &yes { c.extend(y.iter().cloned()); }
        for (i, y) in yes.iter().enumerate() { for z in &yes[i + 1..] { for p in y.iter().take(6) { for q in z.iter().take(6) { c.push(format!("{}{}", p, q)); c.push(format!("{}{}", q, p)); } } } }
        if let Some(n) = len.filter(|n| *n <= 100000) {
            // spread the names that are too short, cut those that are too long
            let d = s.to_string();
            for p in ["w", "X", "z_"] { let t = format!("{}{}", p, d); if t.len() <= n { c.push(format!("{:a<1$}", t, n)); } }
            let letters = b"qwrtypdghjkz";
            for j in 0..letters.len() { c.push((0..n).map(|i| letters[(i + j + s as usize) % letters.len()] as char).collect()); }
            for t in c.clone() { if t.len() < n && !t.contains('/') { c.push(format!("{:a<1$}", t, n)); c.push(format!("{:a>1$}", t, n)); } }
        }
        if part && f.empty.is_none() { c.push(String::new()); }
    }
    let r = c.into_iter().find(|x| !bad(x) && (f.lit.is_some() || kind_ok(&f, x, part)))?;
    w.text.insert(s, r.clone());
    Some(r)
}

/// A word that is not known to be a number has to be none.
fn kind_ok(f: &SFact, x: &str, part: bool) -> bool {
    (if x.is_empty() { part && f.empty != Some(false) } else { State::valid_token(x) }) && !(part && (x.contains('/') || x == "\n"))
        && f.int.is_none_or(|b| int_syntax(x) == b) && f.flt.is_none_or(|b| x.parse::<f64>().is_ok() == b) && f.parts.as_ref().is_none_or(|p| x.split('/').count() == p.len())
}

/// The tokens of the input the state stands for.
pub fn trace_tokens(st: &State) -> Vec<StrId> { tokens(&st.trace, 0) }
/// The words after the first so many; repetitions once.
pub fn tokens(t: &Option<std::rc::Rc<Trace>>, after: usize) -> Vec<StrId> { order(t, after, None).unwrap_or_default() }
fn order(t: &Option<std::rc::Rc<Trace>>, after: usize, ints: Option<&BTreeMap<Atom, i128>>) -> Option<Vec<StrId>> {
    let mut out = vec![];
    let mut t = t.as_ref();
    while let Some(x) = t {
        if x.len <= after { break; }
        match &x.ev {
            Ev::Tok(s) => out.push(*s),
            Ev::Eof => {}
            Ev::Rep(u, n) => {
                let n = match ints { Some(m) => n.eval(m)?, None => 1 };
                if n < 0 || n * u.len() as i128 > 2_000_000 { return None; }
                for _ in 0..n { out.extend(u.iter().rev()); }
            }
        }
        t = x.prev.as_ref();
    }
    out.reverse();
    Some(out)
}

pub fn witness(st: &State, cx: &Cx) -> Option<Wit> { (0..if st.fcons.is_empty() { 1 } else { 48 }).find_map(|k| witness_pref(st, cx, k)) }
pub fn witness_pref(st: &State, cx: &Cx, pref: usize) -> Option<Wit> {
    let toks = trace_tokens(st);
    let mut extra = vec![];
    let mut t = st.trace.as_ref();
    while let Some(x) = t { if let Ev::Rep(_, n) = &x.ev { extra.extend(n.t.iter().map(|x| x.0)); } t = x.prev.as_ref(); }
    for f in st.strs.values() { for a in [f.val, f.len].into_iter().flatten() { extra.push(a); } }
    let ints = ints(st, cx, &extra)?;
    let order = order(&st.trace, 0, Some(&ints))?;
    let mut w = Wit { ints, text: BTreeMap::new(), order, flts: BTreeMap::new(), pref };
    // named floats: what they are compared with decides
    let mut about: BTreeMap<Atom, SFact> = BTreeMap::new();
    for (b, x, y, r) in st.fcons.iter() {
        match (x, y) {
            (Fl::Name(a), Fl::C(k)) => about.entry(*a).or_default().fcmp.push((*b, *k, *r)),
            (Fl::C(k), Fl::Name(a)) => { let m = match b { Bin::Lt => Bin::Gt, Bin::Gt => Bin::Lt, Bin::Le => Bin::Ge, Bin::Ge => Bin::Le, b => *b }; about.entry(*a).or_default().fcmp.push((m, *k, *r)) }
            _ => {}
        }
    }
    for (a, f) in about { let c = float_candidates(&f, a); if !c.is_empty() { w.flts.insert(a, c[pref % c.len()]); } }
    for t in &toks { tok_text(st, cx, *t, &mut w)?; }
    let all: Vec<StrId> = st.strs.keys().chain(st.alias.keys()).copied().collect();
    for t in all { tok_text(st, cx, t, &mut w); }
    for (b, x, y, r) in st.fcons.iter() { if fcmp(*b, w.float(x)?, w.float(y)?) != *r { return None; } }
    Some(w)
}

pub fn render(w: &Wit) -> String {
    let mut s = String::new();
    let mut sol = true;
    for t in &w.order {
        let x = w.text.get(t).cloned().unwrap_or_default();
        if x == "\n" { s.push('\n'); sol = true; } else {
            if !sol { s.push(' '); }
            s.push_str(&x);
            sol = false;
        }
    }
    if s.len() <= 6000 { return s; }
    let part = |a: usize, b: usize| -> String { let f = |mut i: usize| { while !s.is_char_boundary(i) { i -= 1; } i }; s[f(a)..f(b)].to_string() };
    format!("{} ... ({} words on {} lines in all; what is left out repeats) ... {}", part(0, 300), w.order.len(), s.lines().count(), part(s.len() - 200, s.len()))
}
