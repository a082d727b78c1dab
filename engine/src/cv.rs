//! Semantic trees: results of the analysed code and of the reference semantics in a
//! common shape (fields and variants by name), their comparison, and their evaluation
//! for a concrete choice of the input.
use crate::ir::*;
use crate::lin::*;
use crate::val::*;
use crate::witness::Wit;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Int(Lin),
    Bool(bool),
    Flt(Fl),
    Str(Vec<Piece>),
    /// variant or struct name, fields by name
    Node(String, Vec<(String, T)>),
    List(Vec<T>),
    /// in a list: so many elements, as a function of their position among them
    Comp(Lin, Box<T>),
    /// a text that contains each of these
    Has(Vec<Piece>),
    /// not compared
    Any,
    /// not known to the analysis
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub enum C { Int(i128), Bool(bool), Flt(u64), Str(String), Node(String, Vec<(String, C)>), List(Vec<C>), Has(Vec<String>), Any, Unknown }

impl T {
    pub fn node(n: &str, f: Vec<(&str, T)>) -> T { T::Node(n.to_string(), f.into_iter().map(|(a, b)| (a.to_string(), b)).collect()) }
    pub fn some(t: T) -> T { T::node("Some", vec![("0", t)]) }
    pub fn none() -> T { T::node("None", vec![]) }
    pub fn k(i: i128) -> T { T::Int(Lin::k(i)) }
    pub fn map_lins(&self, f: &mut dyn FnMut(&Lin) -> Lin) -> T {
        match self {
            T::Int(l) => T::Int(f(l)),
            T::Str(p) => T::Str(p.iter().map(|x| match x { Piece::Int(l) => Piece::Int(f(l)), x => x.clone() }).collect()),
            T::Has(p) => T::Has(p.iter().map(|x| match x { Piece::Int(l) => Piece::Int(f(l)), x => x.clone() }).collect()),
            T::Node(n, v) => T::Node(n.clone(), v.iter().map(|(k, x)| (k.clone(), x.map_lins(f))).collect()),
            T::List(v) => T::List(v.iter().map(|x| x.map_lins(f)).collect()),
            // its body has its own variable
            T::Comp(n, b) => T::Comp(f(n), b.clone()),
            t => t.clone(),
        }
    }
    pub fn at(&self, i: &Lin) -> T { self.map_lins(&mut |l| l.subst(&mut |a| if a == BV { Some(i.clone()) } else { None })) }
}

/// A value of the analysed code as a tree.
pub fn tree(st: &State, cx: &Cx, v: &V, t: TyId) -> T {
    match (v, &cx.prog.tys[t].kind) {
        (V::Sel(a, i, _), k) if !matches!(k, TyKind::Ref(..)) => T::node("sel", vec![("run", T::k(*a as i128)), ("at", T::Int(i.clone()))]),
        (V::CRef(x), TyKind::Ref(u, _)) => tree(st, cx, x, *u),
        (V::MRef(l), TyKind::Ref(u, _)) => match st.read(cx, l) { Ok(x) => tree(st, cx, &x, *u), Err(_) => T::Unknown },
        (V::Int(l), _) => T::Int(l.clone()),
        (V::Bool(b), _) => T::Bool(*b),
        (V::Float(f), _) => T::Flt(f.clone()),
        (V::S(p), _) => T::Str((**p).clone()),
        (V::Seq(s), k) => {
            let e = match k {
                TyKind::Adt { args, .. } if !args.is_empty() => args[0],
                TyKind::Array(e, _) | TyKind::Slice(e) => *e,
                _ => return T::Unknown,
            };
            let mut out = vec![];
            if let [Seg::Base { id, len, .. }] = &s.segs[..] { return T::node("run", vec![("id", T::k(*id as i128)), ("len", T::Int(len.clone()))]); }
            for g in &s.segs { match g { Seg::El(v) => out.push(tree(st, cx, v, e)), Seg::Comp { lo, hi, body } if !matches!(body, V::Sel(TEXT, ..)) => out.push(T::Comp(hi.sub(lo), Box::new(tree(st, cx, &body.at(&Lin::atom(BV).add(lo)), e)))), _ => return T::Unknown } }
            T::List(out)
        }
        (V::Agg(n, f), TyKind::Adt { variants, .. }) => {
            let Some(vi) = variants.get(*n as usize) else { return T::Unknown };
            T::Node(vi.name.clone(), vi.fields.iter().enumerate().map(|(i, (nm, ty))| (nm.clone(), f.get(i).map(|x| tree(st, cx, x, *ty)).unwrap_or(T::Unknown))).collect())
        }
        (V::Agg(_, f), TyKind::Tuple(ts)) => T::Node("tuple".into(), ts.iter().enumerate().map(|(i, ty)| (i.to_string(), f.get(i).map(|x| tree(st, cx, x, *ty)).unwrap_or(T::Unknown))).collect()),
        _ => T::Unknown,
    }
}

fn lit_fl(st: &State, f: &Fl) -> Fl {
    match f {
        Fl::Parse(s) => match &st.sf(*s).lit { Some(l) => match l.parse::<f64>() { Ok(x) => Fl::C(x.to_bits()), _ => f.clone() }, None => Fl::Parse(st.root(*s)) },
        _ => f.clone(),
    }
}
pub fn norm_pieces(st: &State, p: &[Piece]) -> Vec<Piece> {
    let mut out: Vec<Piece> = vec![];
    for x in p {
        let y = match x {
            Piece::Tok(t) => match &st.sf(*t).lit { Some(l) => Piece::Lit(l.clone()), None => Piece::Tok(st.root(*t)) },
            Piece::Int(l) => match l.is_const() { Some(c) => Piece::Lit(c.to_string().into()), None => x.clone() },
            _ => x.clone(),
        };
        match (out.last_mut(), &y) {
            (_, Piece::Lit(l)) if l.is_empty() => {}
            (Some(Piece::Lit(a)), Piece::Lit(b)) => *a = format!("{}{}", a, b).into(),
            _ => out.push(y),
        }
    }
    out
}

#[derive(Debug)]
pub struct Diff { pub path: Vec<String>, pub what: DiffK, /// of two floats
    pub flt: bool, /// of two strings
    pub str: bool }
#[derive(Debug, PartialEq)]
pub enum DiffK { Int(Lin), Other, Unknown, /// depends on whether this is negative
    Split(Lin) }

/// Does a text surely contain this? (The end of a line need not be shown.)
fn has(st: &State, cx: &Cx, text: &[Piece], q: &Piece) -> bool {
    match &norm_pieces(st, std::slice::from_ref(q))[..] {
        [] => true,
        [Piece::Lit(l)] => &**l == "\n" || text.iter().any(|p| matches!(p, Piece::Lit(m) if m.contains(&**l))),
        [Piece::Int(n)] => text.iter().any(|p| matches!(p, Piece::Int(m) if st.same_int(cx, n, m))),
        [q] => text.contains(q),
        _ => false,
    }
}

/// Where two trees are not syntactically the same.
pub fn diff(st: &State, cx: &Cx, a: &T, b: &T, path: &mut Vec<String>, out: &mut Vec<Diff>) {
    match (a, b) {
        (T::Any, _) | (_, T::Any) => {}
        (T::Unknown, _) | (_, T::Unknown) => out.push(Diff { path: path.clone(), what: DiffK::Unknown, flt: false, str: false }),
        (T::Int(x), T::Int(y)) => if !st.same_int(cx, x, y) { out.push(Diff { path: path.clone(), what: DiffK::Int(x.sub(y)), flt: false, str: false }) },
        (T::Bool(x), T::Bool(y)) if x == y => {}
        (T::Flt(x), T::Flt(y)) if lit_fl(st, x) == lit_fl(st, y) => {}
        (T::Str(x), T::Str(y)) if norm_pieces(st, x) == norm_pieces(st, y) => {}
        (T::Str(x), T::Has(q)) if { let x = norm_pieces(st, x); q.iter().all(|q| has(st, cx, &x, q)) } => {}
        (T::Str(_), T::Has(_)) => out.push(Diff { path: path.clone(), what: DiffK::Other, flt: false, str: true }),
        (T::Node(n, f), T::Node(m, g)) => {
            if n != m { out.push(Diff { path: path.clone(), what: DiffK::Other, flt: false, str: false }); return; }
            // fields of the reference that the code's type does not have are a difference the
            // other way round are fields the reference says nothing about
            for (k, y) in g {
                match f.iter().find(|x| x.0 == *k) {
                    Some((_, x)) => { path.push(k.clone()); diff(st, cx, x, y, path, out); path.pop(); }
                    None => { path.push(k.clone()); out.push(Diff { path: path.clone(), what: DiffK::Unknown, flt: false, str: false }); path.pop(); }
                }
            }
        }
        (T::List(x), T::List(y)) if x.iter().chain(y).any(|t| matches!(t, T::Comp(..))) => {
            let mut ds = vec![];
            let at = |out: &mut Vec<Diff>, path: &Vec<String>, what: DiffK| out.push(Diff { path: path.clone(), what, flt: false, str: false });
            // from the front, run by run
            let list = |l: &[T]| -> Vec<(Lin, T)> { l.iter().rev().map(|t| match t { T::Comp(n, b) => (n.clone(), (**b).clone()), t => (Lin::k(1), t.clone()) }).collect() };
            let (mut p, mut q) = (list(x), list(y));
            let zero = |n: &Lin| st.same_int(cx, n, &Lin::k(0));
            let mut i = 0;
            loop {
                while p.last().is_some_and(|x| zero(&x.0)) { p.pop(); }
                while q.last().is_some_and(|x| zero(&x.0)) { q.pop(); }
                let (n, m) = match (p.last(), q.last()) {
                    (None, None) => break,
                    (Some((n, _)), None) | (None, Some((n, _))) => {
                        // is anything left of the other?
                        if n.is_const().is_some() || st.entails(cx, &n.addk(-1)) { path.push("len".into()); at(&mut ds, path, DiffK::Other); path.pop(); } else { at(&mut ds, path, DiffK::Split(n.addk(-1))); }
                        break;
                    }
                    (Some((n, _)), Some((m, _))) => (n.clone(), m.clone()),
                };
                let d = n.sub(&m);
                let k = if st.same_int(cx, &n, &m) { n.clone() } else if st.entails(cx, &d) { m.clone() } else if st.entails(cx, &d.neg()) { n.clone() } else { at(&mut ds, path, DiffK::Split(d)); break };
                if !st.entails(cx, &k.addk(-1)) { at(&mut ds, path, DiffK::Split(k.addk(-1))); break; }
                let one = st.same_int(cx, &k, &Lin::k(1));
                let ((_, a), (_, b)) = (p.pop().unwrap(), q.pop().unwrap());
                path.push(format!("[{}]", i));
                i += 1;
                if one { diff(st, cx, &a.at(&Lin::k(0)), &b.at(&Lin::k(0)), path, &mut ds); } else { diff(st, cx, &a, &b, path, &mut ds); }
                path.pop();
                let rest = |t: &T| t.at(&Lin::atom(BV).add(&k));
                if !st.same_int(cx, &n, &k) { p.push((n.sub(&k), rest(&a))); }
                if !st.same_int(cx, &m, &k) { q.push((m.sub(&k), rest(&b))); }
            }
            // what differs in some element of a run is to be looked for in a concrete one
            for d in &mut ds { if let DiffK::Int(l) = &d.what { if l.t.iter().any(|x| x.0 == BV) { d.what = DiffK::Other; } } }
            out.extend(ds);
        }
        (T::List(x), T::List(y)) => {
            if x.len() != y.len() { path.push("len".into()); out.push(Diff { path: path.clone(), what: DiffK::Other, flt: false, str: false }); path.pop(); }
            for (i, (p, q)) in x.iter().zip(y).enumerate() { path.push(format!("[{}]", i)); diff(st, cx, p, q, path, out); path.pop(); }
        }
        _ => out.push(Diff { path: path.clone(), what: DiffK::Other, flt: matches!((a, b), (T::Flt(_), T::Flt(_))), str: matches!((a, b), (T::Str(_), T::Str(_))) }),
    }
}

pub fn eval(t: &T, w: &Wit) -> C {
    match t {
        T::Int(l) => l.eval(&w.ints).map(C::Int).unwrap_or(C::Unknown),
        T::Bool(b) => C::Bool(*b),
        T::Flt(f) => w.float(f).map(|x| C::Flt(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })).unwrap_or(C::Unknown),
        T::Str(p) => {
            let mut s = String::new();
            for x in p {
                match x {
                    Piece::Lit(l) => s.push_str(l),
                    Piece::Tok(t) => match w.text.get(t) { Some(x) => s.push_str(x), None => return C::Unknown },
                    Piece::Int(l) => match l.eval(&w.ints) { Some(i) => s.push_str(&i.to_string()), None => return C::Unknown },
                    Piece::Flt(f) => match w.float(f) { Some(x) => s.push_str(&x.to_string()), None => return C::Unknown },
                    Piece::Name(a) => { s.push_str(&format!("name{}", a)); if w.pref >= 9 { s.push_str(&" \u{e9}x/{}".repeat([2, 6, 12, 25, 50, 100, 400, 6000, 1][(w.pref - 9) % 9])); } }
                    Piece::Fmt(sp, q) => {
                        use crate::fmtspec::{concrete, Con};
                        let c = match &q[..] {
                            [Piece::Int(l)] => match l.eval(&w.ints) { Some(i) => Con::Int(i), None => return C::Unknown },
                            [Piece::Flt(f)] => match w.float(f) { Some(x) => Con::Flt(x), None => return C::Unknown },
                            q => match eval(&T::Str(q.to_vec()), w) { C::Str(s) if sp.kind == 0 || q.len() == 1 => Con::Text(s), _ => return C::Unknown },
                        };
                        match concrete(sp, &c) { Some(x) => s.push_str(&x), None => return C::Unknown }
                    }
                    _ => return C::Unknown,
                }
            }
            C::Str(s)
        }
        T::Node(n, f) => C::Node(n.clone(), f.iter().map(|(k, x)| (k.clone(), eval(x, w))).collect()),
        T::List(l) => {
            let mut out = vec![];
            for x in l {
                match x {
                    T::Comp(n, b) => { let Some(n) = n.eval(&w.ints).filter(|n| *n <= 400_000) else { return C::Unknown }; for i in 0..n { out.push(eval(&b.at(&Lin::k(i)), w)); } }
                    x => out.push(eval(x, w)),
                }
            }
            C::List(out)
        }
        T::Comp(..) => C::Unknown,
        T::Has(q) => {
            let mut out = vec![];
            for q in q { match eval(&T::Str(vec![q.clone()]), w) { C::Str(s) => if s != "\n" { out.push(s) }, _ => return C::Unknown } }
            C::Has(out)
        }
        T::Any => C::Any,
        T::Unknown => C::Unknown,
    }
}

/// Paths where the two values surely differ.
pub fn cdiff(a: &C, b: &C, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, String, String)>) {
    let mut say = |path: &Vec<String>| out.push((path.clone(), a.brief(), b.brief()));
    match (a, b) {
        (C::Any, _) | (_, C::Any) | (C::Unknown, _) | (_, C::Unknown) => {}
        (C::Node(n, f), C::Node(m, g)) => {
            if n != m { say(path); return; }
            for (k, y) in g { if let Some((_, x)) = f.iter().find(|x| x.0 == *k) { path.push(k.clone()); cdiff(x, y, path, out); path.pop(); } }
        }
        (C::List(x), C::List(y)) => {
            if x.len() != y.len() { path.push("len".into()); out.push((path.clone(), format!("{} of {}", x.len(), a.brief()), format!("{} of {}", y.len(), b.brief()))); path.pop(); }
            for (i, (p, q)) in x.iter().zip(y).enumerate() { if out.len() > 20 { break; } path.push(format!("[{}]", i)); cdiff(p, q, path, out); path.pop(); }
        }
        (C::Str(x), C::Has(q)) => if !q.iter().all(|q| x.contains(&**q)) { say(path) },
        _ => if a != b { say(path) },
    }
}

impl C {
    /// What it is, in at most so many characters.
    pub fn brief(&self) -> String {
        let small = match self { C::List(l) if l.len() > 12 => C::List(l[..12].to_vec()), c => c.clone() };
        let t = small.show();
        if t.chars().count() > 300 { format!("{} ...", t.chars().take(300).collect::<String>()) } else { t }
    }
    pub fn show(&self) -> String {
        match self {
            C::Int(i) => i.to_string(),
            C::Bool(b) => b.to_string(),
            C::Flt(b) => format!("{:?}", f64::from_bits(*b)),
            C::Str(s) => format!("{:?}", s),
            C::Node(n, f) => if f.is_empty() { n.clone() } else if f.iter().all(|x| x.0.parse::<usize>().is_ok()) {
                format!("{}({})", n, f.iter().map(|x| x.1.show()).collect::<Vec<_>>().join(", "))
            } else { format!("{} {{ {} }}", n, f.iter().map(|x| format!("{}: {}", x.0, x.1.show())).collect::<Vec<_>>().join(", ")) },
            C::List(l) => format!("[{}]", l.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            C::Has(q) => format!("a text with {}", q.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" and ")),
            C::Any => "_".into(),
            C::Unknown => "?".into(),
        }
    }
}
