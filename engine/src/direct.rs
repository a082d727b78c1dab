//! Analyses of single functions on symbolic arguments: all values of the argument types at once.
use crate::cv::*;
use crate::explore::here;
use crate::fmtspec;
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::val::*;
use crate::witness;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

/// How lists are represented: as a run of unknown length, or with so many elements.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lists { Run, Len(usize) }

pub struct Direct<'a, 'p> {
    pub cx: &'a mut Cx<'p>,
    pub findings: Vec<String>,
    pub seen: HashSet<String>,
    pub obligations: usize,
    pub discharged: usize,
    pub steps: usize,
    pub why: BTreeMap<String, usize>,
    pub funcs: HashSet<FnId>,
    pub sites: Vec<String>,
    pub t0: std::time::Instant,
}

type Alt = (V, Vec<Con>);

fn product(xs: Vec<Vec<Alt>>) -> Vec<(Vec<V>, Vec<Con>)> {
    let mut out = vec![(vec![], vec![])];
    for x in xs {
        let mut next = vec![];
        for (vs, cs) in &out { for (v, c) in &x {
            let (mut vs, mut cs): (Vec<V>, Vec<Con>) = (Vec::clone(vs), Vec::clone(cs));
            vs.push(v.clone());
            cs.extend(c.iter().cloned());
            next.push((vs, cs));
        } }
        next.truncate(400);
        out = next;
    }
    out
}

/// Any text; and for what looks into it: some word, and no text at all.
fn texts(cx: &mut Cx) -> Vec<Alt> {
    let t = cx.fresh_str(StrKind::Tok);
    [vec![Piece::Name(cx.fresh(false))], vec![Piece::Tok(t)], vec![]].into_iter().map(|p| (V::S(Rc::new(p)), vec![])).collect()
}

/// All values of a type.
pub fn values(cx: &mut Cx, t: TyId, lists: &mut dyn FnMut(&str) -> Lists, path: &str) -> Vec<Alt> {
    match cx.prog.tys[t].kind.clone() {
        TyKind::Int { .. } => {
            let a = Lin::atom(cx.fresh(true));
            let (lo, _) = cx.prog.int_bounds(t).unwrap();
            vec![(V::Int(a.clone()), if lo == 0 { vec![Con::Ge(a)] } else { vec![] })]
        }
        TyKind::Bool => vec![(V::Bool(false), vec![]), (V::Bool(true), vec![])],
        TyKind::Float => vec![(V::Float(Fl::Name(cx.fresh(false))), vec![])],
        TyKind::Str => texts(cx),
        TyKind::Ref(u, _) => values(cx, u, lists, path).into_iter().map(|(v, c)| (V::cref(v), c)).collect(),
        TyKind::Tuple(ts) => { let xs = ts.iter().map(|x| values(cx, *x, lists, path)).collect(); product(xs).into_iter().map(|(v, c)| (V::agg(0, v), c)).collect() }
        TyKind::Adt { path: p, args, .. } if p == "std::vec::Vec" => match lists(path) {
            Lists::Run => {
                let n = Lin::atom(cx.fresh(true));
                let id = cx.fresh(false);
                vec![(V::seq(args[0], vec![Seg::Base { id, len: n.clone(), form: V::Top }]), vec![Con::Ge(n)])]
            }
            Lists::Len(n) => {
                let (mut els, mut cs) = (vec![], vec![]);
                for i in 0..n {
                    let alts = values(cx, args[0], lists, path);
                    let (v, c) = alts[i % alts.len()].clone();
                    els.push(Seg::El(v));
                    cs.extend(c);
                }
                vec![(V::seq(args[0], els), cs)]
            }
        },
        TyKind::Adt { path: p, .. } if p == "std::string::String" => texts(cx),
        TyKind::Adt { variants, .. } => {
            let mut out = vec![];
            for (k, v) in variants.iter().enumerate() {
                let xs = v.fields.iter().map(|(n, f)| values(cx, *f, lists, n)).collect();
                out.extend(product(xs).into_iter().map(|(v, c)| (V::agg(k as u32, v), c)));
            }
            out
        }
        _ => vec![(V::Top, vec![])],
    }
}

pub enum Expect { Value(T), Unknown }
pub type Oracle<'x> = &'x dyn Fn(&State, &mut Cx, &[T]) -> Dec<Expect>;

impl<'a, 'p> Direct<'a, 'p> {
    pub fn new(cx: &'a mut Cx<'p>) -> Self { Direct { cx, findings: vec![], seen: HashSet::new(), obligations: 0, discharged: 0, steps: 0, why: BTreeMap::new(), funcs: HashSet::new(), sites: vec![], t0: std::time::Instant::now() } }
    pub fn find(&mut self, name: &str) -> Option<FnId> {
        match self.cx.prog.roots.iter().find(|r| r.0 == name).and_then(|r| self.cx.prog.callees[r.1].func) {
            Some(f) => { let g = &self.cx.prog.funcs[f]; self.sites.push(format!("{} ({}:{})", g.name, g.file, g.line)); Some(f) }
            None => { *self.why.entry(format!("{} not found", name)).or_insert(0) += 1; None }
        }
    }
    fn miss(&mut self, w: &str) { *self.why.entry(w.to_string()).or_insert(0) += 1; }
    /// Analyse one call. Returns whether everything was decided as prescribed.
    pub fn call(&mut self, prop: &str, f: FnId, args: Vec<V>, cons: &[Con], text: bool, exact: bool, oracle: Oracle) -> bool {
        if self.t0.elapsed().as_secs() > 300 { self.miss("time is up"); return false; }
        let g = &self.cx.prog.funcs[f];
        let (name, ret_ty) = (g.name.clone(), g.locals[0]);
        let tys: Vec<TyId> = g.locals[1..=args.len()].to_vec();
        let mut st = State::new();
        if !st.assume(self.cx, cons) { return true; }
        // the caller's frame: the result, and the text written so far
        st.frames.push(Rc::new(Frame { func: f, bb: 0, si: 0, locals: vec![V::Undef, V::lit("")], dest: None }));
        let mut av = args.clone();
        if text { av.push(V::MRef(Rc::new(Loc { depth: 0, local: 1, path: vec![] }))); }
        push_frame(&mut st, self.cx, f, av, Some((Place { local: 0, proj: vec![] }, None)));
        let mut stack = vec![st];
        let mut good = true;
        let mut paths = 0;
        while let Some(mut st) = stack.pop() {
            let mut n = 0;
            loop {
                n += 1;
                self.steps += 1;
                if n > 100_000 { self.miss("too many steps"); good = false; break; }
                self.funcs.insert(st.top().func);
                match step(&mut st, self.cx) {
                    Ok(Flow::Dead) if st.frames.len() == 1 => {
                        self.obligations += 1;
                        if self.compare(prop, &name, &st, &args, &tys, ret_ty, text, exact, oracle) { self.discharged += 1; } else { good = false; }
                        break;
                    }
                    Ok(Flow::Next | Flow::Head) => {}
                    Ok(Flow::Done(_)) | Ok(Flow::Dead) => { if st.taint.is_some() { good = false; } break; }
                    Ok(Flow::Panic(m)) => {
                        self.obligations += 1;
                        good = false;
                        if st.taint.is_some() || !exact { break; }
                        let at = here(&st, self.cx);
                        if let Some(w) = witness::witness(&st, self.cx) {
                            let ts: Vec<T> = args.iter().zip(&tys).map(|(v, t)| tree(&st, self.cx, v, *t)).collect();
                            self.found(prop, "panic", &at, &ts, &w, vec![], &m);
                        }
                        break;
                    }
                    Ok(Flow::Many(ss)) => { stack.extend(ss); break; }
                    Err(fk) => { for a in fk.0.iter().rev() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } } break; }
                }
            }
            paths += 1;
            if paths > 20_000 { self.miss("too many paths"); return false; }
        }
        good
    }
    fn compare(&mut self, prop: &str, name: &str, st: &State, args: &[V], tys: &[TyId], ret_ty: TyId, text: bool, exact: bool, oracle: Oracle) -> bool {
        let mut stack = vec![st.clone()];
        let mut good = true;
        while let Some(st) = stack.pop() {
            let ts: Vec<T> = args.iter().zip(tys).map(|(v, t)| tree(&st, self.cx, v, *t)).collect();
            let ret = st.frames[0].locals[0].clone();
            let r = (|| -> Dec<Option<(T, T)>> {
                let want = match oracle(&st, self.cx, &ts)? { Expect::Value(t) => t, Expect::Unknown => return Ok(None) };
                let got = if text {
                    let w = match &st.frames[0].locals[1] { V::S(p) => T::Str(fmtspec::expand(&st, self.cx, p)?), _ => T::Unknown };
                    T::node("written", vec![("result", tree(&st, self.cx, &ret, ret_ty)), ("text", w)])
                } else { tree(&st, self.cx, &ret, ret_ty) };
                Ok(Some((got, want)))
            })();
            match r {
                Err(f) => for a in f.0.iter() { let mut s = st.clone(); if s.assume(self.cx, a) { stack.push(s); } },
                Ok(None) => { self.miss(&format!("no prescription for {}", name)); good = false; }
                Ok(Some((got, want))) => {
                    let mut ds = vec![];
                    diff(&st, self.cx, &got, &want, &mut vec![], &mut ds);
                    if ds.is_empty() { continue; }
                    good = false;
                    if !exact { continue; }
                    if let Some(w) = st.taint { self.miss(w); continue; }
                    let mut done = false;
                    for d in &ds {
                        let tries: Vec<Vec<Con>> = match &d.what { DiffK::Unknown | DiffK::Split(_) => continue, DiffK::Other => vec![vec![]], DiffK::Int(l) => vec![vec![Con::Ge(l.addk(-1))], vec![Con::Ge(l.neg().addk(-1))]] };
                        for c in tries {
                            let mut s = st.clone();
                            if !s.assume(self.cx, &c) { continue; }
                            // give the words of the arguments a spelling
                            for t in words(&ts) { let r = s.root(t); Rc::make_mut(&mut s.strs).entry(r).or_default(); }
                            for pref in 0..48 {
                                let Some(w) = witness::witness_pref(&s, self.cx, pref) else { continue };
                                let mut out = vec![];
                                cdiff(&eval(&got, &w), &eval(&want, &w), &mut vec![], &mut out);
                                if !out.is_empty() { self.found(prop, "result", name, &ts, &w, out, ""); done = true; break; }
                            }
                            if done { break; }
                        }
                        if done { break; }
                    }
                    if !done { self.miss(&format!("unconfirmed difference in {}", name)); }
                }
            }
        }
        good
    }
    fn found(&mut self, prop: &str, kind: &str, at: &str, args: &[T], w: &witness::Wit, diffs: Vec<(Vec<String>, String, String)>, detail: &str) {
        use crate::json::*;
        if !self.seen.insert(format!("{}{}{:?}", kind, at, diffs.first().map(|d| &d.0))) { return; }
        let inp = args.iter().map(|t| eval(t, w).show()).collect::<Vec<_>>().join(", ");
        self.findings.push(obj(&[("kind", s(kind)), ("input", s(&inp)), ("detail", s(detail)), ("at", s(at)), ("props", list(if detail.contains("undefined behaviour") { vec![s(prop), s("C03")] } else { vec![s(prop)] }.into_iter())),
            ("diffs", list(diffs.iter().map(|(p, g, w)| obj(&[("path", list(p.iter().map(|x| s(x)))), ("got", s(g)), ("want", s(w))]))))]));
    }
    pub fn report(&self, plan: &str, what: &str, wall: f64) {
        use crate::json::*;
        let n = |x: usize| x.to_string();
        let mut fns: Vec<&str> = self.funcs.iter().filter(|f| self.cx.prog.funcs[**f].local).map(|f| self.cx.prog.funcs[*f].name.as_str()).collect();
        fns.sort();
        println!("{}", obj(&[("plan", s(plan)), ("what", s(what)), ("wall", format!("{:.2}", wall)), ("findings", list(self.findings.iter().cloned())),
            ("obligations", n(self.obligations)), ("discharged", n(self.discharged)), ("steps", n(self.steps)), ("functions", list(fns.iter().map(|f| s(f)))), ("sites", list(self.sites.iter().map(|f| s(f)))),
            ("why", obj(&self.why.iter().map(|(k, v)| (k.as_str(), n(*v))).collect::<Vec<_>>())),
            ("notes", obj(&self.cx.notes.iter().map(|(k, v)| (k.as_str(), n(*v))).collect::<Vec<_>>()))]));
    }
}

fn words(ts: &[T]) -> Vec<StrId> {
    let mut out = vec![];
    for t in ts { match t {
        T::Str(p) => for x in p { if let Piece::Tok(s) = x { out.push(*s); } },
        T::Node(_, f) => out.extend(words(&f.iter().map(|x| x.1.clone()).collect::<Vec<_>>())),
        T::List(l) => out.extend(words(l)),
        _ => {}
    } }
    out
}

fn field<'a>(t: &'a T, n: &str) -> Option<&'a T> { if let T::Node(_, f) = t { f.iter().find(|x| x.0 == n).map(|x| &x.1) } else { None } }

/// The element of a list at a position.
fn entry(st: &State, cx: &Cx, l: Option<&T>, i: Option<&T>) -> Dec<Result<Option<T>, ()>> {
    let (Some(l), Some(T::Int(i))) = (l, i) else { return Ok(Err(())) };
    match l {
        T::List(xs) => { for (k, x) in xs.iter().enumerate() { if st.eq0(cx, &i.addk(-(k as i128)))? { return Ok(Ok(Some(x.clone()))); } } Ok(Ok(None)) }
        T::Node(n, f) if n == "run" => {
            let T::Int(len) = &f[1].1 else { return Ok(Err(())) };
            if !st.ge0(cx, &len.sub(i).addk(-1))? { return Ok(Ok(None)); }
            Ok(Ok(Some(T::node("sel", vec![("run", f[0].1.clone()), ("at", T::Int(i.clone()))]))))
        }
        _ => Ok(Err(())),
    }
}

pub fn lookup(d: &mut Direct) {
    const SETS: [&str; 3] = ["vertex_set", "texture_vertex_set", "normal_vertex_set"];
    if let Some(f) = d.find("wavefront_obj::obj::VTNIndex::has_same_type_as") {
        let (t1, t2) = (d.cx.prog.funcs[f].locals[1], d.cx.prog.funcs[f].locals[2]);
        let xs = vec![values(d.cx, t1, &mut |_| Lists::Run, ""), values(d.cx, t2, &mut |_| Lists::Run, "")];
        for (v, c) in product(xs) {
            d.call("C17", f, v, &c, false, true, &|_, _, a| Ok(match (&a[0], &a[1]) { (T::Node(n, _), T::Node(m, _)) => Expect::Value(T::Bool(n == m)), _ => Expect::Unknown }));
        }
    }
    if let Some(f) = d.find("wavefront_obj::obj::Object::get_vtn_triple") {
        let oracle = |st: &State, cx: &mut Cx, a: &[T]| -> Dec<Expect> {
            let T::Node(form, ix) = &a[1] else { return Ok(Expect::Unknown) };
            let sets: &[usize] = match form.as_str() { "V" => &[0], "VT" => &[0, 1], "VN" => &[0, 2], "VTN" => &[0, 1, 2], _ => return Ok(Expect::Unknown) };
            let mut out = vec![];
            for (k, s) in sets.iter().enumerate() {
                match entry(st, cx, field(&a[0], SETS[*s]), ix.get(k).map(|x| &x.1))? { Ok(Some(x)) => out.push((k.to_string(), x)), Ok(None) => return Ok(Expect::Value(T::none())), Err(()) => return Ok(Expect::Unknown) }
            }
            Ok(Expect::Value(T::some(T::Node(form.clone(), out))))
        };
        let (t1, t2) = (d.cx.prog.funcs[f].locals[1], d.cx.prog.funcs[f].locals[2]);
        let xs = vec![values(d.cx, t1, &mut |_| Lists::Run, ""), values(d.cx, t2, &mut |_| Lists::Run, "")];
        let mut proved = true;
        for (v, c) in product(xs) { proved &= d.call("C17", f, v, &c, false, false, &oracle); }
        if !proved {
            d.miss("get_vtn_triple: not proved for lists of unknown length, looking at short lists");
            for n in 0..27usize {
                let ls = [n % 3, n / 3 % 3, n / 9];
                let xs = vec![values(d.cx, t1, &mut |p| Lists::Len(SETS.iter().position(|s| *s == p).map_or(0, |k| ls[k])), ""), values(d.cx, t2, &mut |_| Lists::Run, "")];
                for (v, c) in product(xs) { d.call("C17", f, v, &c, false, true, &oracle); }
            }
        }
    }
}

pub fn display(d: &mut Direct) {
    for (ty, path) in [("Vertex", "obj"), ("TextureVertex", "obj"), ("NormalVertex", "obj"), ("VTNIndex", "obj"), ("Element", "obj"), ("Group", "obj"), ("SmoothingGroup", "obj"), ("ParseError", "obj"), ("ParseError", "mtl"), ("Object", "obj"), ("ObjectSet", "obj")] {
        let full = format!("wavefront_obj::{}::{}", path, ty);
        let Some(f) = d.find(&format!("<{} as std::fmt::Display>::fmt", full)) else { continue };
        let t = d.cx.prog.funcs[f].locals[1];
        let oracle = |st: &State, cx: &mut Cx, a: &[T]| -> Dec<Expect> {
            match fmtspec::render(st, cx, &full, &a[0]) {
                Ok(p) => { let p = fmtspec::expand(st, cx, &p)?; Ok(Expect::Value(T::node("written", vec![("result", T::node("Ok", vec![])), ("text", T::Str(p))]))) }
                Err(fmtspec::RErr::Fork(f)) => Err(f),
                Err(_) => Ok(Expect::Unknown),
            }
        };
        match ty {
            "Object" => {
                let mut proved = true;
                for (v, c) in values(d.cx, t, &mut |_| Lists::Run, "") { proved &= d.call("C16", f, vec![v], &c, true, false, &oracle); }
                if !proved {
                    d.miss("display of an object: not proved for lists of unknown length, looking at short lists");
                    for n in 0..4 { for m in 0..3 { let mut k = n; for (v, c) in values(d.cx, t, &mut |_| { k += m; Lists::Len(k % 4) }, "") { d.call("C16", f, vec![v], &c, true, true, &oracle); } } }
                }
            }
            "ObjectSet" => for n in 0..4 { for m in 0..3 {
                let mut k = 0;
                for (v, c) in values(d.cx, t, &mut |p| if p == "objects" { Lists::Len(n) } else { k += 1; Lists::Len(k * m % 3) }, "") { d.call("C16", f, vec![v], &c, true, true, &oracle); }
            } },
            _ => for (v, c) in values(d.cx, t, &mut |_| Lists::Len(1), "") { d.call("C16", f, vec![v], &c, true, true, &oracle); },
        }
    }
}

/// One value of a type that stands for many: every number and word is unknown.
fn one(cx: &mut Cx, t: TyId, cons: &mut Vec<Con>) -> V {
    match cx.prog.tys[t].kind.clone() {
        TyKind::Int { .. } => { let a = Lin::atom(cx.fresh(true)); if cx.prog.int_bounds(t).unwrap().0 == 0 { cons.push(Con::Ge(a.clone())); } V::Int(a) }
        TyKind::Bool => V::Bool(true),
        TyKind::Float => { let s = cx.fresh_str(StrKind::Tok); cons.push(Con::Flt(s, true)); V::Float(Fl::Parse(s)) }
        TyKind::Str => V::tok(cx.fresh_str(StrKind::Tok)),
        TyKind::Ref(u, _) => V::cref(one(cx, u, cons)),
        TyKind::Tuple(ts) => { let v = ts.iter().map(|t| one(cx, *t, cons)).collect(); V::agg(0, v) }
        TyKind::Adt { path, args, .. } if path == "std::vec::Vec" => { let x = one(cx, args[0], cons); V::seq(args[0], vec![Seg::El(x)]) }
        TyKind::Adt { path, .. } if path == "std::string::String" => V::tok(cx.fresh_str(StrKind::Tok)),
        TyKind::Adt { variants, .. } => { let k = variants.len() - 1; let v = variants[k].fields.iter().map(|f| one(cx, f.1, cons)).collect(); V::agg(k as u32, v) }
        _ => V::Top,
    }
}

type Pair = (V, V, Vec<Con>);
/// Pairs of values that differ, if at all, in one place: each place in turn.
fn pairs(cx: &mut Cx, t: TyId) -> Vec<Pair> {
    let fields = |cx: &mut Cx, k: u32, fs: &[TyId]| -> Vec<Pair> {
        let ps: Vec<Vec<Pair>> = fs.iter().map(|t| pairs(cx, *t)).collect();
        if ps.iter().all(|p| p.len() == 1) {
            // all at once
            let (mut x, mut y, mut c) = (vec![], vec![], vec![]);
            for p in ps { let (a, b, d) = p[0].clone(); x.push(a); y.push(b); c.extend(d); }
            return vec![(V::agg(k, x), V::agg(k, y), c)];
        }
        let mut out = vec![];
        for (i, p) in ps.into_iter().enumerate() {
            for (a, b, mut c) in p {
                let rest: Vec<V> = fs.iter().map(|t| one(cx, *t, &mut c)).collect();
                let (mut x, mut y) = (rest.clone(), rest);
                x[i] = a;
                y[i] = b;
                out.push((V::agg(k, x), V::agg(k, y), c));
            }
        }
        // the same parts in other places
        for i in 0..fs.len() { for j in i + 1..fs.len() {
            if fs[i] != fs[j] { continue; }
            for (a, b, mut c) in pairs(cx, fs[i]).into_iter().take(20) {
                let rest: Vec<V> = fs.iter().map(|t| one(cx, *t, &mut c)).collect();
                let (mut x, mut y) = (rest.clone(), rest);
                (x[i], x[j], y[i], y[j]) = (a.clone(), b.clone(), b, a);
                out.push((V::agg(k, x.clone()), V::agg(k, y), c.clone()));
                // all of them one further
                if fs.iter().all(|t| *t == fs[i]) && fs.len() > 2 { for d in 1..fs.len() { let mut y = x.clone(); y.rotate_left(d); out.push((V::agg(k, x.clone()), V::agg(k, y), c.clone())); } }
            }
        } }
        out
    };
    match cx.prog.tys[t].kind.clone() {
        TyKind::Bool => [(false, false), (false, true), (true, false), (true, true)].into_iter().map(|(a, b)| (V::Bool(a), V::Bool(b), vec![])).collect(),
        TyKind::Ref(u, _) => pairs(cx, u).into_iter().map(|(a, b, c)| (V::cref(a), V::cref(b), c)).collect(),
        TyKind::Tuple(ts) => fields(cx, 0, &ts),
        TyKind::Adt { path, args, .. } if path == "std::vec::Vec" => {
            let e = args[0];
            let list = |v: Vec<V>| V::seq(e, v.into_iter().map(Seg::El).collect());
            let mut c = vec![];
            let (x, y) = (one(cx, e, &mut c), one(cx, e, &mut c));
            let mut out = vec![(list(vec![]), list(vec![]), vec![]), (list(vec![]), list(vec![x.clone()]), c.clone()), (list(vec![x.clone()]), list(vec![]), c.clone()),
                (list(vec![x.clone()]), list(vec![x.clone(), y.clone()]), c.clone()), (list(vec![x.clone(), y.clone()]), list(vec![x.clone()]), c.clone())];
            for (n, (a, b, d)) in pairs(cx, e).into_iter().enumerate() {
                let d: Vec<Con> = c.iter().cloned().chain(d).collect();
                out.push((list(vec![a.clone()]), list(vec![b.clone()]), d.clone()));
                if n == 0 {
                    out.push((list(vec![a.clone(), b.clone()]), list(vec![b.clone(), a.clone()]), d.clone()));
                    out.push((list(vec![x.clone(), a.clone()]), list(vec![x.clone(), b.clone()]), d.clone()));
                    out.push((list(vec![a.clone(), x.clone()]), list(vec![b.clone(), x.clone()]), d.clone()));
                    out.push((list(vec![x.clone(), a, y.clone()]), list(vec![x.clone(), b, y.clone()]), d));
                }
            }
            out
        }
        TyKind::Adt { path, .. } if path == "std::string::String" => { let x = V::tok(cx.fresh_str(StrKind::Tok)); let y = V::tok(cx.fresh_str(StrKind::Tok)); vec![(x.clone(), y, vec![]), (x.clone(), V::lit(""), vec![]), (V::lit(""), x, vec![]), (V::lit(""), V::lit(""), vec![])] }
        TyKind::Adt { variants, .. } => {
            let fs: Vec<Vec<TyId>> = variants.iter().map(|v| v.fields.iter().map(|f| f.1).collect()).collect();
            let mut out = vec![];
            for (i, f) in fs.iter().enumerate() {
                if f.is_empty() { out.push((V::agg(i as u32, vec![]), V::agg(i as u32, vec![]), vec![])); } else { out.extend(fields(cx, i as u32, f)); }
                for (j, g) in fs.iter().enumerate() {
                    if i == j { continue; }
                    let mut c = vec![];
                    let x: Vec<V> = f.iter().map(|t| one(cx, *t, &mut c)).collect();
                    let y: Vec<V> = g.iter().map(|t| one(cx, *t, &mut c)).collect();
                    // the same parts, as far as both have them
                    if f.iter().zip(g).all(|(a, b)| a == b) { let z: Vec<V> = y.iter().enumerate().map(|(k, v)| x.get(k).cloned().unwrap_or(v.clone())).collect(); out.push((V::agg(i as u32, x.clone()), V::agg(j as u32, z), c.clone())); }
                    out.push((V::agg(i as u32, x), V::agg(j as u32, y), c));
                }
            }
            out
        }
        _ => { let mut c = vec![]; let (x, y) = (one(cx, t, &mut c), one(cx, t, &mut c)); vec![(x, y, c)] }
    }
}

/// Are two values the same, part by part? None: not known.
fn equal(st: &State, cx: &mut Cx, a: &T, b: &T) -> Dec<Option<bool>> {
    Ok(match (a, b) {
        (T::Int(x), T::Int(y)) => Some(st.eq0(cx, &x.sub(y))?),
        (T::Bool(x), T::Bool(y)) => Some(x == y),
        (T::Flt(Fl::C(x)), T::Flt(Fl::C(y))) => Some(f64::from_bits(*x) == f64::from_bits(*y)),
        (T::Flt(x), T::Flt(y)) => Some(st.float_cmp2(cx, Bin::Eq, x, y)?),
        (T::Str(x), T::Str(y)) => crate::native::str_eq(st, cx, x, y)?,
        (T::Node(n, _), T::Node(m, _)) if n != m => Some(false),
        (T::Node(_, f), T::Node(_, g)) => { for (x, y) in f.iter().zip(g) { match equal(st, cx, &x.1, &y.1)? { Some(true) => {} r => return Ok(r) } } Some(true) }
        (T::List(x), T::List(y)) if x.len() != y.len() => Some(false),
        (T::List(x), T::List(y)) => { for (x, y) in x.iter().zip(y) { match equal(st, cx, x, y)? { Some(true) => {} r => return Ok(r) } } Some(true) }
        _ => None,
    })
}

pub const VALUES: [&str; 21] = ["obj::Vertex", "obj::TextureVertex", "obj::NormalVertex", "obj::VTNIndex", "obj::Element", "obj::Group", "obj::SmoothingGroup", "obj::ShapeEntry", "obj::Shape", "obj::Geometry", "obj::VTNTriple", "obj::Object", "obj::ObjectSet", "obj::ErrorKind", "obj::ParseError", "mtl::Color", "mtl::IlluminationModel", "mtl::Material", "mtl::MaterialSet", "mtl::ErrorKind", "mtl::ParseError"];

/// The order of two values: illumination models by their numbers, colors part by part. None: not known.
fn order(st: &State, cx: &mut Cx, a: &T, b: &T) -> Dec<Option<&'static str>> {
    const MODELS: [&str; 3] = ["Ambient", "AmbientDiffuse", "AmbientDiffuseSpecular"];
    Ok(match (a, b) {
        (T::Flt(x), T::Flt(y)) => Some(match (st.float_cmp2(cx, Bin::Le, x, y)?, st.float_cmp2(cx, Bin::Ge, x, y)?) { (true, true) => "Equal", (true, false) => "Less", (false, true) => "Greater", _ => "None" }),
        (T::Node(n, f), T::Node(m, g)) if f.is_empty() && g.is_empty() => match (MODELS.iter().position(|x| n == x), MODELS.iter().position(|x| m == x)) { (Some(x), Some(y)) => Some(if x < y { "Less" } else if x == y { "Equal" } else { "Greater" }), _ => None },
        (T::Node(n, f), T::Node(m, g)) if n == m => { for (x, y) in f.iter().zip(g) { match order(st, cx, &x.1, &y.1)? { Some("Equal") => {} r => return Ok(r) } } Some("Equal") }
        _ => None,
    })
}

/// Comparison and copies of the values that parsing returns.
pub fn compare(d: &mut Direct) {
    for ty in VALUES {
        for (tr, m) in [("std::cmp::PartialEq", "eq"), ("std::cmp::PartialEq", "ne"), ("std::cmp::PartialOrd", "partial_cmp"), ("std::cmp::Ord", "cmp"), ("std::clone::Clone", "clone"), ("std::clone::Clone", "clone_from")] {
            let found: Vec<String> = d.cx.prog.roots.iter().map(|r| r.0.clone()).filter(|n| n.starts_with(&format!("<wavefront_obj::{}", ty)) && n.ends_with(&format!(" as {}>::{}", tr, m)) && n["<wavefront_obj::".len() + ty.len()..].starts_with([' ', '<'])).collect();
            for n in found {
                let Some(f) = d.find(&n) else { continue };
                let t = d.cx.prog.funcs[f].locals[1];
                if m == "clone_from" { d.miss("clone_from is not analysed"); continue; }
                let ps = pairs(d.cx, t);
                if m == "clone" {
                    for (a, _, c) in ps { d.call("C22", f, vec![a], &c, false, true, &|_, _, a| Ok(Expect::Value(a[0].clone()))); }
                } else if m == "cmp" || m == "partial_cmp" {
                    if ty != "mtl::IlluminationModel" && ty != "mtl::Color" { d.miss("an order of other types"); continue; }
                    for (a, b, c) in ps { d.call("C22", f, vec![a, b], &c, false, true, &|st, cx, a| Ok(match order(st, cx, &a[0], &a[1])? { Some(r) => { let v = T::node(r, vec![]); if r == "None" { return Ok(Expect::Value(v)); } Expect::Value(if m == "cmp" { v } else { T::node("Some", vec![("0", v)]) }) } None => Expect::Unknown })); }
                } else {
                    for (a, b, c) in ps { d.call("C22", f, vec![a, b], &c, false, true, &|st, cx, a| Ok(match equal(st, cx, &a[0], &a[1])? { Some(r) => Expect::Value(T::Bool(r == (m == "eq"))), None => Expect::Unknown })); }
                }
            }
        }
    }
}
