//! Reference semantics of the two file formats, as machines that consume one token at a
//! time, and the place where they are put in step with the analysed code: the function
//! that delivers tokens.
use crate::cv::T;
use crate::ir::*;
use crate::lin::*;
use crate::val::*;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Ghost { None, Mtl(Mtl), Obj(Obj), Lex(crate::lexer::Lex) }

/// What the next token may be, as far as an exploration is concerned.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Choice { Eof, Any, Lit(&'static str), Not(&'static [&'static str]), Float }

impl Choice {
    pub fn cons(&self, cx: &mut Cx) -> Vec<Con> {
        if let Choice::Eof = self { return vec![Con::Fetch(None)]; }
        let t = cx.fresh_str(StrKind::Tok);
        let mut c = vec![Con::Fetch(Some(t))];
        match self {
            Choice::Lit(l) => c.push(Con::Is(t, (*l).into())),
            Choice::Not(ls) => c.push(Con::Not(t, ls.iter().map(|l| (*l).into()).collect())),
            Choice::Float => c.push(Con::Flt(t, true)),
            _ => {}
        }
        c
    }
}

// ---- the cut ---------------------------------------------------------------

/// Is `t` the type that holds the text being read?
fn holds_text(p: &Program, t: TyId) -> bool {
    let TyKind::Adt { local: true, variants, is_enum: false, .. } = &p.tys[t].kind else { return false };
    variants.iter().any(|v| v.fields.iter().any(|(_, f)| match &p.tys[*f].kind {
        TyKind::Ref(u, _) => match &p.tys[*u].kind { TyKind::Str => true, TyKind::Slice(e) => matches!(p.tys[*e].kind, TyKind::Int { bits: 8, .. }), _ => false },
        // an iterator over the bytes or characters of the text
        TyKind::Adt { path, args, .. } => path.contains("std::str::") || (path == "std::slice::Iter" && args.iter().any(|a| matches!(p.tys[*a].kind, TyKind::Int { bits: 8, .. })))
            || (path.starts_with("std::iter::") && p.tys[*f].name.contains("str::")),
        _ => false,
    }))
}
fn method_of(p: &Program, f: &Func) -> Option<TyId> {
    if f.argc < 1 { return None; }
    match &p.tys[f.locals[1]].kind { TyKind::Ref(t, _) if holds_text(p, *t) => Some(*t), _ => None }
}
fn is_text(p: &Program, t: TyId) -> bool {
    match &p.tys[t].kind { TyKind::Ref(u, _) => match &p.tys[*u].kind { TyKind::Str => true, TyKind::Slice(e) => matches!(p.tys[*e].kind, TyKind::Int { bits: 8, .. }), _ => false }, _ => false }
}
pub fn delivers_tokens(p: &Program, f: &Func) -> bool {
    if !f.local { return false; }
    let Some(t) = method_of(p, f) else { return false };
    if !matches!(p.tys[f.locals[1]].kind, TyKind::Ref(_, true)) || f.argc != 1 { return false; }
    let _ = t;
    match &p.tys[f.locals[0]].kind { TyKind::Adt { path, args, .. } => path == "std::option::Option" && is_text(p, args[0]), _ => false }
}
pub fn is_cut(cx: &Cx, st: &State, cid: CalleeId) -> bool {
    if matches!(*st.ghost, Ghost::None | Ghost::Lex(_)) { return false; }
    cut_call(cx.prog, st.top().func, cid)
}
/// Does the type keep words besides the text itself?
fn caches(p: &Program, t: TyId, depth: usize) -> bool {
    if depth > 4 { return false; }
    match &p.tys[t].kind {
        TyKind::Adt { path, args, .. } if path == "std::option::Option" || path == "std::vec::Vec" || path == "std::collections::VecDeque" => args.iter().any(|a| is_text(p, *a) || caches(p, *a, depth + 1)),
        TyKind::Adt { local: true, variants, .. } => variants.iter().any(|v| v.fields.iter().any(|(_, f)| caches(p, *f, depth + 1))),
        TyKind::Tuple(ts) | TyKind::Adt { args: ts, .. } => ts.iter().any(|a| caches(p, *a, depth + 1)),
        _ => false,
    }
}
/// Is this call where the analysed code asks for a token?
pub fn cut_call(p: &Program, caller: FnId, cid: CalleeId) -> bool {
    let Some(f) = p.callees[cid].func else { return false };
    if !delivers_tokens(p, &p.funcs[f]) { return false; }
    if method_of(p, &p.funcs[caller]).is_some() { return false; }
    method_of(p, &p.funcs[f]).is_some_and(|t| !caches(p, t, 0))
}

pub fn fetch(st: &mut State, cx: &mut Cx, _cid: CalleeId) -> Dec<V> {
    if st.trace.as_ref().is_some_and(|t| matches!(t.ev, Ev::Eof)) { return Ok(V::none()); }
    if !st.fetched {
        return Err(Box::new(Fork(vec![], "fetch")));
    }
    let Some(p) = st.pending else {
        let menu = if st.finishing { vec![st.ghost.shortest_end()] } else { (cx.menu.clone())(&st.ghost) };
        let alts = menu.iter().map(|c| c.cons(cx)).collect();
        return Err(Box::new(Fork(alts, "token")));
    };
    let g = match &*st.ghost {
        Ghost::None => Ghost::None,
        Ghost::Lex(g) => Ghost::Lex(g.clone()),
        Ghost::Mtl(g) => { let mut g = g.clone(); g.token(st, cx, p)?; Ghost::Mtl(g) }
        Ghost::Obj(g) => { let mut g = g.clone(); g.token(st, cx, p)?; Ghost::Obj(g) }
    };
    st.ghost = Rc::new(g);
    st.pending = None;
    st.fetched = false;
    let len = st.trace.as_ref().map_or(0, |t| t.len) + 1;
    st.trace = Some(Rc::new(Trace { ev: match p { Some(t) => Ev::Tok(t), None => Ev::Eof }, prev: st.trace.clone(), len, at: crate::explore::calls(st, cx) }));
    Ok(match p { Some(t) => V::some(V::cref(V::tok(t))), None => V::none() })
}

impl Ghost {
    /// The result the reference semantics prescribes for the tokens read so far, if the
    /// input ends here.
    pub fn outcome(&self, st: &State, cx: &mut Cx) -> Dec<T> {
        match self {
            Ghost::None | Ghost::Lex(_) => Ok(T::Any),
            Ghost::Mtl(g) => {
                let mut g = g.clone();
                if !g.eof { g.token(st, cx, None)?; }
                Ok(g.result())
            }
            Ghost::Obj(g) => {
                let mut g = g.clone();
                if !g.eof { g.token(st, cx, None)?; }
                Ok(g.result())
            }
        }
    }
    pub fn ctl(&self) -> String { match self { Ghost::None => String::new(), Ghost::Lex(g) => format!("{:?}", g.s), Ghost::Mtl(g) => format!("{:?}", g.s), Ghost::Obj(g) => format!("{:?}", g.s) } }
    /// A word that brings the input closer to its end without an error, if there is one.
    pub fn shortest_end(&self) -> Choice {
        use Choice::*;
        match self {
            Ghost::None | Ghost::Lex(_) => Eof,
            Ghost::Mtl(g) => if g.err.is_some() { Eof } else { match g.s {
                MS::Start | MS::Body => Eof, MS::Name | MS::Map(_) => Not(&["\n"]), MS::Color(..) | MS::Float(_) => Float, MS::Illum => Lit("1"),
            } },
            Ghost::Obj(g) => if g.err.is_some() { Eof } else {
                let c = g.cur.as_ref();
                match g.s {
                    OS::Top | OS::Body | OS::V(3) | OS::Vt(1..) | OS::P(true) | OS::Lib | OS::G => Eof,
                    OS::V(_) | OS::Vt(_) | OS::Vn(_) => Float,
                    OS::OName | OS::Use => Not(&["\n"]),
                    OS::OEol => Lit("\n"),
                    OS::S => Lit("off"),
                    OS::P(_) => if c.is_some_and(|c| c.v.is_empty()) { Eof } else { Lit("-1") },
                    OS::L | OS::F => {
                        let need = if g.s == OS::L { 2 } else { 3 };
                        if g.idx.len() >= need { Eof } else { Lit(["-1", "-1/-1", "-1//-1", "-1/-1/-1"][g.idx.first().map_or(0, |x| x.form() as usize)]) }
                    }
                }
            },
        }
    }
    pub fn key(&self, h: &mut dyn Hasher) {
        match self { Ghost::None | Ghost::Lex(_) => {}, Ghost::Mtl(g) => g.key(h), Ghost::Obj(g) => g.key(h) }
    }
}

fn hash(h: &mut dyn Hasher, x: &impl Hash) {
    struct W<'a>(&'a mut dyn Hasher);
    impl Hasher for W<'_> { fn finish(&self) -> u64 { self.0.finish() } fn write(&mut self, b: &[u8]) { self.0.write(b) } }
    x.hash(&mut W(h));
}
fn clamp(n: usize, k: usize) -> u32 { n.min(k) as u32 }

fn fl(st: &State, t: StrId) -> Fl { match &st.sf(t).lit { Some(l) => Fl::C(l.parse::<f64>().unwrap_or(f64::NAN).to_bits()), None => Fl::Parse(t) } }

/// A list, possibly with runs of unknown length.
#[derive(Clone, Debug, PartialEq)]
pub struct L(pub Rc<Seq>);
impl Default for L { fn default() -> L { L(Rc::new(Seq { elem: 0, segs: vec![] })) } }
impl L {
    pub fn push(&mut self, v: V) { push_norm(&mut Rc::make_mut(&mut self.0).segs, Seg::El(v)); }
    pub fn count(&self) -> Lin { self.0.len() }
    /// the number of elements, or of those that are surely there
    pub fn len(&self) -> usize { let l = self.0.len(); l.is_const().unwrap_or_else(|| l.c.max(1)) as usize }
    pub fn is_empty(&self) -> bool { self.0.segs.is_empty() }
    fn clear(&mut self) { *self = L::default(); }
    fn take(&mut self) -> L { std::mem::take(self) }
    fn edit_last(&mut self, f: impl FnOnce(&mut Vec<V>)) {
        let s = Rc::make_mut(&mut self.0);
        if let Some(Seg::Comp { lo, hi, body }) = s.segs.last().cloned() {
            s.segs.pop();
            let h = hi.addk(-1);
            let v = body.at(&h);
            s.segs.push(Seg::Comp { lo, hi: h, body });
            s.segs.push(Seg::El(v));
        }
        if let Some(Seg::El(V::Agg(_, v))) = s.segs.last_mut() { f(Rc::make_mut(v)); }
    }
    fn tree(&self, f: &dyn Fn(&V) -> T) -> T {
        T::List(self.0.segs.iter().map(|g| match g {
            Seg::El(v) => f(v),
            Seg::Comp { lo, hi, body } => T::Comp(hi.sub(lo), Box::new(f(&body.at(&Lin::atom(BV).add(lo))))),
            Seg::Base { .. } => T::Unknown,
        }).collect())
    }
    fn v(&self) -> V { V::Seq(self.0.clone()) }
    fn of(v: &V) -> L { match v { V::Seq(s) => L(s.clone()), _ => L::default() } }
}
fn word_tree(v: &V) -> T { match v { V::S(p) => T::Str((**p).clone()), _ => T::Unknown } }
fn flt_tree(v: &V) -> T { match v { V::Float(x) => T::Flt(x.clone()), _ => T::Unknown } }
fn int_tree(v: &V) -> T { match v { V::Int(x) => T::Int(x.clone()), _ => T::Unknown } }
fn opt_tree(v: &V, f: &dyn Fn(&V) -> T) -> T { match v { V::Agg(1, x) => T::some(f(&x[0])), _ => T::none() } }
fn optv(v: &Option<V>) -> V { match v { Some(v) => V::some(v.clone()), None => V::none() } }
fn unopt(v: &V) -> Option<V> { match v { V::Agg(1, x) => Some(x[0].clone()), _ => None } }
fn lin_of(v: &V) -> Lin { v.lin().cloned().unwrap_or(Lin::k(0)) }
fn floats(v: Vec<Fl>) -> V { V::agg(0, v.into_iter().map(V::Float).collect()) }
fn fields(v: &V) -> &[V] { match v { V::Agg(_, f) => f, _ => &[] } }
fn node(name: &str, names: &[&str], v: &V) -> T { T::node(name, names.iter().zip(fields(v)).map(|(n, x)| (*n, flt_tree(x))).collect()) }

fn err_tree(kind: &str, line: &Lin, quoted: &[Piece]) -> T {
    T::node("Err", vec![("0", T::node("ParseError", vec![("line_number", T::Int(line.clone())), ("kind", T::node(kind, vec![])), ("message", T::Has(quoted.to_vec()))]))])
}

pub fn usize_ty(cx: &Cx) -> TyId { cx.prog.tys.iter().position(|t| t.name == "usize").unwrap() }
pub fn isize_ty(cx: &Cx) -> TyId { cx.prog.tys.iter().position(|t| t.name == "isize").unwrap() }

// ---- MTL -------------------------------------------------------------------

pub const MTL_COLORS: [(&str, &str); 4] = [("Ka", "color_ambient"), ("Kd", "color_diffuse"), ("Ks", "color_specular"), ("Ke", "color_emissive")];
pub const MTL_FLOATS: [(&str, &str); 3] = [("d", "dissolve"), ("Ns", "specular_exponent"), ("Ni", "optical_density")];
pub const MTL_MAPS: [(&str, &str); 10] = [
    ("map_Ka", "map_ambient"), ("map_Kd", "map_diffuse"), ("map_Ks", "map_specular"), ("map_Ke", "map_emissive"), ("map_Ns", "map_specular_exponent"),
    ("map_Bump", "map_bump"), ("bump", "map_bump"), ("disp", "map_displacement"), ("map_d", "map_dissolve"), ("decal", "map_decal"),
];
pub const MTL_MAP_FIELDS: [&str; 9] = ["map_ambient", "map_diffuse", "map_specular", "map_emissive", "map_specular_exponent", "map_bump", "map_displacement", "map_dissolve", "map_decal"];

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum MS { Start, Name, Body, Color(usize, usize), Float(usize), Illum, Map(usize) }

/// a material: name, four colours, dissolve, specular exponent, optical density, illumination model, maps
#[derive(Clone, Debug, PartialEq)]
pub struct Mtl { pub s: MS, pub mats: L, pub lines: Lin, pub err: Option<(&'static str, Lin, Vec<Piece>)>, pub eof: bool }

pub fn fc(x: f64) -> Fl { Fl::C(x.to_bits()) }

impl Mtl {
    pub fn new() -> Mtl { Mtl { s: MS::Start, mats: L::default(), lines: Lin::k(0), err: None, eof: false } }
    fn fail(&mut self, k: &'static str) -> Dec<()> { self.err = Some((k, self.lines.addk(1), vec![])); Ok(()) }
    /// An error whose message names these.
    fn fail_at(&mut self, k: &'static str, q: &[Piece]) -> Dec<()> { self.err = Some((k, self.lines.addk(1), q.to_vec())); Ok(()) }
    pub fn token(&mut self, st: &State, cx: &mut Cx, t: Option<StrId>) -> Dec<()> {
        if t.is_none() { self.eof = true; }
        if self.err.is_some() { return Ok(()); }
        self.dispatch(st, cx, t)?;
        // a line is counted once its end has been consumed
        if self.err.is_none() { if let Some(t) = t { if st.is_lit(cx, t, "\n")? { self.lines = self.lines.addk(1); } } }
        Ok(())
    }
    fn dispatch(&mut self, st: &State, cx: &mut Cx, t: Option<StrId>) -> Dec<()> {
        match self.s.clone() {
            MS::Start => {
                let Some(t) = t else { return Ok(()) };
                match st.which(cx, t, &["\n", "newmtl"])? {
                    Some(0) => Ok(()),
                    Some(_) => { self.s = MS::Name; Ok(()) }
                    None => self.fail_at("ExpectedEndOfInput", &[Piece::Tok(t)]),
                }
            }
            MS::Name => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                if st.is_lit(cx, t, "\n")? { return self.fail("ErrorParsingMaterial"); }
                let z = || V::Float(fc(0.0));
                let mut m = vec![V::tok(t)];
                for _ in 0..12 { m.push(z()); }
                m.extend([V::Float(fc(1.0)), z(), V::none(), V::int(2)]);
                for _ in 0..9 { m.push(V::none()); }
                self.mats.push(V::agg(0, m));
                self.s = MS::Body;
                Ok(())
            }
            MS::Body => {
                let Some(t) = t else { return Ok(()) };
                let mut kw = vec!["\n", "newmtl", "illum"];
                kw.extend(MTL_COLORS.iter().map(|x| x.0));
                kw.extend(MTL_FLOATS.iter().map(|x| x.0));
                kw.extend(MTL_MAPS.iter().map(|x| x.0));
                match st.which(cx, t, &kw)? {
                    Some(0) => {}
                    Some(1) => self.s = MS::Name,
                    Some(2) => self.s = MS::Illum,
                    Some(k) if k < 7 => self.s = MS::Color(k - 3, 0),
                    Some(k) if k < 10 => self.s = MS::Float(k - 7),
                    Some(k) => self.s = MS::Map(MTL_MAP_FIELDS.iter().position(|f| *f == MTL_MAPS[k - 10].1).unwrap()),
                    None => return self.fail_at("ErrorParsingMaterial", &[Piece::Tok(t)]),
                }
                Ok(())
            }
            MS::Color(c, k) => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                if !st.is_float(cx, t)? { return self.fail_at("ExpectedFloat", &[Piece::Tok(t)]); }
                // the components take effect together
                let x = fl(st, t);
                self.mats.edit_last(|m| m[1 + 3 * c + k] = V::Float(x));
                self.s = if k == 2 { MS::Body } else { MS::Color(c, k + 1) };
                Ok(())
            }
            MS::Float(k) => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                if !st.is_float(cx, t)? { return self.fail_at("ExpectedFloat", &[Piece::Tok(t)]); }
                let x = V::Float(fl(st, t));
                self.mats.edit_last(|m| match k { 0 => m[13] = x, 1 => m[14] = x, _ => m[15] = V::some(x) });
                self.s = MS::Body;
                Ok(())
            }
            MS::Illum => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                let ty = usize_ty(cx);
                let Some(v) = st.parse_int(cx, t, ty)? else { return self.fail_at("ExpectedInteger", &[Piece::Tok(t)]) };
                let mut m = None;
                for (k, n) in ["Ambient", "AmbientDiffuse", "AmbientDiffuseSpecular"].iter().enumerate() { if st.eq0(cx, &v.addk(-(k as i128)))? { let _ = n; m = Some(k); break; } }
                let Some(m) = m else { return self.fail_at("UnknownIlluminationModel", &[Piece::Int(v)]) };
                self.mats.edit_last(|x| x[16] = V::int(m as i128));
                self.s = MS::Body;
                Ok(())
            }
            MS::Map(k) => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                if st.is_lit(cx, t, "\n")? { return self.fail("ErrorParsingMaterial"); }
                self.mats.edit_last(|m| m[17 + k] = V::some(V::tok(t)));
                self.s = MS::Body;
                Ok(())
            }
        }
    }
    pub fn result(&self) -> T {
        if let Some((k, l, q)) = &self.err { return err_tree(k, l, q); }
        let mats = self.mats.tree(&|m| {
            let m = fields(m);
            let mut f: Vec<(&str, T)> = vec![("name", word_tree(&m[0]))];
            for (k, c) in MTL_COLORS.iter().enumerate() { f.push((c.1, T::node("Color", vec![("r", flt_tree(&m[1 + 3 * k])), ("g", flt_tree(&m[2 + 3 * k])), ("b", flt_tree(&m[3 + 3 * k]))]))); }
            f.push(("specular_exponent", flt_tree(&m[14])));
            f.push(("dissolve", flt_tree(&m[13])));
            f.push(("optical_density", opt_tree(&m[15], &flt_tree)));
            f.push(("illumination_model", match m[16].lin().and_then(|l| l.is_const()) { Some(k) => T::node(["Ambient", "AmbientDiffuse", "AmbientDiffuseSpecular"][k as usize], vec![]), None => T::Unknown }));
            for (k, n) in MTL_MAP_FIELDS.iter().enumerate() { f.push((n, opt_tree(&m[17 + k], &word_tree))); }
            T::node("Material", f)
        });
        T::node("Ok", vec![("0", T::node("MaterialSet", vec![("materials", mats)]))])
    }
    pub fn key(&self, h: &mut dyn Hasher) {
        hash(h, &self.s);
        hash(h, &clamp(self.mats.len(), 3));
        hash(h, &self.lines.is_const().map(|l| l.min(3)));
        hash(h, &self.err.as_ref().map(|e| (e.0, e.1.is_const())));
        hash(h, &self.eof);
    }
}

// ---- OBJ -------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum OS { Top, Lib, OName, OEol, Body, V(usize), Vt(usize), Vn(usize), P(bool), L, F, G, S, Use }

#[derive(Clone, Debug, PartialEq)]
pub struct Vtn { pub v: Lin, pub t: Option<Lin>, pub n: Option<Lin> }
impl Vtn {
    pub fn form(&self) -> u8 { self.t.is_some() as u8 + 2 * self.n.is_some() as u8 }
    fn enc(&self) -> V {
        let o = |x: &Option<Lin>| match x { Some(l) => V::some(V::Int(l.clone())), None => V::none() };
        V::agg(0, vec![V::Int(self.v.clone()), o(&self.t), o(&self.n)])
    }
    fn dec(v: &V) -> Vtn { let f = fields(v); Vtn { v: lin_of(&f[0]), t: unopt(&f[1]).map(|x| lin_of(&x)), n: unopt(&f[2]).map(|x| lin_of(&x)) } }
    fn tree(&self) -> T {
        match (&self.t, &self.n) {
            (None, None) => T::node("V", vec![("0", T::Int(self.v.clone()))]),
            (Some(t), None) => T::node("VT", vec![("0", T::Int(self.v.clone())), ("1", T::Int(t.clone()))]),
            (None, Some(n)) => T::node("VN", vec![("0", T::Int(self.v.clone())), ("1", T::Int(n.clone()))]),
            (Some(t), Some(n)) => T::node("VTN", vec![("0", T::Int(self.v.clone())), ("1", T::Int(t.clone())), ("2", T::Int(n.clone()))]),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct GObj {
    pub name: Option<V>,
    pub v: L,
    pub vt: L,
    pub vn: L,
    pub groups: L,
    pub sgs: L,
    pub els: L,
    /// groups and smoothing group of each element
    pub shapes: L,
    pub geos: L,
    // what applies to the next element
    pub cur_groups: L,
    cur_sg: Lin,
    mat: Option<Option<V>>,
    section: L,
}
impl GObj {
    fn enc(&self) -> V {
        V::agg(0, vec![optv(&self.name), self.v.v(), self.vt.v(), self.vn.v(), self.groups.v(), self.sgs.v(), self.els.v(), self.shapes.v(), self.geos.v(), self.cur_groups.v(), V::Int(self.cur_sg.clone()), match &self.mat { Some(m) => V::some(optv(m)), None => V::none() }, self.section.v()])
    }
    fn dec(v: &V) -> GObj {
        let f = fields(v);
        GObj { name: unopt(&f[0]), v: L::of(&f[1]), vt: L::of(&f[2]), vn: L::of(&f[3]), groups: L::of(&f[4]), sgs: L::of(&f[5]), els: L::of(&f[6]), shapes: L::of(&f[7]), geos: L::of(&f[8]), cur_groups: L::of(&f[9]), cur_sg: lin_of(&f[10]), mat: unopt(&f[11]).map(|m| unopt(&m)), section: L::of(&f[12]) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub s: OS,
    pub libs: L,
    pub done: L,
    pub cur: Option<GObj>,
    /// vertices, texture vertices and normals of the objects before
    pub base: [Lin; 3],
    pub floats: Vec<Fl>,
    pub idx: Vec<Vtn>,
    pub lines: Lin,
    pub err: Option<(&'static str, Lin, Vec<Piece>)>,
    pub eof: bool,
}

impl Ghost {
    /// What changes from word to word, as a value; and back.
    pub fn enc(&self) -> V {
        match self {
            Ghost::None => V::unit(),
            Ghost::Lex(g) => g.enc(),
            Ghost::Mtl(g) => V::agg(0, vec![g.mats.v(), V::Int(g.lines.clone()), match &g.err { Some((_, l, _)) => V::some(V::Int(l.clone())), None => V::none() }]),
            Ghost::Obj(g) => V::agg(0, vec![g.libs.v(), g.done.v(), match &g.cur { Some(c) => V::some(c.enc()), None => V::none() }, V::agg(0, g.base.iter().map(|l| V::Int(l.clone())).collect()), floats(g.floats.clone()),
                V::agg(g.idx.len() as u32, g.idx.iter().map(|x| x.enc()).collect()), V::Int(g.lines.clone()), match &g.err { Some((_, l, _)) => V::some(V::Int(l.clone())), None => V::none() }]),
        }
    }
    pub fn dec(&self, v: &V) -> Option<Ghost> {
        let f = fields(v);
        Some(match self {
            Ghost::None => return None,
            Ghost::Lex(g) => Ghost::Lex(g.dec(v)?),
            Ghost::Mtl(g) => { if g.err.is_some() { return None; } let mut g = g.clone(); g.mats = L::of(&f[0]); g.lines = lin_of(&f[1]); Ghost::Mtl(g) }
            Ghost::Obj(g) => {
                if g.err.is_some() || !g.idx.is_empty() { return None; }
                let mut g = g.clone();
                g.libs = L::of(&f[0]); g.done = L::of(&f[1]); g.cur = unopt(&f[2]).map(|c| GObj::dec(&c));
                g.base = [0, 1, 2].map(|i| lin_of(&fields(&f[3])[i]));
                g.lines = lin_of(&f[6]);
                Ghost::Obj(g)
            }
        })
    }
    /// The control state.
    pub fn same_ctl(&self, o: &Ghost) -> bool {
        match (self, o) { (Ghost::Mtl(a), Ghost::Mtl(b)) => a.s == b.s && a.eof == b.eof, (Ghost::Obj(a), Ghost::Obj(b)) => a.s == b.s && a.eof == b.eof && a.floats == b.floats, (Ghost::Lex(a), Ghost::Lex(b)) => a.n == b.n && a.ended == b.ended && std::mem::discriminant(&a.s) == std::mem::discriminant(&b.s) && a.out.len() == b.out.len(), _ => false }
    }
}

pub const OBJ_KW: [&str; 12] = ["\n", "v", "vt", "vn", "p", "l", "f", "g", "s", "usemtl", "o", "mtllib"];

impl Obj {
    pub fn new() -> Obj { Obj { s: OS::Top, libs: L::default(), done: L::default(), cur: None, base: [Lin::k(0), Lin::k(0), Lin::k(0)], floats: vec![], idx: vec![], lines: Lin::k(0), err: None, eof: false } }
    fn fail(&mut self, k: &'static str) -> Dec<()> { self.err = Some((k, self.lines.addk(1), vec![])); Ok(()) }
    /// An error whose message names these.
    fn fail_at(&mut self, k: &'static str, q: &[Piece]) -> Dec<()> { self.err = Some((k, self.lines.addk(1), q.to_vec())); Ok(()) }
    pub fn token(&mut self, st: &State, cx: &mut Cx, t: Option<StrId>) -> Dec<()> {
        if t.is_none() { self.eof = true; }
        if self.err.is_some() { return Ok(()); }
        self.dispatch(st, cx, t)?;
        if self.err.is_none() { if let Some(t) = t { if st.is_lit(cx, t, "\n")? { self.lines = self.lines.addk(1); } } }
        Ok(())
    }
    fn counts(&self) -> [Lin; 3] { let c = self.cur.as_ref().unwrap(); [c.v.count(), c.vt.count(), c.vn.count()] }
    fn finish(&mut self) {
        if let Some(mut c) = self.cur.take() {
            if let Some(m) = c.mat.take() { let s = c.section.take(); c.geos.push(V::agg(0, vec![optv(&m), s.v()])); }
            self.base = [self.base[0].add(&c.v.count()), self.base[1].add(&c.vt.count()), self.base[2].add(&c.vn.count())];
            self.done.push(c.enc());
        }
    }
    fn element(&mut self, e: &[&Vtn]) {
        let c = self.cur.as_mut().unwrap();
        c.section.push(V::Int(c.els.count()));
        c.els.push(V::agg(e.len() as u32, e.iter().map(|x| x.enc()).collect()));
        c.shapes.push(V::agg(0, vec![c.cur_groups.v(), V::Int(c.cur_sg.clone())]));
    }
    fn begin_elements(&mut self) {
        let c = self.cur.as_mut().unwrap();
        if c.groups.is_empty() { c.groups.push(V::lit("default")); c.cur_groups.clear(); c.cur_groups.push(V::int(0)); }
        if c.sgs.is_empty() { c.sgs.push(V::int(0)); c.cur_sg = Lin::k(0); }
        if c.mat.is_none() { c.mat = Some(None); }
    }
    /// An index of the file as an index into the object's own list.
    fn resolve(&self, st: &State, cx: &Cx, k: usize, v: &Lin) -> Dec<Option<Lin>> {
        let min = &self.base[k];
        let max = min.add(&self.counts()[k]);
        let abs = if st.ge0(cx, &v.neg())? { v.add(&max) } else { v.addk(-1) };
        if !st.ge0(cx, &abs.sub(min))? || !st.ge0(cx, &max.addk(-1).sub(&abs))? { return Ok(None); }
        Ok(Some(abs.sub(min)))
    }
    fn fail_range(&mut self, k: usize) -> Dec<()> {
        let min = self.base[k].clone();
        let max = min.add(&self.counts()[k]);
        self.fail_at("VTNIndexOutOfRange", &[Piece::Int(min), Piece::Int(max)])
    }
    fn vtn(&mut self, st: &State, cx: &mut Cx, t: StrId) -> Dec<()> {
        let ps = st.parts(cx, t)?;
        let ty = isize_ty(cx);
        let mut out: Vec<Option<Lin>> = vec![];
        for (k, p) in ps.iter().enumerate().take(3) {
            if st.is_empty_str(cx, *p)? { out.push(None); continue; }
            let Some(v) = st.parse_int(cx, *p, ty)? else { return self.fail_at("ExpectedInteger", &[Piece::Tok(*p)]) };
            let Some(r) = self.resolve(st, cx, k, &v)? else { return self.fail_range(k) };
            out.push(Some(r));
        }
        if out[0].is_none() || ps.len() > 3 { return self.fail_at("ExpectedVTNIndex", &[Piece::Tok(t)]); }
        let mut it = out.into_iter();
        self.idx.push(Vtn { v: it.next().unwrap().unwrap(), t: it.next().flatten(), n: it.next().flatten() });
        Ok(())
    }
    fn dispatch(&mut self, st: &State, cx: &mut Cx, t: Option<StrId>) -> Dec<()> {
        let nl = match t { Some(t) if matches!(self.s, OS::Lib | OS::OName | OS::OEol | OS::P(_) | OS::L | OS::F | OS::G | OS::S | OS::Use) => st.is_lit(cx, t, "\n")?, _ => false };
        match self.s.clone() {
            OS::Top => {
                let Some(x) = t else { return Ok(()) };
                match st.which(cx, x, &OBJ_KW)? {
                    Some(0) => Ok(()),
                    Some(11) => { self.s = OS::Lib; Ok(()) }
                    Some(10) => { self.cur = Some(GObj::default()); self.s = OS::OName; Ok(()) }
                    _ => { self.cur = Some(GObj::default()); self.s = OS::Body; self.dispatch(st, cx, t) }
                }
            }
            OS::Lib => {
                match t { Some(t) if !nl => self.libs.push(V::tok(t)), _ => self.s = OS::Top }
                Ok(())
            }
            OS::OName => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                if nl { return self.fail("InvalidObjectStatement"); }
                self.cur.as_mut().unwrap().name = Some(V::tok(t));
                self.s = OS::OEol;
                Ok(())
            }
            OS::OEol => {
                if t.is_none() { return self.fail("EndOfFile"); }
                if !nl { return self.fail_at("ExpectedTagStatement", &[Piece::Tok(t.unwrap())]); }
                self.s = OS::Body;
                Ok(())
            }
            OS::Body => {
                let Some(t) = t else { self.finish(); return Ok(()) };
                match st.which(cx, t, &OBJ_KW[..11])? {
                    Some(0) => {}
                    Some(1) => { self.floats.clear(); self.s = OS::V(0); }
                    Some(2) => { self.floats.clear(); self.s = OS::Vt(0); }
                    Some(3) => { self.floats.clear(); self.s = OS::Vn(0); }
                    Some(4) => { self.begin_elements(); self.s = OS::P(false); }
                    Some(5) => { self.begin_elements(); self.idx.clear(); self.s = OS::L; }
                    Some(6) => { self.begin_elements(); self.idx.clear(); self.s = OS::F; }
                    Some(7) => { let c = self.cur.as_mut().unwrap(); if !c.groups.is_empty() { c.cur_groups.clear(); } self.s = OS::G; }
                    Some(8) => self.s = OS::S,
                    Some(9) => {
                        let c = self.cur.as_mut().unwrap();
                        if !c.section.is_empty() { let s = c.section.take(); let m = c.mat.clone().unwrap(); c.geos.push(V::agg(0, vec![optv(&m), s.v()])); }
                        self.s = OS::Use;
                    }
                    Some(_) => { self.finish(); self.cur = Some(GObj::default()); self.s = OS::OName; }
                    None => return self.fail_at("InvalidObjectStatement", &[Piece::Tok(t)]),
                }
                Ok(())
            }
            OS::V(k) => {
                if k < 3 {
                    let Some(t) = t else { return self.fail("EndOfFile") };
                    if !st.is_float(cx, t)? { return self.fail_at("ExpectedFloat", &[Piece::Tok(t)]); }
                    self.floats.push(fl(st, t));
                    self.s = OS::V(k + 1);
                    return Ok(());
                }
                let w = match t { Some(t) if st.is_float(cx, t)? => Some(fl(st, t)), _ => None };
                let f = self.floats.clone();
                let used = w.is_some();
                self.cur.as_mut().unwrap().v.push(floats(vec![f[0].clone(), f[1].clone(), f[2].clone(), w.unwrap_or(fc(1.0))]));
                self.s = OS::Body;
                if used { Ok(()) } else { self.dispatch(st, cx, t) }
            }
            OS::Vt(k) => {
                let isf = match t { Some(t) => st.is_float(cx, t)?, None => false };
                if k == 0 {
                    if t.is_none() { return self.fail("EndOfFile"); }
                    if !isf { return self.fail_at("ExpectedFloat", &[Piece::Tok(t.unwrap())]); }
                }
                if isf { self.floats.push(fl(st, t.unwrap())); }
                if isf && k < 2 { self.s = OS::Vt(k + 1); return Ok(()); }
                let f = |i: usize| self.floats.get(i).cloned().unwrap_or(fc(0.0));
                let x = floats(vec![f(0), f(1), f(2)]);
                self.cur.as_mut().unwrap().vt.push(x);
                self.s = OS::Body;
                if isf { Ok(()) } else { self.dispatch(st, cx, t) }
            }
            OS::Vn(k) => {
                let Some(t) = t else { return self.fail("EndOfFile") };
                if !st.is_float(cx, t)? { return self.fail_at("ExpectedFloat", &[Piece::Tok(t)]); }
                self.floats.push(fl(st, t));
                if k < 2 { self.s = OS::Vn(k + 1); return Ok(()); }
                let f = self.floats.clone();
                self.cur.as_mut().unwrap().vn.push(floats(vec![f[0].clone(), f[1].clone(), f[2].clone()]));
                self.s = OS::Body;
                Ok(())
            }
            OS::P(some) => {
                if some && (nl || t.is_none()) { self.s = OS::Body; return if t.is_none() { self.dispatch(st, cx, t) } else { Ok(()) }; }
                let Some(t) = t else { return self.fail("EndOfFile") };
                let ty = isize_ty(cx);
                let Some(v) = st.parse_int(cx, t, ty)? else { return self.fail_at("ExpectedInteger", &[Piece::Tok(t)]) };
                let Some(r) = self.resolve(st, cx, 0, &v)? else { return self.fail_range(0) };
                self.element(&[&Vtn { v: r, t: None, n: None }]);
                self.s = OS::P(true);
                Ok(())
            }
            OS::L | OS::F => {
                let line = self.s == OS::L;
                let n = self.idx.len();
                if (nl || t.is_none()) && (!line || n >= 2) {
                    if !line && n < 3 { return self.fail("EveryFaceElementMustHaveAtLeastThreeVertices"); }
                    if self.idx.iter().any(|x| x.form() != self.idx[0].form()) { return self.fail("EveryVTNIndexMustHaveTheSameFormForAGivenElement"); }
                    let ix = std::mem::take(&mut self.idx);
                    if line { for w in ix.windows(2) { self.element(&[&w[0], &w[1]]); } }
                    else { for w in ix[1..].windows(2) { self.element(&[&ix[0], &w[0], &w[1]]); } }
                    self.s = OS::Body;
                    return self.dispatch(st, cx, t);
                }
                let Some(t) = t else { return self.fail("EndOfFile") };
                self.vtn(st, cx, t)
            }
            OS::G => {
                match t {
                    Some(t) if !nl => { let c = self.cur.as_mut().unwrap(); c.cur_groups.push(V::Int(c.groups.count())); c.groups.push(V::tok(t)); Ok(()) }
                    _ => { self.s = OS::Body; if t.is_none() { self.dispatch(st, cx, t) } else { Ok(()) } }
                }
            }
            OS::S => {
                let Some(t) = t.filter(|_| !nl) else { return self.fail("SmoothingGroupDeclarationHasNoName") };
                let v = if st.is_lit(cx, t, "off")? { Lin::k(0) } else {
                    let ty = usize_ty(cx);
                    let Some(v) = st.parse_int(cx, t, ty)? else { return self.fail_at("SmoothingGroupNameMustBeOffOrInteger", &[Piece::Tok(t)]) };
                    v
                };
                let c = self.cur.as_mut().unwrap();
                c.cur_sg = c.sgs.count();
                c.sgs.push(V::Int(v));
                self.s = OS::Body;
                Ok(())
            }
            OS::Use => {
                let Some(t) = t.filter(|_| !nl) else { return self.fail("MaterialStatementHasNoName") };
                self.cur.as_mut().unwrap().mat = Some(Some(V::tok(t)));
                self.s = OS::Body;
                Ok(())
            }
        }
    }
    pub fn result(&self) -> T {
        if let Some((k, l, q)) = &self.err { return err_tree(k, l, q); }
        let objs = self.done.tree(&|o| {
            let o = GObj::dec(o);
            let nums = |l: &V| L::of(l).tree(&int_tree);
            T::node("Object", vec![
                ("name", match &o.name { Some(t) => word_tree(t), None => T::Str(vec![]) }),
                ("vertex_set", o.v.tree(&|v| node("Vertex", &["x", "y", "z", "w"], v))),
                ("texture_vertex_set", o.vt.tree(&|v| node("TextureVertex", &["u", "v", "w"], v))),
                ("normal_vertex_set", o.vn.tree(&|v| node("NormalVertex", &["x", "y", "z"], v))),
                ("group_set", o.groups.tree(&|g| T::node("Group", vec![("0", word_tree(g))]))),
                ("smoothing_group_set", o.sgs.tree(&|l| T::node("SmoothingGroup", vec![("0", int_tree(l))]))),
                ("element_set", o.els.tree(&|e| { let V::Agg(k, f) = e else { return T::Unknown }; T::node(["", "Point", "Line", "Face"][*k as usize], f.iter().enumerate().map(|(i, x)| (["0", "1", "2"][i], Vtn::dec(x).tree())).collect()) })),
                // an entry says which element it is for: the one at the same place
                ("shape_set", L(Rc::new(Seq { elem: 0, segs: o.shapes.0.segs.iter().scan(Lin::k(0), |at, g| {
                    let from = at.clone();
                    *at = at.add(&g.len());
                    let with = |v: &V, i: Lin| { let mut f = fields(v).to_vec(); f.push(V::Int(i)); V::agg(0, f) };
                    Some(match g { Seg::El(v) => Seg::El(with(v, from)), Seg::Comp { lo, hi, body } => Seg::Comp { lo: lo.clone(), hi: hi.clone(), body: with(body, Lin::atom(BV).sub(lo).add(&from)) }, g => g.clone() })
                }).collect() })).tree(&|v| { let f = fields(v); T::node("ShapeEntry", vec![("element", int_tree(&f[2])), ("groups", nums(&f[0])), ("smoothing_group", int_tree(&f[1]))]) })),
                ("geometry_set", o.geos.tree(&|v| { let f = fields(v); T::node("Geometry", vec![("material_name", opt_tree(&f[0], &word_tree)), ("shapes", nums(&f[1]))]) })),
            ])
        });
        T::node("Ok", vec![("0", T::node("ObjectSet", vec![("material_libraries", self.libs.tree(&word_tree)), ("objects", objs)]))])
    }
    pub fn key(&self, h: &mut dyn Hasher) {
        hash(h, &self.s);
        hash(h, &self.err.as_ref().map(|e| (e.0, e.1.is_const())));
        hash(h, &self.eof);
        hash(h, &clamp(self.libs.len(), 2));
        hash(h, &clamp(self.done.len(), 2));
        hash(h, &self.lines.is_const().map(|l| l.min(2)));
        hash(h, &(clamp(self.idx.len(), 5), self.floats.len()));
        for x in self.idx.iter().take(2) { hash(h, &x.form()); }
        for b in &self.base { hash(h, &b.is_const().map(|l| l.min(2))); }
        if let Some(c) = &self.cur {
            hash(h, &(c.name.is_some(), clamp(c.v.len(), 2), clamp(c.vt.len(), 2), clamp(c.vn.len(), 2), clamp(c.groups.len(), 3), clamp(c.sgs.len(), 3), clamp(c.els.len(), 3), clamp(c.geos.len(), 3)));
            hash(h, &(clamp(c.cur_groups.len(), 2), clamp(c.section.len(), 2), c.mat.as_ref().map(|m| m.is_some())));
        }
    }
}
