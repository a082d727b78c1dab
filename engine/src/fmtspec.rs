//! Formatting: what `format_args!` stands for, and the reference rendering of the public types.
use crate::cv::{self, T};
use crate::ir::*;
use crate::lin::Lin;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Spec { /// 0 Display, 1 Debug, 2 LowerExp, 3 LowerHex, 4 UpperHex, 5 Octal, 6 Binary, 7 UpperExp
    pub kind: u8, pub flags: u32, pub width: Option<u16>, pub prec: Option<u16> }

fn strip(p: &Program, mut t: TyId) -> TyId { while let TyKind::Ref(u, _) = p.tys[t].kind { t = u; } t }

/// What `Display` writes for a value.
pub fn display(st: &State, cx: &Cx, v: &V, ty: TyId) -> Dec<Option<Vec<Piece>>> {
    let ty = strip(cx.prog, ty);
    let v = st.deref_all(cx, v)?;
    Ok(Some(match (&v, &cx.prog.tys[ty].kind) {
        (V::Top | V::Undef, _) => return Ok(None),
        (V::S(p), _) => (**p).clone(),
        (V::Int(l), TyKind::Char) => match l.is_const().and_then(|c| char::from_u32(c as u32)) { Some(c) => vec![Piece::Lit(c.to_string().as_str().into())], None => return Ok(None) },
        (V::Int(l), _) => vec![Piece::Int(l.clone())],
        (V::Bool(b), _) => vec![Piece::Lit(b.to_string().as_str().into())],
        (V::Float(f), _) => vec![Piece::Flt(f.clone())],
        _ => vec![Piece::Disp(ty, Rc::new(st.resolve(cx, &v)?))],
    }))
}

pub fn arguments(st: &State, cx: &mut Cx, template: &V, args: &V) -> Dec<V> {
    let bytes: Vec<u8> = match st.deref_all(cx, template)? {
        V::S(p) => match &p[..] { [] => vec![], [Piece::Lit(l)] => l.as_bytes().to_vec(), _ => return Ok(V::Top) },
        V::Seq(s) => {
            let mut b = vec![];
            for g in &s.segs { match g { Seg::El(V::Int(l)) if l.is_const().is_some() => b.push(l.c as u8), _ => return Ok(V::Top) } }
            b
        }
        _ => return Ok(V::Top),
    };
    let V::Seq(args) = st.deref_all(cx, args)? else { return Ok(V::Top) };
    let args: Vec<V> = args.segs.iter().map(|g| if let Seg::El(v) = g { v.clone() } else { V::Top }).collect();
    let mut out: Vec<Piece> = vec![];
    let (mut i, mut next) = (0usize, 0usize);
    macro_rules! byte { () => {{ let Some(b) = bytes.get(i) else { return Ok(V::Top) }; i += 1; *b }} }
    macro_rules! u16v { () => {{ let a = byte!() as u16; let b = byte!() as u16; a | b << 8 }} }
    loop {
        let n = byte!();
        if n == 0 { break; }
        if n <= 0x80 {
            let len = if n < 0x80 { n as usize } else { u16v!() as usize };
            let Some(s) = bytes.get(i..i + len).and_then(|b| std::str::from_utf8(b).ok()) else { return Ok(V::Top) };
            out.push(Piece::Lit(s.into()));
            i += len;
            continue;
        }
        let mut sp = Spec::default();
        if n & 1 != 0 { let a = u16v!() as u32; sp.flags = a | (u16v!() as u32) << 16; }
        if n & 2 != 0 { sp.width = Some(u16v!()); }
        if n & 4 != 0 { sp.prec = Some(u16v!()); }
        if n & 8 != 0 { next = u16v!() as usize; }
        if n & 48 != 0 { return Ok(V::Top); }
        let Some(V::Agg(k, f)) = args.get(next).cloned() else { return Ok(V::Top) };
        next += 1;
        let Some(ty) = f[0].lin().and_then(|l| l.is_const()) else { return Ok(V::Top) };
        let Some(ps) = display(st, cx, &f[1], ty as usize)? else { return Ok(V::Top) };
        sp.kind = k as u8;
        // an integer looks the same either way
        if sp.kind == 1 && matches!(ps[..], [Piece::Int(_)]) { sp.kind = 0; }
        // what is only a default setting spelled out
        if sp.flags == 0x6000_0020 { sp.flags = 0; }
        if sp == Spec::default() { out.extend(ps); } else { out.push(Piece::Fmt(sp, Rc::new(ps))); }
    }
    Ok(V::S(Rc::new(out)))
}

/// The text of a formatted piece, for a concrete text or number.
pub enum Con { Text(String), Int(i128), Flt(f64) }
pub fn concrete(sp: &Spec, c: &Con) -> Option<String> {
    let f = sp.flags;
    if f & (7 << 23 | 1 << 26) != 0 && f & 1 << 24 == 0 { return None; }
    let plus = f & 1 << 21 != 0;
    let mut s = match c {
        Con::Text(t) => { let t = if sp.kind == 1 { format!("{:?}", t) } else { t.clone() }; match sp.prec { Some(p) => t.chars().take(p as usize).collect(), None => t } }
        Con::Int(i) => match sp.kind { 2 => format!("{:e}", i), 7 => format!("{:E}", i), 3 => format!("{:x}", i), 4 => format!("{:X}", i), 5 => format!("{:o}", i), 6 => format!("{:b}", i), _ => i.to_string() },
        Con::Flt(x) => match (sp.prec, sp.kind) { (Some(p), 2) => format!("{:.*e}", p as usize, x), (Some(p), _) => format!("{:.*}", p as usize, x), (None, 1) => format!("{:?}", x), (None, 2) => format!("{:e}", x), (None, 7) => format!("{:E}", x), (None, _) => x.to_string() },
    };
    let num = !matches!(c, Con::Text(_));
    if plus && num && !s.starts_with('-') { s.insert(0, '+'); }
    if let Some(w) = sp.width {
        let n = s.chars().count();
        if n < w as usize {
            let pad = w as usize - n;
            if f & 1 << 24 != 0 && num { let at = if s.starts_with(['+', '-']) { 1 } else { 0 }; s.insert_str(at, &"0".repeat(pad)); return Some(s); }
            let fill = char::from_u32(f & 0x1f_ffff).filter(|c| *c != '\0').unwrap_or(' ');
            let (l, r) = match (f >> 29 & 3, f == 0) { (1, _) => (pad, 0), (2, _) => (pad / 2, pad - pad / 2), (0, false) => (0, pad), _ => if num { (pad, 0) } else { (0, pad) } };
            s = format!("{}{}{}", fill.to_string().repeat(l), s, fill.to_string().repeat(r));
        }
    }
    Some(s)
}

// ---- the reference rendering -------------------------------------------------

fn lit(s: &str) -> Piece { Piece::Lit(s.into()) }
pub enum RErr { Fork(Box<Fork>), Unknown }
type R<X> = Result<X, RErr>;
fn leaf(t: &T) -> R<Vec<Piece>> {
    Ok(match t { T::Int(l) => vec![Piece::Int(l.clone())], T::Flt(f) => vec![Piece::Flt(f.clone())], T::Str(p) => p.clone(), _ => return Err(RErr::Unknown) })
}
fn get<'a>(t: &'a T, n: &str) -> R<&'a T> { if let T::Node(_, f) = t { f.iter().find(|x| x.0 == n).map(|x| &x.1) } else { None }.ok_or(RErr::Unknown) }
fn words(kw: &str, t: &T, fs: &[&str]) -> R<Vec<Piece>> {
    let mut out = vec![lit(kw)];
    for f in fs { out.push(lit("  ")); out.extend(leaf(get(t, f)?)?); }
    Ok(out)
}
fn is_zero(st: &State, cx: &Cx, l: &Lin) -> R<bool> { st.eq0(cx, l).map_err(RErr::Fork) }

/// The text prescribed for a value of the type with this path, `None` if too little is known of it.
pub fn render(st: &State, cx: &Cx, path: &str, t: &T) -> R<Vec<Piece>> {
    let p = path.strip_prefix("wavefront_obj::").ok_or(RErr::Unknown)?;
    let T::Node(var, f) = t else { return Err(RErr::Unknown) };
    if var == "sel" { return Err(RErr::Unknown); }
    Ok(match p {
        "obj::Vertex" => words("v", t, &["x", "y", "z", "w"])?,
        "obj::TextureVertex" => words("vt", t, &["u", "v", "w"])?,
        "obj::NormalVertex" => words("vn", t, &["x", "y", "z"])?,
        "obj::VTNIndex" => {
            let seps = match var.as_str() { "V" => vec![""], "VT" => vec!["", "/"], "VN" => vec!["", "//"], "VTN" => vec!["", "/", "/"], _ => return Err(RErr::Unknown) };
            let mut out = vec![];
            for (s, (_, x)) in seps.iter().zip(f) {
                let T::Int(l) = x else { return Err(RErr::Unknown) };
                out.push(lit(s));
                out.push(Piece::Int(l.addk(1)));
            }
            out
        }
        "obj::Element" => {
            let mut out = vec![lit(match var.as_str() { "Point" => "p", "Line" => "l", "Face" => "f", _ => return Err(RErr::Unknown) })];
            for (_, x) in f { out.push(lit("  ")); out.extend(render(st, cx, "wavefront_obj::obj::VTNIndex", x)?); }
            out
        }
        "obj::Group" => leaf(get(t, "0")?)?,
        "obj::SmoothingGroup" => { let T::Int(l) = get(t, "0")? else { return Err(RErr::Unknown) }; if is_zero(st, cx, l)? { vec![lit("off")] } else { vec![Piece::Int(l.clone())] } }
        "obj::ParseError" | "mtl::ParseError" => {
            let mut out = vec![lit("Parse error at line ")];
            out.extend(leaf(get(t, "line_number")?)?);
            out.push(lit(": "));
            out.extend(leaf(get(t, "message")?)?);
            out
        }
        "obj::Object" => {
            let mut out = vec![lit("Object {\n    name: ")];
            out.extend(leaf(get(t, "name")?)?);
            out.push(lit("\n"));
            for (fd, nm, ty) in [("vertex_set", "vertex", "Vertex"), ("texture_vertex_set", "texture vertex", "TextureVertex"), ("normal_vertex_set", "normal vertex", "NormalVertex"), ("group_set", "group", "Group"), ("smoothing_group_set", "smoothing group", "SmoothingGroup"), ("element_set", "element", "Element")] {
                let path = format!("wavefront_obj::obj::{}", ty);
                out.push(lit(&format!("    {} set:\n        data: [", nm)));
                let one = |x: &T| match sel_of(x) { Some(v) => Ok(vec![Piece::Disp(cx.prog.find_adt(&path).ok_or(RErr::Unknown)?, Rc::new(v))]), None => render(st, cx, &path, x) };
                let (len, ends) = match get(t, fd)? {
                    T::List(l) => (Lin::k(l.len() as i128), l.first().map(|a| (a.clone(), l.last().unwrap().clone()))),
                    T::Node(n, g) if n == "run" => {
                        let (T::Int(id), T::Int(len)) = (&g[0].1, &g[1].1) else { return Err(RErr::Unknown) };
                        let at = |i: Lin| T::node("sel", vec![("run", T::Int(id.clone())), ("at", T::Int(i))]);
                        (len.clone(), if is_zero(st, cx, len)? { None } else { Some((at(Lin::k(0)), at(len.addk(-1)))) })
                    }
                    _ => return Err(RErr::Unknown),
                };
                if let Some((a, b)) = ends { out.push(lit("(")); out.extend(one(&a)?); out.push(lit(") ... (")); out.extend(one(&b)?); out.push(lit(")")); }
                out.push(lit("]\n        length: "));
                out.push(Piece::Int(len));
                out.push(lit("\n"));
            }
            out.push(lit("}\n"));
            out
        }
        "obj::ObjectSet" => {
            let T::List(l) = get(t, "objects")? else { return Err(RErr::Unknown) };
            let mut out = vec![lit("ObjectSet {\n")];
            for o in l { out.extend(render(st, cx, "wavefront_obj::obj::Object", o)?); out.push(lit("\n")); }
            out.push(lit("}\n"));
            out
        }
        _ => return Err(RErr::Unknown),
    })
}
fn sel_of(t: &T) -> Option<V> {
    let T::Node(n, f) = t else { return None };
    if n != "sel" { return None; }
    let (T::Int(a), T::Int(i)) = (&f[0].1, &f[1].1) else { return None };
    Some(V::Sel(a.c as u32, i.clone(), Rc::new(V::Top)))
}

/// Replace the text of nested values by what is prescribed for them (their own rendering is
/// checked separately).
pub fn expand(st: &State, cx: &Cx, ps: &[Piece]) -> Dec<Vec<Piece>> {
    let mut out = vec![];
    for p in ps {
        if let Piece::Disp(ty, v) = p {
            if let V::Sel(a, i, _) = &**v { out.push(Piece::Disp(*ty, Rc::new(V::Sel(*a, i.clone(), Rc::new(V::Top))))); continue; }
            let t = cv::tree(st, cx, v, *ty);
            if let Some((path, _)) = cx.prog.adt(*ty) { match render(st, cx, path, &t) { Ok(q) => { out.extend(expand(st, cx, &q)?); continue; } Err(RErr::Fork(f)) => return Err(f), _ => {} } }
        }
        if let Piece::Fmt(sp, q) = p { out.push(Piece::Fmt(*sp, Rc::new(expand(st, cx, q)?))); continue; }
        out.push(p.clone());
    }
    Ok(cv::norm_pieces(st, &out))
}
