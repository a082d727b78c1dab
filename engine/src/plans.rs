//! The explorations: which part of the token alphabet each of them covers in depth.
use crate::explore::Limits;
use crate::spec::*;
use std::rc::Rc;
use Choice::*;

pub struct Plan { pub name: &'static str, pub mtl: bool, pub what: &'static str, pub menu: Rc<dyn Fn(&Ghost) -> Vec<Choice>>, pub lim: Limits }

fn obj(f: impl Fn(&Obj) -> Vec<Choice> + 'static) -> Rc<dyn Fn(&Ghost) -> Vec<Choice>> {
    Rc::new(move |g| match g { Ghost::Obj(o) => if o.err.is_some() { vec![Eof, Lit("\n")] } else { f(o) }, _ => vec![Eof, Any] })
}
fn mtl(f: impl Fn(&Mtl) -> Vec<Choice> + 'static) -> Rc<dyn Fn(&Ghost) -> Vec<Choice>> {
    Rc::new(move |g| match g { Ghost::Mtl(o) => if o.err.is_some() { vec![Eof, Lit("\n")] } else { f(o) }, _ => vec![Eof, Any] })
}
fn lits(l: &[&'static str]) -> Vec<Choice> { l.iter().map(|x| Lit(x)).collect() }
fn with(mut a: Vec<Choice>, b: &[Choice]) -> Vec<Choice> { a.extend_from_slice(b); a }

/// A vertex statement written the shortest way.
fn plain_vertex(o: &Obj) -> Option<Vec<Choice>> {
    Some(match o.s { OS::V(3) | OS::Vt(1) => vec![Lit("\n")], OS::V(_) | OS::Vt(_) | OS::Vn(_) => vec![Lit("0.5")], _ => return None })
}

pub fn plans(thorough: bool) -> Vec<Plan> {
    let k = if thorough { 8 } else { 1 };
    let lim = |states: usize, len: usize, clamp: i128, per_key: usize| Limits { states: states * k, seconds: if thorough { 3000.0 } else { 150.0 }, len, clamp, findings: 80, per_key };
    vec![
        Plan { name: "mtl-repeat", mtl: true, what: "MTL: any number of statements and materials", menu: mtl(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-repeat-0", mtl: false, what: "OBJ: any number of statements, operands and objects", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-repeat-1", mtl: false, what: "OBJ: any number of statements, operands and objects", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-repeat-2", mtl: false, what: "OBJ: any number of statements, operands and objects", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-repeat-3", mtl: false, what: "OBJ: any number of statements, operands and objects", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-tree-objects", mtl: false, what: "OBJ: every sequence of several objects", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-tree-data", mtl: false, what: "OBJ: every sequence of several data statements and elements", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-tree-layout", mtl: false, what: "OBJ: every sequence of several statements and blank lines", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-general", mtl: false, what: "OBJ: any amount of each kind of data, then every short sequence of statements", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "obj-tree-shapes", mtl: false, what: "OBJ: every sequence of several groups, smoothing groups, materials and elements", menu: obj(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "mtl-tree", mtl: true, what: "MTL: every sequence of several statements of a material", menu: mtl(|_| vec![Eof]), lim: lim(0, 0, 3, 1) },
        Plan { name: "mtl-any", mtl: true, what: "MTL: any tokens", menu: mtl(|_| vec![Eof, Any]), lim: lim(6000, 40, 3, 1) },
        Plan { name: "mtl-statements", mtl: true, what: "MTL: sequences of statements with plain operands", menu: mtl(|g| match g.s {
            MS::Color(_, k) => if k == 0 { vec![Not(&[])] } else { vec![Any] },
            MS::Name => vec![Any], MS::Map(_) => vec![Any], _ => vec![Eof, Any] }), lim: lim(12000, 40, 3, 1) },
        Plan { name: "mtl-materials", mtl: true, what: "MTL: several materials", menu: mtl(|g| match g.s {
            MS::Start => vec![Lit("newmtl"), Lit("\n"), Eof], MS::Name => vec![Not(&["\n"])],
            MS::Body => lits(&["newmtl", "\n", "Kd", "Ni", "illum", "map_Ka", "d"]).into_iter().chain([Eof]).collect(),
            MS::Color(..) | MS::Float(_) => vec![Any], MS::Illum => lits(&["0", "1", "2", "3"]), MS::Map(_) => vec![Any] }), lim: lim(12000, 60, 4, 1) },
        Plan { name: "obj-any", mtl: false, what: "OBJ: any tokens", menu: obj(|_| vec![Eof, Any]), lim: lim(4000, 40, 3, 1) },
        Plan { name: "obj-vertex", mtl: false, what: "OBJ: vertex data statements", menu: obj(|o| match o.s {
            OS::Top | OS::Body => with(lits(&["v", "vt", "vn", "\n", "o"]), &[Eof, Not(&["v", "vt", "vn", "\n", "o", "p", "l", "f", "g", "s", "usemtl", "mtllib"])]),
            OS::OName => vec![Lit("a")], OS::OEol => vec![Lit("\n")], _ => vec![Eof, Any] }), lim: lim(2500, 24, 3, 2) },
        Plan { name: "obj-index", mtl: false, what: "OBJ: element statements with any index tokens", menu: obj(|o| plain_vertex(o).unwrap_or_else(|| match o.s {
            OS::Top | OS::Body => with(lits(&["v", "vt", "vn", "p", "l", "f", "o"]), &[Eof]),
            OS::OName => vec![Lit("a")], OS::OEol => vec![Lit("\n")], _ => vec![Eof, Any] })), lim: lim(1000, 40, 3, 1) },
        Plan { name: "obj-face", mtl: false, what: "OBJ: long lists of indices", menu: obj(|o| plain_vertex(o).unwrap_or_else(|| match o.s {
            OS::Top => lits(&["v"]),
            OS::Body => {
                let c = o.cur.as_ref().unwrap();
                if c.v.len() < 3 { lits(&["v"]) } else if c.vt.is_empty() { lits(&["vt"]) } else if c.vn.is_empty() { lits(&["vn"]) } else { with(lits(&["p", "l", "f", "\n"]), &[Eof]) }
            }
            OS::P(_) => with(lits(&["1", "2", "-1", "\n"]), &[Eof]),
            _ => if o.idx.len() > 7 { with(lits(&["\n"]), &[Eof]) } else { with(lits(&["1", "2", "-1", "3/1", "2/-1", "2//1", "3/1/1", "1//-1", "\n"]), &[Eof]) } })), lim: lim(12000, 60, 8, 3) },
        Plan { name: "obj-shapes", mtl: false, what: "OBJ: groups, smoothing groups, materials and elements in sequence", menu: obj(|o| plain_vertex(o).unwrap_or_else(|| match o.s {
            OS::Top => lits(&["v"]),
            OS::Body => {
                let c = o.cur.as_ref().unwrap();
                if c.v.is_empty() { lits(&["v"]) } else if o.done.len() >= 1 { with(lits(&["g", "s", "usemtl", "p"]), &[Eof]) } else { with(lits(&["g", "s", "usemtl", "p", "f", "o"]), &[Eof]) }
            }
            OS::OName => vec![Lit("a")], OS::OEol => vec![Lit("\n")],
            OS::P(true) => lits(&["\n"]), OS::P(_) => lits(&["-1"]),
            OS::F => if o.idx.len() < 4 { lits(&["-1"]) } else { lits(&["\n"]) },
            OS::G => if o.cur.as_ref().unwrap().cur_groups.len() < 2 { vec![Not(&["\n"]), Lit("\n")] } else { lits(&["\n"]) },
            OS::S => vec![Lit("off"), Lit("7")], OS::Use => vec![Not(&["\n"])],
            _ => vec![Eof, Any] })), lim: lim(40000, 60, 6, 6) },
        Plan { name: "obj-objects", mtl: false, what: "OBJ: libraries and several objects", menu: obj(|o| plain_vertex(o).unwrap_or_else(|| match o.s {
            OS::Top => with(lits(&["mtllib", "\n", "v", "o"]), &[Eof]),
            OS::Body => with(lits(&["v", "vt", "vn", "p", "o", "\n"]), &[Eof]),
            OS::Lib => vec![Not(&["\n"]), Lit("\n"), Eof],
            OS::OName => vec![Not(&["\n"])], OS::OEol => vec![Lit("\n")],
            OS::P(true) => lits(&["\n"]), OS::P(_) => vec![Any],
            _ => vec![Eof, Any] })), lim: lim(6000, 60, 4, 1) },
        Plan { name: "obj-lines", mtl: false, what: "OBJ: statements and errors over several lines", menu: obj(|o| match o.s {
            OS::V(3) | OS::Vt(1) => lits(&["\n", "0.5"]), OS::V(_) | OS::Vt(_) | OS::Vn(_) => with(lits(&["0.5", "\n"]), &[Eof]),
            OS::Body | OS::Top => with(lits(&["\n", "v", "vt", "p", "l", "f", "g", "s", "usemtl", "o", "mtllib", "bogus"]), &[Eof]),
            OS::P(_) | OS::L | OS::F => with(lits(&["1", "9", "1/1", "x", "\n"]), &[Eof]),
            OS::S => with(lits(&["1", "x", "\n"]), &[Eof]),
            _ => with(lits(&["a", "\n"]), &[Eof]) }), lim: lim(15000, 40, 4, 1) },
    ]
}

/// A repetition: what comes before, what is repeated, and ways to go on after it.
pub struct Script { pub name: &'static str, pub prefix: Vec<Choice>, pub unit: Vec<Choice>, pub suffixes: Vec<Vec<Choice>> }

fn words(t: &'static str) -> Vec<Choice> {
    t.split(' ').filter(|w| !w.is_empty()).map(|w| match w { "$F" => Float, "$N" => Not(&["\n"]), "$A" => Any, ";" => Lit("\n"), w => Lit(w) }).collect()
}

pub fn scripts(mtl: bool) -> Vec<Script> {
    let sc = |name: &'static str, prefix: &'static str, unit: &'static str, suf: &[&'static str]| Script { name, prefix: words(prefix), unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() };
    if mtl {
        return vec![
            sc("materials", "", "newmtl $N ;", &["bogus", "newmtl ;", "Kd $F $F $F ; illum 0 ;"]),
            sc("full materials", "", "newmtl $N ; Ka $F $F $F ; Kd $F $F $F ; Ks $F $F $F ; Ke $F $F $F ; Ns $F ; Ni $F ; d $F ; illum 1 ; map_Ka $N ; map_Kd $N ; map_Ks $N ; map_Ke $N ; map_Ns $N ; map_d $N ; map_Bump $N ; disp $N ; decal $N ;", &["bogus"]),
            sc("blank lines", "", ";", &["bogus", "newmtl $N ; bogus"]),
            sc("blank lines in a material", "newmtl $N ;", ";", &["bogus", "Kd x", "newmtl $N ; illum 7"]),
            sc("repeated statement", "newmtl $N ;", "Kd $F $F $F ; Ni $F ; map_Kd $N ; illum 0 ;", &["bogus", "illum 7", "Ni ;"]),
        ];
    }
    let base = "v $F $F $F ; v $F $F $F ; v $F $F $F ; vt $F ; vt $F ; vt $F ; vn $F $F $F ; vn $F $F $F ; vn $F $F $F ; ";
    let sb = |name: &'static str, unit: &'static str, suf: &[&'static str]| Script { name, prefix: words(base), unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() };
    let sl = |name: &'static str, kw: &'static str, unit: &'static str, suf: &[&'static str]| { let mut p = words(base); p.push(Lit(kw)); Script { name, prefix: p, unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() } };
    vec![
        sc("vertices", "", "v $F $F $F ;", &["bogus", "p -1 1 ;", "p 0 ;", "l 1 -1 ;", "o $N ; v $F $F $F ; p -1 ; p 1 ;"]),
        sc("texture vertices", "v $F $F $F ;", "vt $F $F ;", &["bogus", "l 1/1 1/-1 ;", "l 1/2 1/3 ;", "vt $F ;"]),
        sc("normals", "v $F $F $F ;", "vn $F $F $F ;", &["bogus", "l 1//1 1//-1 ;", "f 1//2 1//3 1//1 ;"]),
        sb("points", "p 1 ;", &["bogus", "p 2 3 ; usemtl $N ; p 1 ; g $N ; p 2 ;", "p 9 ;"]),
        sb("lines", "l 1 2 ;", &["bogus", "l 2 3 1 ; s 7 ; l 1 2 ;"]),
        sb("faces", "f 1 2 3 ;", &["bogus", "f 1/1 2/2 3/3 ; usemtl $N ; f 1 2 3 ; o $N ; v $F $F $F ; p -1 ;"]),
        sb("groups", "g $N ; f 1 2 3 ;", &["bogus", "p 1 ;", "g $N $N ; p 1 2 ;", "g ; p 1 ;"]),
        sb("groups without elements", "g $N ;", &["p 1 ;", "g $N $N ; p 1 2 ; g $N ;"]),
        sb("smoothing groups", "s 3 ; p 1 ;", &["bogus", "s off ; p 1 ;", "s x", "g $N ; p 1 ;"]),
        sb("smoothing groups without elements", "s off ;", &["p 1 ;", "s 9 ; p 1 2 ;"]),
        sb("materials", "usemtl $N ; f 1 2 3 ;", &["bogus", "usemtl $N ;", "p 1 ; usemtl $N ; p 2 ;"]),
        sb("materials without elements", "usemtl $N ;", &["p 1 ;", "f 1 2 3 ; usemtl $N ; p 1 ;"]),
        sb("everything", "g $N ; s 2 ; usemtl $N ; f 1/1 2/2 3/3 ; l 1 2 ; p 3 ;", &["bogus", "o $N ; v $F $F $F ; p -1 ;"]),
        sc("objects", "", "o $N ; v $F $F $F ; p -1 ;", &["bogus", "o $N ; p -1 ;", "o ;"]),
        sc("objects with everything", "", "o $N ; v $F $F $F ; vt $F ; vn $F $F $F ; g $N ; s 1 ; usemtl $N ; f -1/-1/-1 -1/-1/-1 -1/-1/-1 ;", &["bogus", "p 1 ;", "p -2 ;"]),
        sc("empty objects", "", "o $N ;", &["bogus", "v $F $F $F ; p 1 ;"]),
        sc("blank lines", "", ";", &["bogus", "v $F ;", "v $F $F $F ; p 7 ;"]),
        sb("blank lines in an object", ";", &["bogus", "p 1 ;", "f 1 2 ;", "s x"]),
        sc("libraries", "", "mtllib $N ;", &["bogus", "v $F $F $F ;", "mtllib $N $N ; o $N ;"]),
        sc("libraries in one statement", "mtllib", "$N", &["; bogus", "; o $N ; v $F $F $F ;", "; mtllib $N"]),
        sl("group names in one statement", "g", "$N", &["; p 1 2 ;", "; bogus", "; g $N ; p 1 ;"]),
        sl("points in one statement", "p", "1", &["; p 2 ;", "2 3 ;", "9 ;", "1/1 ;", "; bogus"]),
        sl("vertices in a line", "l", "1 2", &[";", "3 ;", "3 1/1 ;", "9 ;", "; bogus", "; l 1 2 ;", "1//1 ;"]),
        sl("texture vertices in a line", "l", "1/1 2/2", &[";", "3/3 ;", "1 ;", "1/1/1 ;"]),
        sl("normals in a line", "l", "1//1 2//2", &[";", "3//3 ;", "1/1 ;"]),
        sl("vertices in a face", "f", "1 2", &[";", "3 ;", "3 1/1 ;", "9 ;", "; bogus", "; f 3 2 1 ;", "1//1 ;", "0 ;"]),
        sl("texture vertices in a face", "f", "1/1 2/2 3/1", &[";", "3/3 ;", "1 ;", "1/1/1 ;", "1//1 ;"]),
        sl("normals in a face", "f", "1//1 2//2 3//1", &[";", "3//3 ;", "1/1 ;", "1 ;"]),
        sl("everything in a face", "f", "1/1/1 2/2/2 3/3/3", &[";", "3/3/1 ;", "1 ;", "1//1 ;", "1/1 ;"]),
    ]
}

/// Repetitions that are followed for every number of repetitions at once: everything that is
/// repeated is spelled out.
pub fn unbounded(mtl: bool) -> Vec<Script> {
    let sc = |name: &'static str, prefix: &'static str, unit: &'static str, suf: &[&'static str]| Script { name, prefix: words(prefix), unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() };
    if mtl {
        return vec![
            sc("materials", "newmtl $N ; Ns 2 ; newmtl $N ; Ni 3 ;", "newmtl a ;", &["bogus", "newmtl ;", "Kd 1 0 $A", "illum $A", "newmtl $N ; Ns 2 ; newmtl $N ;"]),
            sc("blank lines", "", ";", &["bogus", "newmtl $N ; bogus"]),
            sc("blank lines in a material", "newmtl $N ;", ";", &["bogus", "Kd x", "newmtl $N ; illum 7", "map_Kd ;"]),
            sc("statements in a material", "newmtl $N ;", "Kd 1 0 1 ; illum 0 ;", &["bogus", "Ni ;", "illum 9"]),
        ];
    }
    // what comes before the repetition differs from what is repeated, so that the order matters
    let base = "v 1 2 3 ; v 4 5 6 ; v 7 8 9 ; vt 1 ; vt 2 ; vn 1 0 0 ; vn 0 1 0 ; ";
    let sp = |name: &'static str, more: &'static str, unit: &'static str, suf: &[&'static str]| { let mut p = words(base); p.extend(words(more)); Script { name, prefix: p, unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() } };
    let sb = |name: &'static str, unit: &'static str, suf: &[&'static str]| Script { name, prefix: words(base), unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() };
    let sl = |name: &'static str, kw: &'static str, unit: &'static str, suf: &[&'static str]| { let mut p = words(base); p.extend(words(kw)); Script { name, prefix: p, unit: words(unit), suffixes: suf.iter().map(|s| words(s)).collect() } };
    vec![
        sc("vertices", "v 7 8 9 ; v 4 5 6 ;", "v 1 2 3 ;", &["bogus", "p $A ;", "l $A 1 ;", "f 1 -1 $A ;", "o $N ; v 4 5 6 ; p $A ;", "o $N ; v 4 5 6 ; f 1 $A"]),
        sc("texture vertices", "v 4 5 6 ; vt 7 ; vt 5 ;", "vt 1 2 ;", &["bogus", "l 1/1 1/-1 ;", "l -1/-1 $A ;", "o $N ; v 1 2 3 ; vt 3 ; l 1/1 $A ;", "o $N ; v 1 2 3 ; vt 3 ; l -1/-1 -1/-1 ;"]),
        sc("normals", "v 4 5 6 ; vn 7 8 9 ; vn 4 5 6 ;", "vn 1 2 3 ;", &["bogus", "l 1//1 1//-1 ;", "l -1//-1 $A ;", "o $N ; v 1 2 3 ; vn 1 0 0 ; l -1//-1 -1//-1 ;", "o $N ; v 1 2 3 ; vn 1 0 0 ; l -1//-1 $A ;"]),
        sp("points", "p 2 ; l 1 2 ;", "p 1 ;", &["bogus", "p 2 3 ; usemtl $N ; p 1 ; g $N ; p 2 ; s 4 ; p 3 ;", "p 9 ;"]),
        sp("lines", "p 2 ; l 2 3 ;", "l 1 2 ;", &["bogus", "l 2 3 1 ; s 7 ; l 1 2 ;"]),
        sp("faces", "p 2 ; f 3 1 2 ;", "f 1 2 3 ;", &["bogus", "f 1/1 2/2 3/1 ; usemtl $N ; f 1 2 3 ; g $N ; p 1 ; o $N ; v 1 2 3 ; p -1 ;"]),
        sp("groups", "g $N ; p 2 ;", "g a ; p 1 ;", &["bogus", "p 1 ;", "g $N $N ; p 1 2 ;", "g ; p 1 ;"]),
        sp("groups without elements", "g $N ;", "g a ;", &["p 1 ;", "g $N $N ; p 1 2 ; g $N ;"]),
        sp("smoothing groups", "s 4 ; p 2 ;", "s 3 ; p 1 ;", &["bogus", "s off ; p 1 ;", "s x", "g $N ; p 1 ;"]),
        sp("smoothing groups without elements", "s 4 ;", "s off ;", &["p 1 ;", "s 9 ; p 1 2 ;"]),
        sp("materials", "usemtl $N ; p 2 ;", "usemtl a ; p 1 ;", &["bogus", "usemtl $N ;", "p 1 ; usemtl $N ; p 2 ;"]),
        sc("objects", "o $N ; v 4 5 6 ; v 7 8 9 ; o b ; v 6 5 4 ; p 3 ;", "o a ; v 1 2 3 ; p -1 ;", &["bogus", "o $N ; p -1 ;", "o $N ; v 1 2 3 ; p $A ;"]),
        sc("objects with everything", "o $N ; v 4 5 6 ; vt 7 ; vt 8 ; o b ; vn 4 5 6 ;", "o a ; v 1 2 3 ; vt 1 ; vn 1 0 0 ; g b ; s 1 ; usemtl c ; f -1/-1/-1 -1/-1/-1 -1/-1/-1 ;", &["bogus", "p $A ;", "l -1/-1/-1 $A ;"]),
        sc("empty objects", "o $N ; o b ;", "o a ;", &["bogus", "v 1 2 3 ; p 1 ;"]),
        sc("blank lines", "", ";", &["bogus", "v 1 ;", "v 1 2 3 ; p 7 ;", "o a b"]),
        sb("blank lines in an object", ";", &["bogus", "p 1 ;", "f 1 2 ;", "s x", "p 0", "v 1 2 x", "l 1 2/1 ;", "usemtl ;", "p 1/1/1/1", "l 1/1/1/1"]),
        sc("libraries", "mtllib $N b ;", "mtllib a ;", &["bogus", "v 1 2 3 ;", "mtllib $N $N ; o $N ;"]),
        sc("libraries in one statement", "mtllib $N b", "a", &["; bogus", "; o $N ; v 1 2 3 ;", "; mtllib $N"]),
        sl("group names in one statement", "g $N b", "a", &["; p 1 2 ;", "; bogus", "; g $N ; p 1 ;"]),
        sl("points in one statement", "p 3 2", "1", &["; p 2 ;", "2 3 ;", "9 ;", "; bogus", "; g $N ; p 2 ; usemtl $N ; p 3 ;"]),
    ]
}

/// A base (pieces that come once, or any number of times), then every sequence of so many pieces.
pub struct Tree { pub name: &'static str, pub plan: &'static str, pub base: Vec<(Vec<Choice>, bool)>, pub pieces: Vec<Vec<Choice>>, pub depth: usize, pub tails: Vec<Vec<Choice>> }

/// A star before a piece: any number of times.
pub fn trees(thorough: bool) -> Vec<Tree> {
    let d = |q: usize, t: usize| if thorough { t } else { q };
    let t = |plan: &'static str, name: &'static str, base: &[&'static str], pieces: &[&'static str], depth: usize, tails: &[&'static str]| Tree { name, plan, base: base.iter().map(|b| match b.strip_prefix('*') { Some(b) => (words(b), true), None => (words(b), false) }).collect(), pieces: pieces.iter().map(|p| words(p)).collect(), depth, tails: tails.iter().map(|p| words(p)).collect() };
    vec![
        t("obj-tree-objects", "objects with and without elements", &[], &["o $N ;", "o $N ; v $F $F $F ; p -1 ;"], d(8, 10), &["bogus"]),
        t("obj-tree-objects", "objects of several kinds", &[], &["o a ;", "o b ; v $F $F $F ; p -1 ;", "o $N ; v $F $F $F ; vn $F $F $F ; l -1//-1 1//1 ;", "o a ; v $F $F $F ; vt $F ; l -1/-1 -1/1 ;", "o b ; vt $F ; vn $F $F $F ;", "g $N ; v $F $F $F ; usemtl $N ; f -1 -1 -1 ; s 2 ; p -1 ;", "mtllib $N ;"], d(5, 6), &[]),
        t("obj-tree-data", "data and elements", &[], &["v $F $F $F ;", "vt $F $F ;", "vn $F $F $F ;", "p -1 ;", "o a ;"], d(6, 8), &["p 1 ;", "l -1/-1 1/1 ;", "l 1//1 -1//-1 ;", "o b ; v 7 8 9 ; p -1 ;"]),
        t("obj-tree-layout", "line ends between statements", &["v 1 2 3 ;"], &[";", "p 1 ;", "g a ;", "s 1 ;", "usemtl m ;", "o a ;", "v 1 2 3 ;", "vn 1 0 0 ;"], d(5, 6), &["bogus", "s x"]),
        t("mtl-tree", "statements of a material", &["newmtl a ;"], &["Ka $F $F $F ;", "Kd $F $F $F ;", "Ks $F $F $F ;", "Ke $F $F $F ;", "Ns $F ;", "Ni $F ;", "d $F ;", "Tr $F ;", "illum 1 ;", "illum 2 ;", "map_Ka $N ;", "map_Kd $N ;", "map_Ks $N ;", "map_Ke $N ;", "map_Ns $N ;", "map_d $N ;", "map_Bump $N ;", "map_bump $N ;", "bump $N ;", "disp $N ;", "decal $N ;", ";", "newmtl b ;"], d(3, 4), &["bogus"]),
        t("mtl-tree", "materials", &[], &["newmtl $N ;", "newmtl $N ; Kd $F $F $F ;", "newmtl a ; map_bump $N ; d $F ;", ";", "newmtl $N ; illum 2 ; map_Kd $N ; Ni $F ;"], d(6, 7), &["bogus", "newmtl ;"]),
        t("obj-general", "any amount of data", &["v 7 8 9 ; vt 7 ; vn 7 8 9 ;", "*v 1 2 3 ;", "*vt 1 2 ;", "*vn 1 0 0 ;"], &["v 4 5 6 ;", "vt 6 ;", "vn 4 5 6 ;", "p 1 ;", "p -1 ;", "l 1/1 -1/-1 ;", "l -1//1 1//-1 ;", "f -1/-1/-1 1/1/1 1/-1/1 ;", "o a ;", "g b ;", "s 4 ;", "usemtl c ;", ";"], d(3, 4), &["bogus", "o b ; v 7 8 9 ; vt 1 ; vn 1 1 1 ; p -1 ; l -1/-1/-1 1/1/1 ;"]),
        t("obj-general", "indices into any amount of data", &["v 7 8 9 ; vt 7 ; vn 7 8 9 ;", "*v 1 2 3 ;", "*vt 1 2 ;", "*vn 1 0 0 ;"], &[], 0, &["p $A ;", "l $A 1 ;", "l $A 1/1 ;", "l $A 1//1 ;", "l $A 1/1/1 ;", "f 1/1/1 -1/-1/-1 $A", "o b ; v 1 2 3 ; vt 1 ; vn 0 1 0 ; l $A -1/-1/-1 ;"]),
        t("obj-general", "any amount of data in two objects", &["o $N ; v 7 8 9 ; vt 7 ; vn 7 8 9 ;", "*v 1 2 3 ;", "*vt 1 2 ;", "*vn 1 0 0 ;", "p 1 ; o $N ; v 9 8 7 ; vt 9 ; vn 9 8 7 ;", "*v 3 2 1 ;", "*vt 3 ;", "*vn 0 1 0 ;"], &["p 1 ;", "p -1 ;", "l -1/-1/-1 -1/-1/-1 ;", "l -1//-1 -1//-1 ;", "vt 4 ;", "v 6 6 6 ;", "o $N ; v 6 6 6 ; vt 4 ; vn 1 1 1 ;"], d(2, 3), &["bogus", "p $A ;", "l $A -1/-1/-1 ;", "o b ; v 7 8 9 ; vt 1 ; vn 1 1 1 ; p -1 ; l -1/-1/-1 1/1/1 ;"]),
        t("obj-general", "any number of elements", &["v 7 8 9 ; vt 7 ; vn 7 8 9 ; v 1 2 3 ; p 2 ;", "*p 1 ;", "*l 1 2 ;", "*f 1 2 1 ;"], &["p 2 ;", "g a ;", "s 3 ;", "usemtl c ;", "v 1 2 3 ;", "o a ;"], 2, &[]),
        t("obj-general", "any number of objects, then any amount of data", &["o b ; v 4 5 6 ; vt 3 ; vn 1 0 0 ; p 1 ;", "*o a ; v 1 2 3 ; vt 1 ; vn 1 0 0 ; p -1 ;", "o c ; v 7 8 9 ; vt 7 ; vn 7 8 9 ;", "*v 3 2 1 ;", "*vt 3 ;", "*vn 0 1 0 ;"], &["p 1 ;", "p -1 ;", "o d ; v 2 2 2 ;", "l -1/-1/-1 -1/-1/-1 ;", "vt 4 ;"], d(3, 4), &["bogus", "p $A ;", "l $A 1/1/1 ;"]),
        t("obj-tree-shapes", "groups, smoothing groups, materials and elements", &["v 1 2 3 ;"], &["g $N ;", "g $N $N ;", "s 7 ;", "s off ;", "usemtl $N ;", "p 1 ;", "f 1 1 1 ; l 1 1 ;", "o $N ; v $F $F $F ;"], d(5, 6), &[]),
        t("obj-tree-shapes", "the same group, smoothing group and material again", &["v 1 2 3 ;"], &["g a ;", "g b ;", "s 1 ;", "s 2 ;", "usemtl a ;", "usemtl b ;", "p 1 ;"], d(5, 6), &[]),
    ]
}
