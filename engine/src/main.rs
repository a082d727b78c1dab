#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod ir;
mod lower;
mod lin;
mod val;
mod interp;
mod native;
mod strings;
mod spec;
mod fmtspec;
mod direct;
mod effects;
mod lexer;
mod witness;
mod cv;
mod accel;
mod explore;
mod plans;
mod json;

use rustc_public::CrateDef;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::{GenericArgKind, GenericArgs, Region, RegionKind, RigidTy, Ty};

fn modelled(p: &str) -> bool { p.starts_with("objmodels::") && native::native_of(p, p).is_some() }
fn inlined(p: &str) -> bool {
    let q = p.trim_start_matches('<');
    // operators of the primitive types, and what iterators make of them
    let b = q.trim_start_matches("&'a ").trim_start_matches('&');
    if let Some((t, r)) = b.split_once(" as ") {
        let prim = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64", "bool", "char"].contains(&t);
        let param = t.len() <= 8 && t.chars().all(|c| c.is_ascii_alphanumeric()) && t.starts_with(|c: char| c.is_ascii_uppercase());
        if prim && (r.starts_with("std::ops::") || r.starts_with("std::cmp::") || r.starts_with("std::iter::Sum") || r.starts_with("std::iter::Product")) { return true; }
        if param && (r.starts_with("std::iter::") || r.starts_with("core::iter::") || r.starts_with("std::convert::") || r.starts_with("std::cmp::")) { return true; }
    }
    // a box is called, and iterated over, as what it holds
    if q.starts_with("std::boxed::Box<F, A> as std::ops::Fn") || q.starts_with("std::boxed::iter::<impl std::iter::") { return true; }
    ["std::option::", "std::result::", "std::ops::", "std::convert::", "std::iter::", "core::iter", "std::cmp::", "std::default::", "T as std::convert", "std::hint::", "I as std::iter::IntoIterator", "std::bool::", "core::bool::", "core::array::", "(", "&mut I as std::iter::", "std::tuple::", "core::tuple::", "std::mem::discriminant", "std::mem::Discriminant<T> as "].iter().any(|m| q.starts_with(m))
}

fn lower_all() -> ir::Program {
    let md = |p: &str| modelled(p);
    let il = |p: &str| inlined(p);
    let mut lw = lower::Lowerer::new(&md, &il);
    let str_ref = Ty::new_ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), rustc_public::mir::Mutability::Not);
    for it in rustc_public::all_local_items() {
        let name = it.name().to_string();
        let sp = it.span();
        lw.prog.defs.push((name.clone(), sp.get_filename().to_string(), sp.get_lines().start_line as u32));
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            if matches!(it.kind(), rustc_public::ItemKind::Static) { lw.prog.statics.push(name.clone()); }
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let c = lw.callee(i);
            lw.prog.roots.push((name, c));
        } else if name == "wavefront_obj::obj::parse" || name == "wavefront_obj::mtl::parse" {
            if let RigidTy::FnDef(d, _) = it.ty().kind().rigid().unwrap() {
                let args = GenericArgs(vec![GenericArgKind::Type(str_ref)]);
                if let Ok(i) = Instance::resolve(*d, &args) {
                    let c = lw.callee(i);
                    lw.prog.roots.push((name, c));
                }
            }
        }
    }
    lw.run();
    lw.prog
}


pub struct Opts { pub cmd: String, pub rest: Vec<String> }

/// Functions that can be called, directly or not, from the given one.
pub fn reachable(p: &ir::Program, root: ir::FnId) -> Vec<ir::FnId> {
    fn op(p: &ir::Program, o: &ir::Op, out: &mut Vec<ir::CalleeId>) {
        if let ir::Op::Const(c, t) = o {
            if let ir::CVal::Fn(c) = **c { out.push(c); }
            if let ir::TyKind::FnDef(c) = p.tys[*t].kind { out.push(c); }
        }
    }
    let mut seen = vec![root];
    let mut k = 0;
    while k < seen.len() {
        let f = &p.funcs[seen[k]];
        k += 1;
        let mut cs = vec![];
        for b in &f.blocks {
            for (s, _) in &b.st {
                if let ir::St::Assign(_, r) = s {
                    match r {
                        ir::Rv::Use(o) | ir::Rv::Cast(_, o, _) | ir::Rv::Dyn(o, _) | ir::Rv::Un(_, o) | ir::Rv::Repeat(o, _) => op(p, o, &mut cs),
                        ir::Rv::Bin(_, x, y, _) => { op(p, x, &mut cs); op(p, y, &mut cs); }
                        ir::Rv::Agg(k, v, _) => { for o in v { op(p, o, &mut cs); } if let ir::AggK::Closure(c) = k { cs.push(*c); } }
                        _ => {}
                    }
                }
            }
            if let ir::Tm::Call { callee, func, args, .. } = &b.tm {
                cs.extend(callee.iter());
                if !p.dispatch.is_empty() { cs.extend(p.dispatch.iter().filter(|(k, _)| Some(k.0) == *callee).map(|(_, g)| *g)); }
                op(p, func, &mut cs);
                for a in args { op(p, a, &mut cs); }
            }
        }
        for c in cs { if let Some(g) = p.callees[c].func { if !seen.contains(&g) { seen.push(g); } } }
    }
    seen
}

/// The numbers the functions mention, up to a limit: where the behaviour might change.
pub fn numbers(p: &ir::Program, fs: &std::collections::HashSet<ir::FnId>, cap: i128) -> Vec<usize> {
    let mut out = std::collections::BTreeSet::new();
    {
        let mut see = |o: &ir::Op| if let ir::Op::Const(c, t) = o { if matches!(p.tys[*t].kind, ir::TyKind::Int { bits, .. } if bits > 8) { if let ir::CVal::Int(i) = **c { if i > 65 && i <= cap { out.insert(i as usize); } } } };
        for f in fs.iter().map(|f| &p.funcs[*f]).filter(|f| f.local) { for b in &f.blocks {
            for (s, _) in &b.st { if let ir::St::Assign(_, r) = s { match r { ir::Rv::Cast(_, o, _) | ir::Rv::Use(o) => see(o), ir::Rv::Bin(_, x, y, _) => { see(x); see(y); } _ => {} } } }
            if let ir::Tm::Call { args, .. } = &b.tm { for a in args { see(a); } }
        } }
    }
    // counters of few bits
    let few = |t: usize| match p.tys[t].kind { ir::TyKind::Int { bits, .. } if bits < 32 => Some(1usize << bits), _ => None };
    for f in fs.iter().map(|f| &p.funcs[*f]).filter(|f| f.local) {
        let local = |o: &ir::Op| match o { ir::Op::Copy(pl) | ir::Op::Move(pl) if pl.proj.is_empty() => few(f.locals[pl.local]), _ => None };
        for b in &f.blocks {
            for (s, _) in &b.st { match s {
                ir::St::Assign(_, ir::Rv::Bin(ir::Bin::Add | ir::Bin::Sub | ir::Bin::Mul, x, y, _)) => out.extend([x, y].into_iter().filter_map(local)),
                ir::St::Assign(_, ir::Rv::Cast(_, o, t)) => if let (Some(k), ir::Op::Copy(pl) | ir::Op::Move(pl)) = (few(*t), o) {
                    if let (true, ir::TyKind::Int { bits, .. }) = (pl.proj.is_empty(), &p.tys[f.locals[pl.local]].kind) { if *bits >= 32 { out.insert(k); } }
                },
                _ => {}
            } }
            if let ir::Tm::Call { args, dest: dst, .. } = &b.tm { if args.len() == 2 && dst.proj.is_empty() && few(f.locals[dst.local]).is_some() { out.extend(args.iter().filter_map(local)); } }
        }
    }
    for f in fs.iter().map(|f| &p.funcs[*f]).filter(|f| f.local) { for b in &f.blocks { if let ir::Tm::Switch(_, ts, _) = &b.tm { for (k, _) in ts { if *k as i128 > 255 && *k as i128 <= cap { out.insert(*k as usize); } } } } }
    out.into_iter().filter(|k| *k as i128 <= cap).collect()
}

/// How far to repeat: past the small numbers the code itself mentions.
fn reach(p: &ir::Program, root: ir::FnId, cap: i128) -> usize {
    let m = std::cell::Cell::new(34i128);
    let up = |i: i128| if i > m.get() && i <= cap { m.set(i) };
    let see = |o: &ir::Op| if let ir::Op::Const(c, t) = o { if matches!(p.tys[*t].kind, ir::TyKind::Int { bits, .. } if bits > 8) { if let ir::CVal::Int(i) = **c { up(i); } } };
    let small = |f: &ir::Func, o: &ir::Op| match o {
        ir::Op::Copy(pl) | ir::Op::Move(pl) if pl.proj.is_empty() => match p.tys[f.locals[pl.local]].kind { ir::TyKind::Int { bits, .. } if bits < 32 => Some(bits), _ => None },
        _ => None,
    };
    for f in reachable(p, root).into_iter().map(|f| &p.funcs[f]).filter(|f| f.local) {
        for b in &f.blocks {
            for (s, _) in &b.st {
                if let ir::St::Assign(_, r) = s {
                    match r { ir::Rv::Cast(_, o, t) => { see(o); if let (ir::TyKind::Int { bits, .. }, ir::Op::Copy(_) | ir::Op::Move(_)) = (&p.tys[*t].kind, o) { if *bits < 32 && !f.name.contains("exer") { up(1i128 << bits); } } } ir::Rv::Use(o) => see(o), ir::Rv::Bin(_, x, y, _) => { see(x); see(y); for o in [x, y] { if let Some(bits) = small(f, o) { if !f.name.contains("exer") { up(1i128 << bits); } } } } _ => {} }
                }
            }
            if let ir::Tm::Call { args, .. } = &b.tm { for a in args { see(a); } }
            if let ir::Tm::Switch(o, ts, _) = &b.tm { see(o); if !f.name.contains("exer") { for (k, _) in ts { up(*k as i128); } } }
        }
    }
    m.get() as usize + 3
}

fn run_plan(p: &ir::Program, pl: plans::Plan, thorough: bool) {
    let name = format!("wavefront_obj::{}::parse", if pl.mtl { "mtl" } else { "obj" });
    let Some(root) = p.roots.iter().find(|r| r.0 == name) else { println!("{}", json::obj(&[("plan", json::s(pl.name)), ("missing", json::s(&name))])); return };
    let Some(func) = p.callees[root.1].func else { return };
    let natives = p.callees.iter().map(|c| native::native_of(&c.path, &c.full)).collect();
    let mut cx = val::Cx { prog: p, natoms: 1, count_like: vec![false], weight: Default::default(), nstrs: 0, strs: vec![], natives, notes: Default::default(), lp: 0, byte_atoms: Default::default(), byte_menu: None, words: strings::words(p, func), word_cap: 0, menu: pl.menu.clone() };
    let mut st = val::State::new();
    st.ghost = std::rc::Rc::new(if pl.mtl { spec::Ghost::Mtl(spec::Mtl::new()) } else { spec::Ghost::Obj(spec::Obj::new()) });
    interp::push_frame(&mut st, &cx, func, vec![val::V::cref(val::V::S(std::rc::Rc::new(vec![val::Piece::Name(0)])))], None);
    let ret = p.funcs[func].locals[0];
    let mut ex = explore::Explorer::new(&mut cx, pl.lim, ret);
    let t0 = std::time::Instant::now();
    ex.deadline = Some(t0 + std::time::Duration::from_secs_f64(ex.lim.seconds * 1.3));
    let shard = pl.name.split_once("-repeat").map(|x| x.1.trim_start_matches('-').parse::<usize>().unwrap_or(0));
    if let Some(k) = shard {
        let n = reach(p, func, if thorough { 1100 } else { 300 }).max(if effects::recursive(p).is_empty() { 0 } else { 150 });
        for (_, sc) in plans::unbounded(pl.mtl).iter().enumerate().filter(|(i, _)| pl.mtl || i % 4 == k) { ex.accelerate(st.clone(), sc); }
        for (_, sc) in plans::scripts(pl.mtl).iter().enumerate().filter(|(i, _)| pl.mtl || i % 4 == k) { ex.script(st.clone(), sc, n); }
    } else if pl.name.contains("-tree") || pl.name.contains("-general") {
        for t in plans::trees(thorough).iter().filter(|t| t.plan == pl.name) {
            let (t1, e0) = (std::time::Instant::now(), ex.stats.expanded);
            ex.tree(st.clone(), t);
            if std::env::var("ACC").is_ok() { eprintln!("{}: {:.1} s, {} states", t.name, t1.elapsed().as_secs_f64(), ex.stats.expanded - e0); }
        }
    } else { ex.run(st); }
    use json::*;
    let wall = t0.elapsed().as_secs_f64();
    let st = &ex.stats;
    let mut fns: Vec<&str> = st.funcs.iter().filter(|f| p.funcs[**f].local).map(|f| p.funcs[*f].name.as_str()).collect();
    fns.sort();
    fns.dedup();
    let nblocks = st.blocks.iter().filter(|b| p.funcs[b.0].local).count();
    let n = |x: usize| x.to_string();
    println!("{}", obj(&[("plan", s(pl.name)), ("format", s(if pl.mtl { "mtl" } else { "obj" })), ("what", s(pl.what)), ("wall", format!("{:.2}", wall)),
        ("findings", list(ex.findings.iter().map(|f| f.json()))),
        ("expanded", n(st.expanded)), ("steps", n(st.steps)), ("ends", n(st.ends)), ("matched", n(st.matched)), ("undecided", n(st.undecided)), ("tainted", n(st.tainted)), ("merged", n(st.dropped)), ("left", n(st.left)), ("max_len", n(st.max_len)), ("general", n(ex.general)),
        ("functions", list(fns.iter().map(|f| s(f)))), ("blocks", n(nblocks)),
        ("why", obj(&st.why.iter().map(|(k, v)| (k.as_str(), n(*v))).collect::<Vec<_>>())),
        ("notes", obj(&ex.cx.notes.iter().map(|(k, v)| (k.as_str(), n(*v))).collect::<Vec<_>>()))]));
}

fn new_cx(p: &ir::Program) -> val::Cx<'_> {
    let natives = p.callees.iter().map(|c| native::native_of(&c.path, &c.full)).collect();
    val::Cx { prog: p, natoms: 1, count_like: vec![false], weight: Default::default(), nstrs: 0, strs: vec![], natives, notes: Default::default(), lp: 0, byte_atoms: Default::default(), byte_menu: None, words: vec![], word_cap: 0, menu: std::rc::Rc::new(|_| vec![]) }
}

fn analyse(p: &ir::Program, o: &Opts) {
    match o.cmd.as_str() {
        "dump" => {
            for (n, c) in &p.roots { println!("root {} -> {:?}", n, p.callees[*c].func); }
            for c in &p.callees { if c.func.is_none() { println!("callee {} | {} ", c.path, c.full); } }
        }
        "eval" => {
            let mut names: Vec<&(String, ir::CalleeId)> = p.roots.iter().filter(|r| r.0.contains("::t_")).collect();
            names.sort();
            for (n, c) in names {
                let Some(func) = p.callees[*c].func else { continue };
                let natives = p.callees.iter().map(|c| native::native_of(&c.path, &c.full)).collect();
                let mut cx = val::Cx { prog: p, natoms: 1, count_like: vec![false], weight: Default::default(), nstrs: 0, strs: vec![], natives, notes: Default::default(), lp: 0, byte_atoms: Default::default(), byte_menu: None, words: vec![], word_cap: 0, menu: std::rc::Rc::new(|_| vec![]) };
                let mut st = val::State::new();
                interp::push_frame(&mut st, &cx, func, vec![], None);
                let mut k = 0;
                let r = loop {
                    k += 1;
                    if k > 200_000 { break "too long".to_string(); }
                    match interp::step(&mut st, &mut cx) {
                        Ok(interp::Flow::Next) => {}
                        Ok(interp::Flow::Head) => interp::prune(&mut st, &cx),
                        Ok(interp::Flow::Done(v)) => break match (&st.taint, v.lin().and_then(|l| l.is_const())) { (None, Some(x)) => x.to_string(), (t, _) => format!("{:?} {:?}", t, v) },
                        Ok(interp::Flow::Panic(m)) => break format!("panic {}", m),
                        Ok(f) => break format!("{:?}", f).chars().take(200).collect(),
                        Err(f) => break format!("fork {}", f.1),
                    }
                };
                println!("{} {} {}", n.rsplit("::").next().unwrap(), r.replace('\n', " ").chars().take(100).collect::<String>(), cx.notes.keys().take(3).cloned().collect::<Vec<_>>().join(" | "));
            }
        }
        "effects" => effects::report(p),
        "unsafe" => effects::unsafes(p),
        "lex" => {
            let name = format!("wavefront_obj::{}::parse", o.rest[0]);
            let Some(func) = p.roots.iter().find(|r| r.0 == name).and_then(|r| p.callees[r.1].func) else { println!("{}", json::obj(&[("plan", json::s(&format!("lex-{}", o.rest[0]))), ("missing", json::s(&name))])); return };
            let thorough = o.rest.get(1).is_some_and(|t| t == "thorough");
            let mut cx = new_cx(p);
            if let Some(j) = lexer::analyse(&mut cx, func, thorough, reach(p, func, if thorough { 1100 } else { 300 })) { println!("{{\"plan\":\"lex-{}\",\"format\":\"{}\",{}", o.rest[0], o.rest[0], &j[1..]); }
        }
        "direct" => {
            let natives = p.callees.iter().map(|c| native::native_of(&c.path, &c.full)).collect();
            let mut cx = val::Cx { prog: p, natoms: 1, count_like: vec![false], weight: Default::default(), nstrs: 0, strs: vec![], natives, notes: Default::default(), lp: 0, byte_atoms: Default::default(), byte_menu: None, words: vec![], word_cap: 0, menu: std::rc::Rc::new(|_| vec![]) };
            let t0 = std::time::Instant::now();
            let mut d = direct::Direct::new(&mut cx);
            let what = match o.rest[0].as_str() { "lookup" => { direct::lookup(&mut d); "index lookup and comparison of forms, for all objects and indices" } "compare" => { direct::compare(&mut d); "comparison and copies of every public type" } _ => { direct::display(&mut d); "text rendering of every public type, for all values" } };
            d.report(&o.rest[0], what, t0.elapsed().as_secs_f64());
        }
        "plan" => {
            for n in o.rest[0].split(',') {
                for pl in plans::plans(o.rest.get(1).is_some_and(|t| t == "thorough")) { if pl.name == n { run_plan(p, pl, o.rest.get(1).is_some_and(|t| t == "thorough")); } }
            }
        }
        _ => {}
    }
}

fn main() {
    // objcheck <lib.rs> <objmodels.rlib> <scratch dir> <command> ...
    let args: Vec<String> = std::env::args().collect();
    let ext = format!("force:objmodels={}", args[2]);
    let out = format!("{}/out.rmeta", args[3]);
    let rargs: Vec<String> = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "wavefront_obj", "-Zmir-opt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Awarnings", "-Zalways-encode-mir", "--emit=metadata", "-Zunstable-options", "--extern", &ext, "-o", &out]
        .iter().map(|s| s.to_string()).chain([args[1].clone()]).collect();
    let o = Opts { cmd: args[4].clone(), rest: args[5..].to_vec() };
    let r = run!(&rargs, || -> ControlFlow<i32, ()> {
        let p = lower_all();
        analyse(&p, &o);
        ControlFlow::Break(0)
    });
    if !matches!(r, Err(rustc_public::CompilerError::Interrupted(0))) { eprintln!("objcheck: the code does not compile"); std::process::exit(3) }
}
