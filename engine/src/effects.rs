//! Effect analysis: what the functions of the crate, and everything they call, may read or
//! write besides their arguments and results. A classification of the leaves of the call graph.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Site { pub func: FnId, pub line: u32, pub what: String, pub why: &'static str }

fn ops(r: &Rv) -> Vec<&Op> {
    match r {
        Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Dyn(o, _) | Rv::Un(_, o) | Rv::Repeat(o, _) => vec![o],
        Rv::Bin(_, x, y, _) => vec![x, y],
        Rv::Agg(_, v, _) => v.iter().collect(),
        _ => vec![],
    }
}

/// Calls, and functions mentioned as values, of one function, with lines.
pub fn callees(p: &Program, f: &Func) -> Vec<(CalleeId, u32)> {
    let mut out = vec![];
    let op = |o: &Op, l: u32, out: &mut Vec<(CalleeId, u32)>| {
        if let Op::Const(c, t) = o {
            if let CVal::Fn(c) = **c { out.push((c, l)); }
            if let TyKind::FnDef(c) = p.tys[*t].kind { out.push((c, l)); }
        }
    };
    for b in &f.blocks {
        for (s, l) in &b.st {
            if let St::Assign(_, r) = s {
                for o in ops(r) { op(o, *l, &mut out); }
                if let Rv::Agg(AggK::Closure(c), ..) = r { out.push((*c, *l)); }
            }
        }
        if let Tm::Call { callee, func, args, .. } = &b.tm {
            out.extend(callee.iter().map(|c| (*c, b.tm_line)));
            if !p.dispatch.is_empty() { out.extend(p.dispatch.iter().filter(|(k, _)| Some(k.0) == *callee).map(|(_, g)| (*g, b.tm_line))); }
            op(func, b.tm_line, &mut out);
            for a in args { op(a, b.tm_line, &mut out); }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn has(p: &str, xs: &[&str]) -> bool { xs.iter().any(|x| p.contains(x)) }

/// Does a library function do more than compute its result from its arguments?
fn effect(path: &str, full: &str) -> Option<&'static str> {
    let q = path.trim_start_matches('<');
    if has(q, &["std::time::", "Instant", "SystemTime"]) { return Some("reads the clock"); }
    if has(q, &["std::env::"]) { return Some("reads the environment"); }
    if has(q, &["std::fs::", "std::net::", "std::os::", "std::process::", "std::path::Path::exists", "std::path::Path::is_"]) { return Some("touches the system"); }
    if has(q, &["std::io::_print", "std::io::_eprint", "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::Stdout", "std::io::Stderr", "std::io::Stdin"]) { return Some("performs input or output"); }
    if has(q, &["std::thread::LocalKey", "std::thread::local"]) { return Some("keeps state between calls in a thread local"); }
    if has(q, &["std::thread::", "std::sync::mpsc"]) { return Some("depends on threads"); }
    if has(q, &["std::panic::set_hook", "std::panic::take_hook"]) { return Some("changes global state"); }
    if has(q, &["std::random", "RandomState::new", "BuildHasher>::hash_one", "BuildHasher::hash_one", "RandomState as std::hash::BuildHasher>"]) && !full.contains("HashMap") && !full.contains("HashSet") { return Some("uses a random source"); }
    if has(q, &["std::fmt::Pointer", "new_pointer"]) { return Some("depends on an address"); }
    None
}

const UNORDERED: [&str; 9] = ["::iter", "::iter_mut", "::keys", "::values", "::values_mut", "::into_keys", "::into_values", "::drain", "IntoIterator>::into_iter"];
fn unordered(path: &str, full: &str) -> bool {
    let h = |s: &str| s.contains("HashMap") || s.contains("HashSet") || s.contains("hash_map::") || s.contains("hash_set::");
    // the type the method belongs to, not what it is applied to
    let own = |s: &str| h(s.split("::<").next().unwrap_or("")) || s.starts_with("<std::collections::Hash") || s.starts_with("<&'a std::collections::Hash") || s.starts_with("<&std::collections::Hash") || s.starts_with("<&'a mut std::collections::Hash");
    let _ = full;
    own(path) && UNORDERED.iter().any(|m| path.ends_with(m))
}
/// Does nothing of what a function does with an unordered container depend on the order? Either the
/// items are put in order, or none of the calls that take the items out depends on their order.
fn order_free(calls: &[&Callee]) -> bool {
    const DEPENDS: [&str; 28] = ["next", "for_each", "fold", "find", "find_map", "position", "nth", "last", "reduce", "try_fold", "try_for_each", "collect", "from_iter", "extend", "join", "concat", "cmp", "eq", "ne", "lt", "gt", "partial_cmp", "take", "skip", "step_by", "zip", "enumerate", "unzip"];
    if calls.iter().any(|c| has(&c.path, &["sort", "BTree", "BinaryHeap"]) || c.full.contains("BTree")) { return true; }
    !calls.iter().any(|c| {
        if !has(&c.full, &["hash_map::", "hash_set::"]) { return false; }
        let last = c.path.split("::<").next().unwrap_or("").rsplit("::").next().unwrap_or("");
        if !DEPENDS.contains(&last) { return false; }
        // into another unordered container
        let into = match last { "collect" => c.full.rsplit("collect::<").next().unwrap_or(""), "from_iter" | "extend" => c.full.trim_start_matches('<'), _ => "" };
        !(into.starts_with("std::collections::Hash"))
    })
}

pub fn analyse(p: &Program) -> (Vec<Site>, BTreeMap<String, usize>, Vec<FnId>, usize, usize) {
    // everything in the crate, and what it reaches inside the lowered program
    let mut seen: Vec<FnId> = vec![];
    let mut set = BTreeSet::new();
    for (_, c) in &p.roots { if let Some(f) = p.callees[*c].func { if set.insert(f) { seen.push(f); } } }
    let mut k = 0;
    while k < seen.len() {
        for (c, _) in callees(p, &p.funcs[seen[k]]) { if let Some(g) = p.callees[c].func { if set.insert(g) { seen.push(g); } } }
        k += 1;
    }
    let mut sites = vec![];
    let mut notes: BTreeMap<String, usize> = BTreeMap::new();
    let (mut calls, mut external) = (0, 0);
    let mut verdict: HashMap<CalleeId, Option<&'static str>> = HashMap::new();
    for &fid in &seen {
        let f = &p.funcs[fid];
        if !f.local { continue; }
        let cs = callees(p, f);
        calls += cs.len();
        for (c, line) in &cs {
            let ce = &p.callees[*c];
            if ce.local || ce.krate == "objmodels" { continue; }
            external += 1;
            let v = *verdict.entry(*c).or_insert_with(|| effect(&ce.path, &ce.full));
            if let Some(w) = v { sites.push(Site { func: fid, line: *line, what: ce.path.clone(), why: w }); continue; }
            if unordered(&ce.path, &ce.full) || unordered(&ce.full, &ce.full) {
                if std::env::var("OBJDBG").is_ok() { for (d, _) in &cs { eprintln!("{} | {}", p.callees[*d].path, p.callees[*d].full); } }
                if order_free(&cs.iter().map(|(d, _)| &p.callees[*d]).collect::<Vec<_>>()) { *notes.entry(format!("iteration over an unordered container in {}, in a way that does not depend on the order", f.name)).or_insert(0) += 1; }
                else { sites.push(Site { func: fid, line: *line, what: ce.full.clone(), why: "goes through an unordered container: the order differs between runs" }); }
                continue;
            }
            if !ce.krate.is_empty() && !["core", "alloc", "std", "objmodels"].contains(&ce.krate.as_str()) { *notes.entry(format!("function of another crate: {}", ce.path)).or_insert(0) += 1; }
        }
        // statics that can change, thread locals, addresses
        let mut exposes = vec![];
        let mut subs = 0;
        for b in &f.blocks {
            for (s, l) in &b.st {
                let St::Assign(_, r) = s else { continue };
                if let Rv::Other(w) = r { if w.starts_with("thread local") { sites.push(Site { func: fid, line: *l, what: w.clone(), why: "keeps state between calls in a thread local" }); } }
                if let Rv::Cast(k, ..) = r { if k.contains("Expose") { exposes.push(*l); } }
                if let Rv::Bin(Bin::Sub, ..) = r { subs += 1; }
                for o in ops(r) { stat(o, fid, *l, &mut sites, &mut notes); }
            }
            if let Tm::Call { args, .. } = &b.tm { for a in args { stat(a, fid, b.tm_line, &mut sites, &mut notes); } }
            if let Tm::Other(w) = &b.tm { if w.contains("InlineAsm") { sites.push(Site { func: fid, line: b.tm_line, what: "inline assembly".into(), why: "is outside what the language defines" }); } }
        }
        if exposes.len() == 1 || (!exposes.is_empty() && subs == 0) { sites.push(Site { func: fid, line: exposes[0], what: "cast of an address to an integer".into(), why: "depends on an address" }); }
        else if !exposes.is_empty() { *notes.entry(format!("difference of addresses in {}", f.name)).or_insert(0) += 1; }
    }
    (sites, notes, seen, calls, external)
}

fn stat(o: &Op, fid: FnId, line: u32, sites: &mut Vec<Site>, notes: &mut BTreeMap<String, usize>) {
    let Op::Const(c, _) = o else { return };
    let CVal::Opaque(w) = &**c else { return };
    if !w.starts_with("static ") { return; }
    if w.contains("LazyLock") || w.contains("OnceLock") || w.contains("LazyCell") || w.contains("LocalKey") { *notes.entry(format!("{} (set once)", w)).or_insert(0) += 1; return; }
    sites.push(Site { func: fid, line, what: w.clone(), why: "is global state that can change" });
}

/// Functions of the crate that can call themselves, directly or not.
pub fn recursive(p: &Program) -> Vec<FnId> {
    let n = p.funcs.len();
    let succ: Vec<Vec<FnId>> = (0..n).map(|f| if p.funcs[f].local { callees(p, &p.funcs[f]).into_iter().filter_map(|(c, _)| p.callees[c].func).collect() } else { callees(p, &p.funcs[f]).into_iter().filter_map(|(c, _)| p.callees[c].func).collect() }).collect();
    let mut out = vec![];
    for f in 0..n {
        if !p.funcs[f].local { continue; }
        let mut seen = vec![false; n];
        let mut st = succ[f].clone();
        while let Some(g) = st.pop() { if g == f { out.push(f); break; } if !seen[g] { seen[g] = true; st.extend(&succ[g]); } }
    }
    out
}

pub fn report(p: &Program) {
    use crate::json::*;
    let t0 = std::time::Instant::now();
    let (sites, notes, funcs, calls, external) = analyse(p);
    let mut fns: Vec<&str> = funcs.iter().filter(|f| p.funcs[**f].local).map(|f| p.funcs[*f].name.as_str()).collect();
    fns.sort();
    let n = |x: usize| x.to_string();
    let fnd = sites.iter().map(|x| {
        let f = &p.funcs[x.func];
        obj(&[("kind", s("effect")), ("input", s("")), ("at", s(&format!("{} ({}:{})", f.name, f.file, x.line))), ("detail", s(&format!("{} {}", x.what, x.why))), ("key", s(&format!("effect|{}|{}", f.name, x.what))), ("props", list([s("C18")].into_iter())), ("diffs", "[]".into())])
    });
    let bad = sites.len();
    println!("{}", obj(&[("plan", s("effects")), ("what", s("effects of every function of the crate and of the library functions they call")), ("wall", format!("{:.2}", t0.elapsed().as_secs_f64())), ("findings", list(fnd)),
        ("obligations", n(calls + p.statics.len())), ("discharged", n(calls + p.statics.len() - bad.min(calls))), ("external", n(external)), ("steps", n(calls)), ("functions", list(fns.iter().map(|f| s(f)))),
        ("sites", list(p.statics.iter().map(|f| s(f)))), ("why", obj(&notes.iter().map(|(k, v)| (k.as_str(), n(*v))).collect::<Vec<_>>())), ("notes", "{}".into())]));
}

/// Every operation of the crate that skips a check of the language: what they are, and which
/// of them the analyses decide wherever they meet them.
pub fn unsafes(p: &Program) {
    use crate::json::*;
    const DECIDED: [&str; 11] = ["from_utf8_unchecked", "get_unchecked", "get_unchecked_mut", "unwrap_unchecked", "unwrap_err_unchecked", "unreachable_unchecked", "assert_unchecked", "unchecked_add", "unchecked_sub", "unreachable", "assume"];
    let (mut sites, mut why, mut funcs, mut known) = (vec![], BTreeMap::new(), 0, 0);
    for f in p.funcs.iter().filter(|f| f.local) {
        funcs += 1;
        for (c, l) in callees(p, f) {
            let ce = &p.callees[c];
            if !ce.unsafe_ || ce.path.starts_with("std::fmt::Arguments") { continue; }
            sites.push(format!("{} ({}:{}): {}", f.name, f.file, l, ce.path));
            let last = ce.path.rsplit("::").next().unwrap_or("");
            if DECIDED.contains(&last) || ce.func.is_some_and(|g| p.funcs[g].local) { known += 1; } else { *why.entry(format!("unsafe operation without a model: {} in {}", ce.path, f.name)).or_insert(0usize) += 1; }
        }
        for l in &f.raw { sites.push(format!("{} ({}:{}): raw pointer", f.name, f.file, l)); *why.entry(format!("raw pointer in {}", f.name)).or_insert(0) += 1; }
    }
    sites.sort();
    sites.dedup();
    let n = |x: usize| x.to_string();
    println!("{}", obj(&[("plan", s("unsafe")), ("what", s("inventory of the operations that skip a check")), ("wall", "0".into()), ("findings", "[]".into()), ("obligations", n(sites.len())), ("discharged", n(known)), ("steps", n(funcs)),
        ("functions", "[]".into()), ("sites", list(sites.iter().map(|x| s(x)))), ("why", obj(&why.iter().map(|(k, v)| (k.as_str(), n(*v))).collect::<Vec<_>>())), ("notes", "{}".into())]));
}
