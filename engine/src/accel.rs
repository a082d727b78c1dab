//! Repetition without a bound: the state after any number of repetitions of a unit of the
//! input, found by generalising three successive states and confirmed by induction (one more
//! repetition from the general state gives the general state for one more).
use crate::interp::prune_all;
use crate::ir::*;
use crate::lin::*;
use crate::val::*;
use std::rc::Rc;

/// Words that are spelled out, by their spelling.
fn plain_fl(st: &State, f: &Fl) -> Fl {
    match f {
        Fl::Parse(s) => match &st.sf(*s).lit { Some(l) => match l.parse::<f64>() { Ok(x) => Fl::C(x.to_bits()), _ => f.clone() }, None => Fl::Parse(st.root(*s)) },
        Fl::Neg(x) => Fl::Neg(Rc::new(plain_fl(st, x))),
        Fl::R32(x) => crate::interp::single(plain_fl(st, x)),
        _ => f.clone(),
    }
}
pub fn plain(st: &State, v: &V) -> V {
    match v {
        V::Float(f) => V::Float(plain_fl(st, f)),
        V::S(p) => V::S(Rc::new(crate::cv::norm_pieces(st, p))),
        V::Agg(k, f) => V::Agg(*k, Rc::new(f.iter().map(|x| plain(st, x)).collect())),
        V::CRef(x) => V::cref(plain(st, x)),
        V::Seq(s) => {
            let mut segs = vec![];
            for g in &s.segs { push_norm(&mut segs, match g { Seg::El(x) => Seg::El(plain(st, x)), Seg::Comp { lo, hi, body } => Seg::Comp { lo: lo.clone(), hi: hi.clone(), body: plain(st, body) }, g => g.clone() }); }
            V::Seq(Rc::new(Seq { elem: s.elem, segs }))
        }
        _ => v.clone(),
    }
}

/// The state with dead variables forgotten and spelled-out words replaced by their spelling.
pub fn clean(st: &State, cx: &Cx) -> Option<State> {
    let mut s = st.clone();
    let top = s.frames.len() - 1;
    {
        let (f, bb) = (s.frames[top].func, s.frames[top].bb);
        let blk = &cx.prog.funcs[f].blocks[bb];
        if s.frames[top].si < blk.st.len() { return None; }
        let Tm::Call { dest, target: Some(t), args, .. } = &blk.tm else { return None };
        let live = &cx.prog.funcs[f].blocks[*t].live_in;
        let mut used: Vec<usize> = vec![];
        for a in args { if let Op::Copy(p) | Op::Move(p) = a { used.push(p.local); for e in &p.proj { if let Proj::Index(l) = e { used.push(*l); } } } }
        let fr = Rc::make_mut(&mut s.frames[top]);
        for i in 0..fr.locals.len() {
            let keep = used.contains(&i) || (live.get(i).copied().unwrap_or(true) && !(i == dest.local && dest.proj.is_empty()));
            if !keep { fr.locals[i] = V::Undef; }
        }
    }
    prune_below(&mut s, cx);
    spelled(st, s)
}
/// The same for a state at a loop head.
pub fn clean_head(st: &State, cx: &Cx) -> Option<State> {
    let mut s = st.clone();
    prune_all(&mut s, cx);
    spelled(st, s)
}
fn spelled(st: &State, mut s: State) -> Option<State> {
    for i in 0..s.frames.len() {
        let n: Vec<V> = s.frames[i].locals.iter().map(|v| plain(st, v)).collect();
        Rc::make_mut(&mut s.frames[i]).locals = n;
    }
    // inside a stretch the reference semantics stands still
    if let Some(g) = s.ghost.dec(&plain(st, &s.ghost.enc())) { s.ghost = Rc::new(g); }
    Some(s)
}
fn prune_below(s: &mut State, cx: &Cx) {
    let top = s.frames.pop().unwrap();
    let keep = top.clone();
    s.frames.push(top);
    prune_all(s, cx);
    *s.frames.last_mut().unwrap() = keep;
}

/// The value after n repetitions, from those after 0, 1 and 2.
fn gen3(a: &V, b: &V, c: &V, n: &Lin) -> Option<V> {
    if a == b && b == c { return Some(a.clone()); }
    Some(match (a, b, c) {
        (V::Int(x), V::Int(y), V::Int(z)) => {
            let d = y.sub(x).is_const()?;
            if z.sub(y).is_const()? != d { return None; }
            V::Int(x.add(&n.scale(d)))
        }
        (V::Agg(k, f), V::Agg(l, g), V::Agg(m, h)) if k == l && l == m && f.len() == g.len() && g.len() == h.len() => {
            let mut o = vec![];
            for i in 0..f.len() { o.push(gen3(&f[i], &g[i], &h[i], n)?); }
            V::agg(*k, o)
        }
        (V::CRef(x), V::CRef(y), V::CRef(z)) => V::cref(gen3(x, y, z, n)?),
        (V::MRef(x), V::MRef(y), V::MRef(z)) if x.depth == y.depth && y.depth == z.depth && x.local == y.local && y.local == z.local && x.path.len() == y.path.len() && y.path.len() == z.path.len() => {
            let mut path = vec![];
            for i in 0..x.path.len() {
                path.push(match (&x.path[i], &y.path[i], &z.path[i]) {
                    (PE::F(p), PE::F(q), PE::F(r)) if p == q && q == r => PE::F(*p),
                    (PE::E(p), PE::E(q), PE::E(r)) => match gen3(&V::Int(p.clone()), &V::Int(q.clone()), &V::Int(r.clone()), n)? { V::Int(l) => PE::E(l), _ => return None },
                    (PE::R(p, u), PE::R(q, v), PE::R(r, w)) => PE::R(genl(p, q, r, n)?, genl(u, v, w, n)?),
                    _ => return None,
                });
            }
            V::MRef(Rc::new(Loc { depth: x.depth, local: x.local, path }))
        }
        (V::Seq(x), V::Seq(y), V::Seq(z)) => {
            let (p, q, r) = (x.segs.len(), y.segs.len(), z.segs.len());
            let seg = |a: &Seg, b: &Seg, c: &Seg| -> Option<Seg> { Some(match (a, b, c) {
                (Seg::El(a), Seg::El(b), Seg::El(c)) => Seg::El(gen3(a, b, c, n)?),
                (Seg::Comp { lo: l, hi: h, body }, Seg::Comp { lo: l2, hi: h2, body: b2 }, Seg::Comp { lo: l3, hi: h3, body: b3 }) if body == b2 && b2 == b3 => Seg::Comp { lo: genl(l, l2, l3, n)?, hi: genl(h, h2, h3, n)?, body: body.clone() },
                _ => return None,
            }) };
            let el = |s: &Seq, i: usize| match &s.segs[i] { Seg::El(v) => Some(v.clone()), _ => None };
            let k = q.checked_sub(p)?;
            if r.checked_sub(q)? != k { return None; }
            // what was there stays; what is new comes at the end, or before some last part
            for s in (0..=p).rev() {
                let t = p - s;
                let all = || -> Option<Vec<Seg>> {
                    let mut o = vec![];
                    for i in 0..s { o.push(seg(&x.segs[i], &y.segs[i], &z.segs[i])?); }
                    if k == 1 {
                        let (u, v) = (el(y, s)?, el(z, s + 1)?);
                        // each new element as a function of its number
                        if el(z, s)? != u { return None; }
                        o.push(Seg::Comp { lo: Lin::k(0), hi: n.clone(), body: gen2(&u, &v, &Lin::atom(BV))? });
                    } else if k > 1 {
                        let u = el(y, s)?;
                        for i in 0..k { if el(y, s + i)? != u { return None; } }
                        for i in 0..2 * k { if el(z, s + i)? != u { return None; } }
                        o.push(Seg::Comp { lo: Lin::k(0), hi: n.scale(k as i128), body: u });
                    }
                    for i in 0..t { o.push(seg(&x.segs[s + i], &y.segs[q - t + i], &z.segs[r - t + i])?); }
                    Some(o)
                };
                if let Some(o) = all() { return Some(V::Seq(Rc::new(renorm(x.elem, o)))); }
            }
            return None;
        }
        _ => return None,
    })
}
fn renorm(elem: TyId, segs: Vec<Seg>) -> Seq { let mut o = vec![]; for g in segs { push_norm(&mut o, g); } Seq { elem, segs: o } }
fn genl(a: &Lin, b: &Lin, c: &Lin, n: &Lin) -> Option<Lin> {
    let d = b.sub(a).is_const()?;
    if c.sub(b).is_const()? != d { return None; }
    Some(a.add(&n.scale(d)))
}
fn gen2(a: &V, b: &V, n: &Lin) -> Option<V> {
    if a == b { return Some(a.clone()); }
    Some(match (a, b) {
        (V::Int(x), V::Int(y)) => V::Int(x.add(&n.scale(y.sub(x).is_const()?))),
        (V::Agg(k, f), V::Agg(l, g)) if k == l && f.len() == g.len() => { let mut o = vec![]; for i in 0..f.len() { o.push(gen2(&f[i], &g[i], n)?); } V::agg(*k, o) }
        (V::CRef(x), V::CRef(y)) => V::cref(gen2(x, y, n)?),
        (V::Seq(x), V::Seq(y)) if x.segs.len() == y.segs.len() => {
            let mut o = vec![];
            for (p, q) in x.segs.iter().zip(&y.segs) { match (p, q) { (Seg::El(p), Seg::El(q)) => o.push(Seg::El(gen2(p, q, n)?)), _ => return None } }
            V::seq(x.elem, o)
        }
        _ => return None,
    })
}

/// The general state: after `n` more repetitions than in `a`.
pub fn generalise(a: &State, b: &State, c: &State, n: &Lin) -> Option<State> {
    if a.frames.len() != b.frames.len() || b.frames.len() != c.frames.len() { return None; }
    if !a.ghost.same_ctl(&b.ghost) || !b.ghost.same_ctl(&c.ghost) { return None; }
    if a.forms != c.forms || a.divs != c.divs || a.fcons != c.fcons || a.taint.is_some() || c.taint.is_some() || a.pending != c.pending { return None; }
    let mut s = c.clone();
    s.facts = a.facts.clone();
    for i in 0..a.frames.len() {
        let (x, y, z) = (&a.frames[i], &b.frames[i], &c.frames[i]);
        if (x.func, x.bb, x.si, &x.dest) != (y.func, y.bb, y.si, &y.dest) || (x.func, x.bb, x.si, &x.dest) != (z.func, z.bb, z.si, &z.dest) { return None; }
        let mut l = vec![];
        for j in 0..x.locals.len() { match gen3(&x.locals[j], &y.locals[j], &z.locals[j], n) { Some(v) => l.push(v), None => { if std::env::var("ACC").is_ok() { eprintln!("gen fails: frame {} local {}\n {:?}\n {:?}\n {:?}", i, j, x.locals[j], y.locals[j], z.locals[j]); } return None; } } }
        Rc::make_mut(&mut s.frames[i]).locals = l;
    }
    let (x, y, z) = (a.ghost.enc(), b.ghost.enc(), c.ghost.enc());
    if x != y || y != z { s.ghost = Rc::new(a.ghost.dec(&gen3(&x, &y, &z, n)?)?); }
    Some(s)
}

/// The same with one repetition more.
fn next_v(v: &V, a: Atom) -> V {
    let up = &mut |l: &Lin| l.subst(&mut |x| if x == a { Some(Lin::atom(a).addk(1)) } else { None });
    v.map_lins(up)
}
/// Are the states the same but for what is known of the words?
pub fn same_shape(a: &State, b: &State) -> bool {
    a.frames.len() == b.frames.len() && a.ghost.same_ctl(&b.ghost) && a.taint.is_none() && b.taint.is_none() && a.pending == b.pending
        && a.frames.iter().zip(&b.frames).all(|(x, y)| (x.func, x.bb, x.si, &x.dest) == (y.func, y.bb, y.si, &y.dest) && x.locals.iter().zip(&y.locals).all(|(p, q)| eqv(p, q)))
        && eqv(&a.ghost.enc(), &b.ghost.enc())
}
/// Is `s` what `g` is for one repetition more?
pub fn is_next(g: &State, s: &State, a: Atom) -> bool {
    if g.frames.len() != s.frames.len() || !g.ghost.same_ctl(&s.ghost) || s.taint.is_some() || g.pending != s.pending { return false; }
    for (x, y) in g.frames.iter().zip(&s.frames) {
        if (x.func, x.bb, x.si, &x.dest) != (y.func, y.bb, y.si, &y.dest) { return false; }
        for (p, q) in x.locals.iter().zip(&y.locals) { if !eqv(&next_v(p, a), q) { if std::env::var("ACC").is_ok() { eprintln!("not next: {:?}\n vs {:?}", next_v(p, a), q); } return false; } }
    }
    eqv(&next_v(&g.ghost.enc(), a), &s.ghost.enc())
}
fn eqv(a: &V, b: &V) -> bool { norm(a) == norm(b) }
fn norm(v: &V) -> V {
    match v {
        V::Agg(k, f) => V::agg(*k, f.iter().map(norm).collect()),
        V::CRef(x) => V::cref(norm(x)),
        V::Seq(s) => {
            let mut o = vec![];
            for g in &s.segs { push_norm(&mut o, match g { Seg::El(x) => Seg::El(norm(x)), Seg::Comp { lo, hi, body } => Seg::Comp { lo: lo.clone(), hi: hi.clone(), body: norm(body) }, g => g.clone() }); }
            // element types of empty lists are not always known
            V::seq(0, o)
        }
        _ => v.clone(),
    }
}

/// The blocks from which a block can be reached.
pub fn reaches(f: &Func, to: usize) -> std::collections::HashSet<usize> {
    let mut r = std::collections::HashSet::from([to]);
    loop {
        let n = r.len();
        for (i, b) in f.blocks.iter().enumerate() { if crate::lower::succs(b).iter().any(|s| r.contains(s)) { r.insert(i); } }
        if r.len() == n { return r; }
    }
}
