//! Transfer functions: one step of the abstract interpretation of the IR.
use crate::ir::*;
use crate::lin::*;
use crate::native;
use crate::val::*;
use std::rc::Rc;

/// What a step did.
#[derive(Debug)]
pub enum Flow {
    Next,
    /// at the start of a block that is a loop head
    Head,
    /// the entry function returned this value
    Done(V),
    Panic(String),
    /// execution cannot get here
    Dead,
    /// several successors that over-approximate (never produced for exact states)
    Many(Vec<State>),
}

#[derive(Clone)]
pub enum PV { L(Loc), Val(V) }

pub fn cval(c: &CVal) -> V {
    match c {
        CVal::Int(i) => V::int(*i),
        CVal::Bool(b) => V::Bool(*b),
        CVal::Char(c) => V::int(*c as i128),
        CVal::Float(b) => V::Float(Fl::C(*b)),
        CVal::Str(s) => V::cref(V::lit(s)),
        CVal::Bytes(b) => match std::str::from_utf8(b) { Ok(s) => V::lit(s), Err(_) => V::seq(0, b.iter().map(|x| Seg::El(V::int(*x as i128))).collect()) },
        CVal::Agg(v, f) => V::agg(*v, f.iter().map(cval).collect()),
        CVal::Array(f) => V::seq(0, f.iter().map(|x| Seg::El(cval(x))).collect()),
        CVal::Ref(r) => V::cref(cval(r)),
        CVal::Fn(c) => V::Fn(*c),
        CVal::Zst => V::unit(),
        CVal::EmptyVec => V::seq(0, vec![]),
        CVal::EmptyString => V::lit(""),
        CVal::Opaque(_) => V::Top,
    }
}

impl State {
    pub fn read_path(&self, cx: &Cx, v: &V, path: &[PE]) -> Dec<V> {
        let mut cur = v.clone();
        for p in path {
            cur = match (&cur, p) {
                (V::Agg(_, f), PE::F(i)) => f.get(*i as usize).cloned().unwrap_or(V::Top),
                (V::Seq(s), PE::E(i)) => self.seq_get(cx, s, i)?.unwrap_or(V::Top),
                (V::Seq(s), PE::R(a, b)) => match self.seq_sub(cx, s, a, b)? { Some(t) => V::Seq(Rc::new(t)), None => V::Top },
                (V::S(p), PE::E(i)) if matches!(p[..], [Piece::Sub(..)]) => { let [Piece::Sub(a, _)] = &p[..] else { unreachable!() }; V::Int(self.byte_at(cx, &a.add(i))?) }
                (V::S(p), PE::E(i)) => match (self.text(cx, p)?, i.is_const()) { (Some(t), Some(k)) if k >= 0 && (k as usize) < t.len() => V::int(t.as_bytes()[k as usize] as i128), _ => V::Top },
                (V::Undef, _) => V::Undef,
                (V::Sel(a, i, form), PE::F(_)) => {
                    let _ = (a, i, form);
                    V::Top
                }
                _ => V::Top,
            };
        }
        Ok(cur)
    }
    pub fn read(&self, cx: &Cx, l: &Loc) -> Dec<V> {
        let v = &self.frames[l.depth].locals[l.local];
        self.read_path(cx, v, &l.path)
    }
    fn write_path(&self, cx: &mut Cx, old: &V, path: &[PE], v: V) -> Dec<V> {
        let Some(p) = path.first() else { return Ok(v) };
        match (old, p) {
            (V::Agg(k, f), PE::F(i)) => {
                let i = *i as usize;
                let mut g = (**f).clone();
                while g.len() <= i { g.push(V::Undef); }
                g[i] = self.write_path(cx, &f.get(i).cloned().unwrap_or(V::Undef), &path[1..], v)?;
                Ok(V::Agg(*k, Rc::new(g)))
            }
            (V::Undef, PE::F(i)) => {
                let i = *i as usize;
                let mut g = vec![V::Undef; i + 1];
                g[i] = self.write_path(cx, &V::Undef, &path[1..], v)?;
                Ok(V::agg(0, g))
            }
            (V::Seq(s), PE::E(i)) => {
                let old = self.seq_get(cx, s, i)?.unwrap_or(V::Top);
                let v = self.write_path(cx, &old, &path[1..], v)?;
                Ok(match self.seq_set(cx, s, i, v)? { Some(s) => V::Seq(Rc::new(s)), None => V::Top })
            }
            (V::Seq(s), PE::R(a, b)) => {
                let Some(part) = self.seq_sub(cx, s, a, b)? else { return Ok(V::Top) };
                let V::Seq(new) = self.write_path(cx, &V::Seq(Rc::new(part)), &path[1..], v)? else { return Ok(V::Top) };
                let (Some(pre), Some(post)) = (self.seq_sub(cx, s, &Lin::k(0), a)?, self.seq_sub(cx, s, b, &s.len())?) else { return Ok(V::Top) };
                let mut segs = pre.segs.clone();
                segs.extend(new.segs.iter().cloned());
                segs.extend(post.segs.iter().cloned());
                Ok(V::Seq(Rc::new(Seq { elem: s.elem, segs }.norm())))
            }
            _ => Ok(V::Top),
        }
    }
    /// Work out a write without doing it.
    pub fn prepare(&self, cx: &mut Cx, l: &Loc, v: V) -> Dec<(usize, usize, V)> {
        if l.path.is_empty() { return Ok((l.depth, l.local, v)); }
        let old = self.frames[l.depth].locals[l.local].clone();
        Ok((l.depth, l.local, self.write_path(cx, &old, &l.path, v)?))
    }
    pub fn commit(&mut self, w: (usize, usize, V)) {
        Rc::make_mut(&mut self.frames[w.0]).locals[w.1] = w.2;
    }

    /// The trait object (a tagged reference) that the place is the target of.
    pub fn object(&self, cx: &Cx, p: &Place) -> Dec<Option<V>> {
        let q = Place { local: p.local, proj: p.proj[..p.proj.len() - 1].to_vec() };
        let v = match self.place(cx, self.frames.len() - 1, &q)? { PV::L(l) => self.read(cx, &l)?, PV::Val(v) => v };
        Ok(if let V::Agg(DYN, _) = v { Some(v) } else { None })
    }
    /// The type and value (or reference) behind a trait object.
    pub fn behind(&self, cx: &Cx, v: &V) -> Dec<Option<(TyId, V)>> {

        let split = |f: &[V]| match f { [V::Int(t), v] => t.is_const().map(|t| (t as usize, v.clone())), _ => None };
        Ok(match v {
            V::Agg(DYN, f) => split(f),
            V::CRef(x) => match &**x { V::Agg(DYN, f) => split(f).map(|(t, v)| if matches!(v, V::CRef(_) | V::MRef(_)) { (t, v) } else { (t, V::cref(v)) }), _ => None },
            V::MRef(l) => match self.read(cx, l)? {
                V::Agg(DYN, f) => split(&f).map(|(t, v)| if matches!(v, V::CRef(_) | V::MRef(_)) { (t, v) } else { let mut l = (**l).clone(); l.path.push(PE::F(1)); (t, V::MRef(Rc::new(l))) }),
                _ => None,
            },
            _ => None,
        })
    }
    pub fn place(&self, cx: &Cx, depth: usize, p: &Place) -> Dec<PV> {
        let mut cur = PV::L(Loc { depth, local: p.local, path: vec![] });
        for e in &p.proj {
            cur = match e {
                Proj::Deref => {
                    let v = match &cur { PV::L(l) => self.read(cx, l)?, PV::Val(v) => v.clone() };
                    match v {
                        V::MRef(l) => PV::L((*l).clone()),
                        V::CRef(v) => PV::Val((*v).clone()),
                        _ => PV::Val(V::Top),
                    }
                }
                Proj::Field(i, _) => match cur {
                    PV::L(mut l) => { l.path.push(PE::F(*i as u32)); PV::L(l) }
                    PV::Val(v) => PV::Val(self.read_path(cx, &v, &[PE::F(*i as u32)])?),
                },
                Proj::Index(loc) => {
                    let i = match &self.frames[depth].locals[*loc] { V::Int(l) => l.clone(), _ => return Ok(PV::Val(V::Top)) };
                    match cur {
                        PV::L(mut l) => { l.at(i); PV::L(l) }
                        PV::Val(v) => PV::Val(self.read_path(cx, &v, &[PE::E(i)])?),
                    }
                }
                Proj::ConstIndex { offset, from_end } => {
                    let v = match &cur { PV::L(l) => self.read(cx, l)?, PV::Val(v) => v.clone() };
                    let v = bytes_view(v);
                    let V::Seq(s) = &v else { return Ok(PV::Val(V::Top)) };
                    let i = if *from_end { s.len().addk(-(*offset as i128)) } else { Lin::k(*offset as i128) };
                    match cur {
                        PV::L(mut l) => { l.at(i); PV::L(l) }
                        PV::Val(v) => PV::Val(self.read_path(cx, &v, &[PE::E(i)])?),
                    }
                }
                Proj::Subslice { from, to, from_end } => {
                    let v = match &cur { PV::L(l) => self.read(cx, l)?, PV::Val(v) => v.clone() };
                    let whole = matches!(v, V::Seq(_));
                    let v = bytes_view(v);
                    let V::Seq(s) = &v else { return Ok(PV::Val(V::Top)) };
                    let b = if *from_end { s.len().addk(-(*to as i128)) } else { Lin::k(*to as i128) };
                    if let (PV::L(mut l), true) = (cur.clone(), whole) {
                        if self.seq_sub(cx, s, &Lin::k(*from as i128), &b)?.is_none() { return Ok(PV::Val(V::Top)); }
                        l.part(Lin::k(*from as i128), b);
                        cur = PV::L(l);
                        continue;
                    }
                    PV::Val(match self.seq_sub(cx, s, &Lin::k(*from as i128), &b)? { Some(s) => V::Seq(Rc::new(s)), None => V::Top })
                }
                Proj::Downcast(_) => cur,
            };
        }
        Ok(cur)
    }
    pub fn read_place(&self, cx: &Cx, p: &Place) -> Dec<V> {
        match self.place(cx, self.frames.len() - 1, p)? { PV::L(l) => self.read(cx, &l), PV::Val(v) => Ok(v) }
    }
    pub fn op(&self, cx: &Cx, o: &Op) -> Dec<V> {
        match o {
            Op::Copy(p) | Op::Move(p) => self.read_place(cx, p),
            Op::Const(c, t) => {
                let v = cval(c);
                // empty constants carry no element type of their own
                if let (V::Seq(s), TyKind::Adt { args, .. }) = (&v, &cx.prog.tys[*t].kind) {
                    if s.segs.is_empty() && !args.is_empty() { return Ok(V::seq(args[0], vec![])); }
                }
                Ok(v)
            }
        }
    }
    /// What a reference refers to.
    pub fn deref(&self, cx: &Cx, v: &V) -> Dec<V> {
        match v {
            V::CRef(v) => Ok((**v).clone()),
            V::MRef(l) => self.read(cx, l),
            _ => Ok(V::Top),
        }
    }
    pub fn deref_all(&self, cx: &Cx, v: &V) -> Dec<V> {
        let mut v = v.clone();
        while matches!(v, V::CRef(_) | V::MRef(_)) { v = self.deref(cx, &v)?; }
        Ok(v)
    }
    /// The value with everything it refers to filled in (for values that leave the analysed code).
    pub fn resolve(&self, cx: &Cx, v: &V) -> Dec<V> { Ok(match v {
        V::MRef(l) => { let x = self.read(cx, l)?; V::cref(self.resolve(cx, &x)?) }
        V::CRef(x) => V::cref(self.resolve(cx, x)?),
        V::Agg(k, f) => { let mut g = vec![]; for x in f.iter() { g.push(self.resolve(cx, x)?); } V::agg(*k, g) }
        _ => v.clone(),
    }) }
}

/// Part of the text, as a sequence of bytes.
pub fn bytes_view(v: V) -> V {
    if let V::S(p) = &v { if let [Piece::Sub(a, b)] = &p[..] { return V::Seq(Rc::new(State::sub_seq(a, b))); } }
    v
}

pub fn place_ty(prog: &Program, f: &Func, p: &Place) -> Option<TyId> {
    let mut t = f.locals[p.local];
    for e in &p.proj {
        t = match e {
            Proj::Deref => match &prog.tys[t].kind { TyKind::Ref(x, _) | TyKind::RawPtr(x) => *x, _ => return None },
            Proj::Field(_, x) => *x,
            Proj::Index(_) | Proj::ConstIndex { .. } => match &prog.tys[t].kind { TyKind::Array(x, _) | TyKind::Slice(x) => *x, _ => return None },
            Proj::Subslice { .. } | Proj::Downcast(_) => t,
        };
    }
    Some(t)
}
pub fn op_ty(prog: &Program, f: &Func, o: &Op) -> Option<TyId> {
    match o { Op::Copy(p) | Op::Move(p) => place_ty(prog, f, p), Op::Const(_, t) => Some(*t) }
}

/// Where does the exact result lie relative to the type's range: Ok(0) inside, -1 below, 1 above.
pub fn range(st: &State, cx: &Cx, l: &Lin, t: TyId) -> Dec<i32> {
    let Some((lo, hi)) = cx.prog.int_bounds(t) else { return Ok(0) };
    if let Some(c) = l.is_const() { return Ok(if c < lo { -1 } else if c > hi { 1 } else { 0 }); }
    let (under, over) = (Lin::k(lo - 1).sub(l), l.addk(-hi - 1));
    let (nu, no) = (l.addk(-lo), Lin::k(hi).sub(l));
    let above = st.entails(cx, &nu);
    let below = st.entails(cx, &no);
    if above && below { return Ok(0); }
    if !above && st.entails(cx, &under) { return Ok(-1); }
    if !below && st.entails(cx, &over) { return Ok(1); }
    let mut inside = vec![];
    if !above { inside.push(Con::Ge(nu)); }
    if !below { inside.push(Con::Ge(no)); }
    let mut alts = vec![inside];
    if !above { alts.push(vec![Con::Ge(under)]); }
    if !below { alts.push(vec![Con::Ge(over)]); }
    Err(Box::new(Fork(alts, "arithmetic range")))
}

/// The value as one of the type, if it is at most one range away.
fn wrap(st: &State, cx: &Cx, l: &Lin, t: TyId) -> Dec<Option<Lin>> {
    let Some((lo, hi)) = cx.prog.int_bounds(t) else { return Ok(Some(l.clone())) };
    let m = hi - lo + 1;
    if let Some(c) = l.is_const() { return Ok(Some(Lin::k((c - lo).rem_euclid(m) + lo))); }
    let r = match range(st, cx, l, t)? { 0 => return Ok(Some(l.clone())), -1 => l.addk(m), _ => l.addk(-m) };
    Ok(if range(st, cx, &r, t)? == 0 { Some(r) } else { None })
}
/// The same at any distance.
fn wrap_far(st: &State, cx: &mut Cx, l: &Lin, t: TyId) -> Dec<Lin> {
    let Some((lo, hi)) = cx.prog.int_bounds(t) else { return Ok(l.clone()) };
    if let Some(r) = wrap(st, cx, l, t)? { return Ok(r); }
    let (m, a) = (hi - lo + 1, l.addk(-lo));
    for (p, k, _, r) in st.divs.iter() { if *p == a && *k == m { return Ok(Lin::atom(*r).addk(lo)); } }
    let (q, r) = (cx.fresh(false), cx.fresh(false));
    Err(Box::new(Fork(vec![vec![Con::Div(a, m, q, r)]], "conversion")))
}

pub fn single(x: Fl) -> Fl { match x { Fl::C(b) => Fl::C(((f64::from_bits(b) as f32) as f64).to_bits()), x => Fl::R32(Rc::new(x)) } }

pub fn fcmp(b: Bin, x: f64, y: f64) -> bool {
    match b { Bin::Eq => x == y, Bin::Ne => x != y, Bin::Lt => x < y, Bin::Le => x <= y, Bin::Gt => x > y, Bin::Ge => x >= y, Bin::Rem => x.is_nan(), Bin::Xor => x.is_infinite(), Bin::And => x.is_sign_negative(), _ => false }
}

/// The comparison of the float that an integer word stands for with a constant, on the integer:
/// all of these must be nonnegative.
pub fn int_fcmp(v: &Lin, b: Bin, k: u64, r: bool) -> Option<Vec<Lin>> {
    let k = f64::from_bits(k);
    let no = || Some(vec![Lin::k(-1)]);
    let yes = || Some(vec![]);
    match b {
        Bin::Rem | Bin::Xor => return if r { if b == Bin::Rem { no() } else { None } } else { if b == Bin::Rem { yes() } else { None } },
        Bin::And => return None,
        _ => {}
    }
    if k.is_nan() { return if (b == Bin::Ne) == r { yes() } else { no() }; }
    if k.abs() > 9e15 { return None; }
    let (fl, ce) = (k.floor() as i128, k.ceil() as i128);
    let le = |c: i128| Some(vec![Lin::k(c).sub(v)]);
    let ge = |c: i128| Some(vec![v.addk(-c)]);
    match (b, r) {
        (Bin::Lt, true) | (Bin::Ge, false) => le(ce - 1),
        (Bin::Le, true) | (Bin::Gt, false) => le(fl),
        (Bin::Gt, true) | (Bin::Le, false) => ge(fl + 1),
        (Bin::Ge, true) | (Bin::Lt, false) => ge(ce),
        (Bin::Eq, true) | (Bin::Ne, false) => if fl == ce { Some(vec![v.addk(-fl), Lin::k(fl).sub(v)]) } else { no() },
        (Bin::Eq, false) | (Bin::Ne, true) => if fl != ce { yes() } else { None },
        _ => None,
    }
}

pub fn binop(st: &State, cx: &Cx, b: Bin, x: &V, y: &V, checked: bool, t: Option<TyId>) -> Dec<V> {
    let top = if checked { V::agg(0, vec![V::Top, V::Top]) } else { V::Top };
    match (x, y) {
        (V::Int(p), V::Int(q)) => {
            let arith = |r: Option<Lin>| -> Dec<V> {
                let Some(r) = r else { return Ok(top.clone()) };
                let Some(t) = t else { return Ok(V::Int(r)) };
                if checked {
                    let o = range(st, cx, &r, t)? != 0;
                    Ok(V::agg(0, vec![V::Int(r), V::Bool(o)]))
                } else { Ok(match wrap(st, cx, &r, t)? { Some(r) => V::Int(r), None => V::Top }) }
            };
            match b {
                Bin::Add => arith(Some(p.add(q))),
                Bin::Sub => arith(Some(p.sub(q))),
                Bin::Mul => arith(match (p.is_const(), q.is_const()) { (Some(k), _) => Some(q.scale(k)), (_, Some(k)) => Some(p.scale(k)), _ => None }),
                Bin::Eq => Ok(V::Bool(st.eq0(cx, &p.sub(q))?)),
                Bin::Ne => Ok(V::Bool(!st.eq0(cx, &p.sub(q))?)),
                Bin::Lt => Ok(V::Bool(st.ge0(cx, &q.sub(p).addk(-1))?)),
                Bin::Le => Ok(V::Bool(st.ge0(cx, &q.sub(p))?)),
                Bin::Gt => Ok(V::Bool(st.ge0(cx, &p.sub(q).addk(-1))?)),
                Bin::Ge => Ok(V::Bool(st.ge0(cx, &p.sub(q))?)),
                Bin::Cmp => {
                    let lt = st.ge0(cx, &q.sub(p).addk(-1))?;
                    let v = if lt { 0 } else if st.ge0(cx, &p.sub(q).addk(-1))? { 2 } else { 1 };
                    Ok(V::agg(v, vec![]))
                }
                Bin::Div | Bin::Rem | Bin::And | Bin::Or | Bin::Xor | Bin::Shl | Bin::Shr if st.as_byte(p).is_some() && q.is_const().is_some_and(|c| c != 0 || matches!(b, Bin::And | Bin::Or | Bin::Xor)) => {
                    let (a, s, o) = st.as_byte(p).unwrap();
                    let c = q.c;
                    let r = st.by_byte(a, &s, &|x| { let x = x as i128 + o; match b { Bin::Div => x / c, Bin::Rem => x % c, Bin::And => x & c, Bin::Or => x | c, Bin::Xor => x ^ c, Bin::Shl => if c < 64 { x << c } else { 0 }, _ => if c < 64 { x >> c } else { 0 } } })?;
                    arith(Some(Lin::k(r)))
                }
                Bin::Div | Bin::Rem | Bin::And | Bin::Or | Bin::Xor | Bin::Shl | Bin::Shr => match (p.is_const(), q.is_const()) {
                    (Some(a), Some(c)) => {
                        let r = match b {
                            Bin::Div if c != 0 => a / c,
                            Bin::Rem if c != 0 => a % c,
                            Bin::And => a & c, Bin::Or => a | c, Bin::Xor => a ^ c,
                            Bin::Shl if (0..100).contains(&c) => a << c,
                            Bin::Shr if (0..100).contains(&c) => a >> c,
                            _ => return Ok(top),
                        };
                        arith(Some(Lin::k(r)))
                    }
                    _ => Ok(top),
                },
                Bin::Offset => Ok(V::Top),
            }
        }
        (V::Bool(p), V::Bool(q)) => Ok(V::Bool(match b {
            Bin::And => p & q, Bin::Or => p | q, Bin::Xor | Bin::Ne => p ^ q, Bin::Eq => p == q,
            Bin::Lt => p < q, Bin::Le => p <= q, Bin::Gt => p > q, Bin::Ge => p >= q,
            _ => return Ok(V::Top),
        })),
        // short cuts of boolean operators on an unknown operand
        (V::Bool(false), V::Top) | (V::Top, V::Bool(false)) if b == Bin::And && !checked => Ok(V::Bool(false)),
        (V::Bool(true), V::Top) | (V::Top, V::Bool(true)) if b == Bin::Or && !checked => Ok(V::Bool(true)),
        (V::Float(p), V::Float(q)) => match b {
            Bin::Add | Bin::Sub | Bin::Mul | Bin::Div | Bin::Rem => {
                if let (Fl::C(x), Fl::C(y)) = (p, q) {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    let r = match b { Bin::Add => x + y, Bin::Sub => x - y, Bin::Mul => x * y, Bin::Div => x / y, _ => x % y };
                    return Ok(V::Float(Fl::C(r.to_bits())));
                }
                let r = Fl::Op(Rc::new((b, p.clone(), q.clone())));
                Ok(V::Float(if matches!(p, Fl::R32(_)) || matches!(q, Fl::R32(_)) { single(r) } else { r }))
            }
            Bin::Eq | Bin::Ne | Bin::Lt | Bin::Le | Bin::Gt | Bin::Ge => match (p, q) {
                (Fl::C(x), Fl::C(y)) => Ok(V::Bool(fcmp(b, f64::from_bits(*x), f64::from_bits(*y)))),
                (Fl::Parse(s), Fl::C(k)) => Ok(st.float_cmp(cx, *s, b, *k)?),
                (Fl::C(k), Fl::Parse(s)) => {
                    let r = match b { Bin::Lt => Bin::Gt, Bin::Le => Bin::Ge, Bin::Gt => Bin::Lt, Bin::Ge => Bin::Le, x => x };
                    Ok(st.float_cmp(cx, *s, r, *k)?)
                }
                _ => Ok(V::Bool(st.float_cmp2(cx, b, p, q)?)),
            },
            _ => Ok(V::Top),
        },
        _ => Ok(top),
    }
}

impl State {
    /// Comparison of two floats of which neither need be a constant.
    pub fn float_cmp2(&self, cx: &Cx, b: Bin, p: &Fl, q: &Fl) -> Dec<bool> {
        if let (Fl::Parse(s), Fl::Parse(t)) = (p, q) {
            if self.root(*s) == self.root(*t) {
                if let V::Bool(nan) = self.float_cmp(cx, *s, Bin::Rem, 0)? { return Ok(if nan { b == Bin::Ne } else { matches!(b, Bin::Eq | Bin::Le | Bin::Ge) }); }
            }
        }
        for (c, x, y, r) in self.fcons.iter() {
            if (c, x, y) == (&b, p, q) { return Ok(*r); }
            if matches!((b, c), (Bin::Eq, Bin::Ne) | (Bin::Ne, Bin::Eq)) && (x, y) == (p, q) { return Ok(!*r); }
        }
        let con = |r: bool| Con::FCon(b, p.clone(), q.clone(), r);
        if let (Fl::Parse(s), Fl::Parse(t), Bin::Eq | Bin::Ne) = (p, q, b) {
            let e = b == Bin::Eq;
            return Err(Box::new(Fork(vec![vec![Con::Same(*s, *t)], vec![Con::Differ(*s, *t), con(!e)], vec![Con::Differ(*s, *t), con(e), Con::Taint("two spellings of one number")]], "float equality")));
        }
        Err(Box::new(Fork(vec![vec![con(true)], vec![con(false)]], "float comparison")))
    }
    pub fn float_cmp(&self, cx: &Cx, s: StrId, b: Bin, k: u64) -> Dec<V> {
        let f = self.sf(s);
        if let (Some(true), Some(a), None) = (f.int, f.val, &f.lit) {
            let v = Lin::atom(a);
            let kf = f64::from_bits(k);
            if matches!(b, Bin::Eq | Bin::Ne) && kf.floor() == kf && kf.abs() < 9e15 { return Ok(V::Bool(self.eq0(cx, &v.addk(-(kf as i128)))? == (b == Bin::Eq))); }
            if b == Bin::Rem { return Ok(V::Bool(false)); }
            if let (Some(t), Some(_)) = (int_fcmp(&v, b, k, true), int_fcmp(&v, b, k, false)) {
                for l in t { if !self.ge0(cx, &l)? { return Ok(V::Bool(false)); } }
                return Ok(V::Bool(true));
            }
            return Ok(V::Top);
        }
        if let Some(l) = &f.lit { if let Ok(x) = l.parse::<f64>() { return Ok(V::Bool(fcmp(b, x, f64::from_bits(k)))); } }
        for (b2, k2, r) in &f.fcmp { if *b2 == b && *k2 == k { return Ok(V::Bool(*r)); } }
        Err(Box::new(Fork(vec![vec![Con::FCmp(s, b, k, true)], vec![Con::FCmp(s, b, k, false)]], "float comparison")))
    }
}

/// Quotient and remainder by a constant, and what amounts to them.
pub fn divide(st: &State, cx: &mut Cx, b: Bin, x: &V, y: &V, t: Option<TyId>) -> Dec<Option<Lin>> {
    let (V::Int(p), V::Int(q)) = (x, y) else { return Ok(None) };
    if st.as_byte(p).is_some() { return Ok(None); }
    let Some(c) = q.is_const() else { return Ok(None) };
    if p.is_const().is_some() { return Ok(None); }
    let unsigned = t.and_then(|t| cx.prog.int_bounds(t)).is_some_and(|(lo, _)| lo == 0);
    let (c, rem) = match b {
        Bin::Div if c > 0 => (c, false),
        Bin::Rem if c > 0 => (c, true),
        Bin::Shr if (0..63).contains(&c) && unsigned => (1i128 << c, false),
        Bin::And if unsigned && c >= 0 && (c + 1) & c == 0 => (c + 1, true),
        _ => return Ok(None),
    };
    if c == 1 { return Ok(Some(if rem { Lin::k(0) } else { p.clone() })); }
    let neg = !st.ge0(cx, p)?;
    let a = if neg { p.neg() } else { p.clone() };
    for (l, k, q, r) in st.divs.iter() {
        if *l == a && *k == c { let v = Lin::atom(if rem { *r } else { *q }); return Ok(Some(if neg { v.neg() } else { v })); }
    }
    let (q, r) = (cx.fresh(false), cx.fresh(false));
    Err(Box::new(Fork(vec![vec![Con::Div(a, c, q, r)]], "division")))
}

fn rvalue(st: &State, cx: &mut Cx, f: &Func, r: &Rv) -> Dec<V> {
    Ok(match r {
        // what a box holds, in a pointer of its own
        Rv::Use(Op::Copy(p)) if !p.proj.is_empty() && place_ty(cx.prog, f, p).is_some_and(|t| cx.prog.boxraw.contains(&t)) => match st.place(cx, st.frames.len() - 1, p)? { PV::L(l) => V::MRef(Rc::new(l)), PV::Val(v) => V::cref(v) },
        Rv::Use(o) => st.op(cx, o)?,
        Rv::Ref(p, _) if !cx.prog.dispatch.is_empty() && p.proj.last().is_some_and(|e| matches!(e, Proj::Deref)) && st.object(cx, p)?.is_some() => st.object(cx, p)?.unwrap_or(V::Top),
        Rv::Ref(p, m) => match st.place(cx, st.frames.len() - 1, p)? {
            PV::L(l) => if *m || (!cx.prog.cells.is_empty() && place_ty(cx.prog, f, p).is_some_and(|t| cx.prog.cells.contains(&t))) { V::MRef(Rc::new(l)) } else { V::cref(st.read(cx, &l)?) },
            PV::Val(v) => V::cref(v),
        },
        Rv::Bin(b, x, y, c) => {
            let t = op_ty(cx.prog, f, x);
            let (x, y) = (st.op(cx, x)?, st.op(cx, y)?);
            if let Some(l) = divide(st, cx, *b, &x, &y, t)? { V::Int(l) } else { binop(st, cx, *b, &x, &y, *c, t)? }
        }
        Rv::Un(u, x) => {
            let t = op_ty(cx.prog, f, x);
            let v = st.op(cx, x)?;
            match (u, &v) {
                (Un::Not, V::Bool(b)) => V::Bool(!b),
                (Un::Not, V::Int(l)) => match (l.is_const(), t.and_then(|t| cx.prog.int_bounds(t))) {
                    (Some(c), Some((lo, hi))) => V::int(if lo == 0 { hi - c } else { !c }),
                    _ => V::Top,
                },
                (Un::Neg, V::Int(l)) => match t { Some(t) => match wrap(st, cx, &l.neg(), t)? { Some(r) => V::Int(r), None => V::Top }, None => V::Int(l.neg()) },
                (Un::Neg, V::Float(Fl::C(b))) => V::Float(Fl::C((-f64::from_bits(*b)).to_bits())),
                (Un::Neg, V::Float(x)) => V::Float(Fl::Neg(Rc::new(x.clone()))),
                (Un::Meta, v) => match st.deref(cx, v)? {
                    V::Seq(s) => V::Int(s.len()),
                    V::S(p) => match native::named_len(st, cx, &p)? { Some(n) => V::Int(n), None => V::Top },
                    _ => V::Top,
                },
                _ => V::Top,
            }
        }
        Rv::Dyn(o, t) => {
            let tag = |v: V| V::agg(DYN, vec![V::int(*t as i128), v]);
            match st.op(cx, o)? {
                V::Agg(0, f) if f.len() == 1 => V::agg(0, vec![tag(f[0].clone())]),
                V::Top => V::Top,
                v => tag(v),
            }
        }
        Rv::Cast(k, o, t) => {
            if k.contains("BoxDeref") {
                // the pointer to what a box holds
                if let Op::Copy(p) | Op::Move(p) = o {
                    if p.proj.is_empty() && cx.prog.boxraw.contains(&f.locals[p.local]) { return st.op(cx, o); }
                    return Ok(match st.place(cx, st.frames.len() - 1, p)? { PV::L(l) => V::MRef(Rc::new(l)), PV::Val(v) => V::cref(v) });
                }
            }
            let v = st.op(cx, o)?;
            if k == "Transmute" && matches!(v, V::MRef(_) | V::CRef(_)) && matches!(cx.prog.tys[*t].kind, TyKind::Int { .. }) {
                // the address, in a check for null or misaligned pointers
                return Ok(V::int(1 << 20));
            }
            if k == "Transmute" {
                if let (V::Int(l), TyKind::Adt { variants, is_enum: true, .. }) = (&v, &cx.prog.tys[*t].kind) {
                    if variants.iter().all(|x| x.fields.is_empty()) {
                        for (i, x) in variants.iter().enumerate() { if st.eq0(cx, &l.addk(-x.discr))? { return Ok(V::agg(i as u32, vec![])); } }
                        return Ok(V::agg(u32::MAX, vec![]));
                    }
                }
            }
            if k == "Transmute" {
                let name = &cx.prog.tys[*t].name;
                if let V::Int(l) = &v {
                    // an integer seen as one that is not zero, if it is one
                    if name.contains("Option<") && name.contains("NonZero<") {
                        return Ok(if st.eq0(cx, l)? { V::none() } else { V::some(V::Int(l.clone())) });
                    }
                }
                if let (V::Agg(n, fs), TyKind::Int { .. }) = (&v, &cx.prog.tys[*t].kind) {
                    let from = op_ty(cx.prog, f, o).map(|t| cx.prog.tys[t].name.clone()).unwrap_or_default();
                    if from.contains("Option<") && from.contains("NonZero<") {
                        return Ok(if *n == 0 { V::int(0) } else { fs.first().cloned().unwrap_or(V::Top) });
                    }
                }
            }
            if k.starts_with("IntToInt") {
                match &v {
                    V::Int(l) => V::Int(wrap_far(st, cx, l, *t)?),
                    V::Bool(b) => V::int(*b as i128),
                    V::Agg(n, _) => {
                        let ot = op_ty(cx.prog, f, o);
                        let d = ot.and_then(|t| cx.prog.adt(t)).and_then(|(_, vs)| vs.get(*n as usize)).map(|v| v.discr).unwrap_or(*n as i128);
                        V::int(d)
                    }
                    _ => V::Top,
                }
            } else if k.starts_with("FloatToFloat") { if cx.prog.tys[*t].name == "f32" { match v { V::Float(x) => V::Float(single(x)), v => v } } else { v } }
            else if k.starts_with("IntToFloat") {
                match v { V::Int(l) if l.is_const().is_some() => V::Float(Fl::C((l.c as f64).to_bits())), _ => V::Top }
            } else if k.starts_with("FloatToInt") {
                match (&v, cx.prog.int_bounds(*t)) { (V::Float(Fl::C(b)), Some((lo, hi))) => V::int((f64::from_bits(*b) as i128).clamp(lo, hi)), _ => V::Top }
            }
            else { v }
        }
        Rv::Discr(p) => {
            let v = st.read_place(cx, p)?;
            match &v {
                V::Agg(n, _) => {
                    let t = place_ty(cx.prog, f, p);
                    let d = t.and_then(|t| cx.prog.adt(t)).and_then(|(_, vs)| vs.get(*n as usize)).map(|v| v.discr).unwrap_or(*n as i128);
                    V::int(d)
                }
                V::Sel(a, i, form) => match st.sel_variant(cx, *a, i, form)? { Some(n) => V::int(n as i128), None => V::Top },
                _ => V::Top,
            }
        }
        Rv::Len(p) => match bytes_view(st.read_place(cx, p)?) { V::Seq(s) => V::Int(s.len()), _ => V::Top },
        Rv::Agg(k, ops, t) => {
            let mut v = vec![];
            for o in ops { v.push(st.op(cx, o)?); }
            match k {
                AggK::Array => {
                    let e = match &cx.prog.tys[*t].kind { TyKind::Array(e, _) => *e, _ => 0 };
                    V::Seq(Rc::new(Seq { elem: e, segs: v.into_iter().map(Seg::El).collect() }))
                }
                AggK::Tuple | AggK::Closure(_) => V::agg(0, v),
                AggK::Adt(n) => V::agg(*n as u32, v),
                AggK::Other => V::Top,
            }
        }
        Rv::Repeat(o, n) => {
            let v = st.op(cx, o)?;
            if *n <= 64 { V::seq(0, (0..*n).map(|_| Seg::El(v.clone())).collect()) } else { V::Top }
        }
        Rv::Other(_) => V::Top,
    })
}

impl State {
    /// The variant of an element of a named run.
    pub fn sel_variant(&self, _cx: &Cx, _a: Atom, _i: &Lin, form: &V) -> Dec<Option<u32>> {
        match form { V::Agg(n, _) => Ok(Some(*n)), _ => Ok(None) }
    }
}

/// Enter a function; the caller's frame already points at the call.
pub fn push_frame(st: &mut State, cx: &Cx, func: FnId, args: Vec<V>, dest: Option<(Place, Option<usize>)>) {
    let f = &cx.prog.funcs[func];
    let mut locals = vec![V::Undef; f.locals.len()];
    for (i, a) in args.into_iter().enumerate() { if i + 1 < locals.len() { locals[i + 1] = a; } }
    st.frames.push(Rc::new(Frame { func, bb: 0, si: 0, locals, dest }));
}

fn goto(st: &mut State, cx: &Cx, bb: usize) -> Flow {
    let fr = st.top_mut();
    fr.bb = bb;
    fr.si = 0;
    if cx.prog.funcs[fr.func].blocks[bb].loop_head { Flow::Head } else { Flow::Next }
}

/// Clear what is dead at the start of the current block.
pub fn prune(st: &mut State, cx: &Cx) {
    let fr = st.top_mut();
    let live = &cx.prog.funcs[fr.func].blocks[fr.bb].live_in;
    for (i, l) in live.iter().enumerate() { if !*l { fr.locals[i] = V::Undef; } }
}

/// Forget what no frame will read again.
pub fn prune_all(st: &mut State, cx: &Cx) {
    let top = st.frames.len() - 1;
    for i in 0..top {
        let (f, bb) = (st.frames[i].func, st.frames[i].bb);
        let blocks = &cx.prog.funcs[f].blocks;
        if st.frames[i].si != 0 || bb != 0 || st.frames[i].dest.is_some() || i > 0 {
            if let Tm::Call { dest, target: Some(t), .. } = &blocks[bb].tm {
                let live = &blocks[*t].live_in;
                let dl = dest.local;
                let whole = dest.proj.is_empty();
                let kill: Vec<usize> = (0..st.frames[i].locals.len()).filter(|l| (!live.get(*l).copied().unwrap_or(true) || (*l == dl && whole)) && st.frames[i].locals[*l] != V::Undef).collect();
                if kill.is_empty() { continue; }
                let fr = Rc::make_mut(&mut st.frames[i]);
                for l in kill { fr.locals[l] = V::Undef; }
            }
        }
    }
    prune(st, cx);
}

/// One step. On `Err`, the state is as it was (apart from the error).
pub fn step(st: &mut State, cx: &mut Cx) -> Dec<Flow> {
    let depth = st.frames.len() - 1;
    let (fid, bb, si) = { let t = st.top(); (t.func, t.bb, t.si) };
    let prog = cx.prog;
    let f = &prog.funcs[fid];
    let blk = &f.blocks[bb];
    st.steps += 1;
    if si < blk.st.len() {
        match &blk.st[si].0 {
            St::Assign(p, r) => {
                let v = rvalue(st, cx, f, r)?;
                match st.place(cx, depth, p)? {
                    PV::L(l) => { let w = st.prepare(cx, &l, v)?; st.commit(w); }
                    PV::Val(_) => { st.taint("write through an unknown reference"); }
                }
            }
            St::SetDiscr(p, n) => {
                if let PV::L(l) = st.place(cx, depth, p)? {
                    let old = st.read(cx, &l)?;
                    let nf = match old { V::Agg(_, f) => V::Agg(*n as u32, f), _ => V::agg(*n as u32, vec![]) };
                    let w = st.prepare(cx, &l, nf)?;
                    st.commit(w);
                }
            }
            St::Dead(l) | St::Live(l) => { st.top_mut().locals[*l] = V::Undef; }
        }
        st.top_mut().si += 1;
        return Ok(Flow::Next);
    }
    match &blk.tm {
        Tm::Goto(t) => Ok(goto(st, cx, *t)),
        Tm::Drop(_, t) => Ok(goto(st, cx, *t)),
        Tm::Switch(o, ts, other) => {
            let v = st.op(cx, o)?;
            match &v {
                V::Bool(b) => {
                    let k = *b as u128;
                    let t = ts.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*other);
                    Ok(goto(st, cx, t))
                }
                V::Int(l) => {
                    let ty = op_ty(prog, f, o);
                    for (k, t) in ts {
                        let k = sign_fix(prog, ty, *k);
                        if st.eq0(cx, &l.addk(-k))? { return Ok(goto(st, cx, *t)); }
                    }
                    Ok(goto(st, cx, *other))
                }
                _ => {
                    let mut tg: Vec<usize> = ts.iter().map(|x| x.1).collect();
                    tg.push(*other);
                    tg.sort();
                    tg.dedup();
                    let mut out = vec![];
                    for t in tg {
                        if matches!(f.blocks[t].tm, Tm::Unreachable) && f.blocks[t].st.is_empty() { continue; }
                        let mut s = st.clone();
                        s.taint("branch on a value the analysis does not know");
                        goto(&mut s, cx, t);
                        out.push(s);
                    }
                    cx.note(&format!("unknown branch in {}:{}", f.name, blk.tm_line));
                    Ok(Flow::Many(out))
                }
            }
        }
        Tm::Return => {
            let v = st.top().locals[0].clone();
            if depth == 0 {
                return Ok(Flow::Done(v));
            }
            let (dest, target) = st.top().dest.clone().unwrap();
            ret(st, cx, depth - 1, &dest, target, v, true)
        }
        Tm::Unreachable => if st.taint.is_none() { Ok(Flow::Panic("undefined behaviour: code marked as unreachable is reached".into())) } else { Ok(Flow::Dead) },
        Tm::Resume => Ok(Flow::Dead),
        Tm::Assert { cond, expected, msg, target } => {
            match st.op(cx, cond)? {
                V::Bool(b) if b == *expected => Ok(goto(st, cx, *target)),
                V::Bool(_) => Ok(Flow::Panic(if ["InvalidEnumConstruction", "NullPointerDereference", "MisalignedPointerDereference"].contains(&msg.as_str()) { format!("undefined behaviour: {}", msg) } else { msg.clone() })),
                _ => { st.taint("assertion on an unknown value"); Ok(goto(st, cx, *target)) }
            }
        }
        Tm::Other(_) => { st.taint("unsupported terminator"); Ok(Flow::Dead) }
        Tm::Call { callee, func, args, dest, target } => {
            let mut av = Vec::with_capacity(args.len());
            for a in args { av.push(st.op(cx, a)?); }
            let cid = match callee {
                Some(c) => Some(*c),
                None => match st.op(cx, func)? { V::Fn(c) => Some(c), _ => None },
            };
            let Some(cid) = cid else {
                st.taint("call through an unknown function pointer");
                return ret(st, cx, depth, dest, *target, V::Top, false);
            };
            // a method of a trait object
            let cid = if !prog.dispatch.is_empty() && prog.dispatch.keys().any(|k| k.0 == cid) {
                match av.first() {
                    Some(v) => match st.behind(cx, v)? {
                        Some((t, v)) => match prog.dispatch.get(&(cid, t)) { Some(c) => { av[0] = v; *c } None => cid },
                        None => cid,
                    },
                    None => cid,
                }
            } else { cid };
            // closures are called with their arguments in a tuple, but their bodies take them apart
            if let Some(g) = prog.callees[cid].func {
                let g = &prog.funcs[g];
                if g.closure && av.len() == 2 && (g.argc != 2 || op_ty(prog, f, &args[1]) != Some(g.locals[2])) {
                    if let V::Agg(_, t) = av[1].clone() {
                        av.pop();
                        av.extend(t.iter().cloned());
                    }
                }
            }
            native::call(st, cx, cid, av, dest, *target)
        }
    }
}

pub fn sign_fix(prog: &Program, t: Option<TyId>, k: u128) -> i128 {
    if let Some(t) = t {
        if let TyKind::Int { signed: true, bits } = prog.tys[t].kind {
            if bits < 128 && k >> (bits - 1) & 1 == 1 { return k as i128 - (1i128 << bits); }
        }
    }
    k as i128
}

/// Store the result of a call and continue in the frame at `depth`.
pub fn ret(st: &mut State, cx: &mut Cx, depth: usize, dest: &Place, target: Option<usize>, v: V, pop: bool) -> Dec<Flow> {
    let w = match st.place(cx, depth, dest)? {
        PV::L(l) => Some(st.prepare(cx, &l, v)?),
        PV::Val(_) => None,
    };
    if pop { st.frames.pop(); }
    match w { Some(w) => st.commit(w), None => st.taint("result stored through an unknown reference") }
    match target { Some(t) => Ok(goto(st, cx, t)), None => Ok(Flow::Dead) }
}
