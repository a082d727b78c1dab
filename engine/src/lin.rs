//! Linear expressions over integer atoms, and the rational linear programming
//! used to decide entailment between linear facts.
use std::collections::BTreeMap;

pub type Atom = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Atom, i128)>,
}

impl Lin {
    pub fn k(c: i128) -> Lin { Lin { c, t: vec![] } }
    pub fn atom(a: Atom) -> Lin { Lin { c: 0, t: vec![(a, 1)] } }
    pub fn is_const(&self) -> Option<i128> { if self.t.is_empty() { Some(self.c) } else { None } }
    pub fn add(&self, o: &Lin) -> Lin { self.comb(1, o, 1) }
    pub fn sub(&self, o: &Lin) -> Lin { self.comb(1, o, -1) }
    pub fn addk(&self, k: i128) -> Lin { Lin { c: self.c + k, t: self.t.clone() } }
    pub fn neg(&self) -> Lin { self.scale(-1) }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 { return Lin::k(0); }
        Lin { c: self.c * k, t: self.t.iter().map(|(a, x)| (*a, x * k)).collect() }
    }
    pub fn comb(&self, k1: i128, o: &Lin, k2: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                if k1 != 0 { t.push((self.t[i].0, self.t[i].1 * k1)); }
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                if k2 != 0 { t.push((o.t[j].0, o.t[j].1 * k2)); }
                j += 1;
            } else {
                let x = self.t[i].1 * k1 + o.t[j].1 * k2;
                if x != 0 { t.push((self.t[i].0, x)); }
                i += 1;
                j += 1;
            }
        }
        Lin { c: self.c * k1 + o.c * k2, t }
    }
    pub fn coef(&self, a: Atom) -> i128 { self.t.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0) }
    /// Replace atoms; atoms that the function does not map are kept.
    pub fn subst(&self, f: &mut dyn FnMut(Atom) -> Option<Lin>) -> Lin {
        let mut r = Lin::k(self.c);
        for (a, x) in &self.t {
            let l = f(*a).unwrap_or_else(|| Lin::atom(*a));
            r = r.comb(1, &l, *x);
        }
        r
    }
    pub fn eval(&self, m: &BTreeMap<Atom, i128>) -> Option<i128> {
        let mut r = self.c;
        for (a, x) in &self.t { r += x * m.get(a)?; }
        Some(r)
    }
    pub fn show(&self) -> String {
        if self.t.is_empty() { return format!("{}", self.c); }
        let mut s = String::new();
        for (a, x) in &self.t {
            if !s.is_empty() || *x < 0 { s.push_str(if *x < 0 { "-" } else { "+" }); }
            if x.abs() != 1 { s.push_str(&format!("{}*", x.abs())); }
            s.push_str(&format!("n{}", a));
        }
        if self.c != 0 { s.push_str(&format!("{:+}", self.c)); }
        s
    }
}

// ---- exact rationals -------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Q { n: i128, d: i128 }
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let r = a % b; a = b; b = r; } a }
struct Overflow;
type R<T> = Result<T, Overflow>;
impl Q {
    const Z: Q = Q { n: 0, d: 1 };
    fn i(n: i128) -> Q { Q { n, d: 1 } }
    fn mk(n: i128, d: i128) -> Q {
        if n == 0 { return Q::Z; }
        let g = gcd(n, d);
        let (n, d) = (n / g, d / g);
        if d < 0 { Q { n: -n, d: -d } } else { Q { n, d } }
    }
    fn add(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 { return Ok(Q { n: self.n.checked_add(o.n).ok_or(Overflow)?, d: 1 }); }
        let a = self.n.checked_mul(o.d).ok_or(Overflow)?;
        let b = o.n.checked_mul(self.d).ok_or(Overflow)?;
        Ok(Q::mk(a.checked_add(b).ok_or(Overflow)?, self.d.checked_mul(o.d).ok_or(Overflow)?))
    }
    fn mul(self, o: Q) -> R<Q> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Ok(Q::mk((self.n / g1).checked_mul(o.n / g2).ok_or(Overflow)?, (self.d / g2).checked_mul(o.d / g1).ok_or(Overflow)?))
    }
    fn neg(self) -> Q { Q { n: -self.n, d: self.d } }
    fn div(self, o: Q) -> R<Q> { self.mul(Q::mk(o.d, o.n)) }
    fn lt(self, o: Q) -> R<bool> { Ok(self.add(o.neg())?.n < 0) }
}

/// Minimum of `obj` subject to facts (each >= 0) over the rationals.
pub enum Min { Infeasible, Unbounded, At(i128, i128), Unknown }

/// Keep only the facts connected to the atoms of `q` (all of them if `q` is None).
fn relevant<'a>(facts: &'a [Lin], q: &Lin) -> Vec<&'a Lin> {
    let mut atoms: Vec<Atom> = q.t.iter().map(|x| x.0).collect();
    let mut used = vec![false; facts.len()];
    let mut out = vec![];
    let mut i = 0;
    while i < atoms.len() {
        let a = atoms[i];
        i += 1;
        for (k, f) in facts.iter().enumerate() {
            if !used[k] && f.t.iter().any(|x| x.0 == a) {
                used[k] = true;
                out.push(f);
                for x in &f.t { if !atoms.contains(&x.0) { atoms.push(x.0); } }
            }
        }
    }
    out
}

pub fn minimize(facts: &[Lin], obj: &Lin) -> Min {
    if obj.t.is_empty() { return Min::At(obj.c, 1); }
    let fs = relevant(facts, obj);
    match simplex(&fs, obj) { Ok(m) => m, Err(_) => Min::Unknown }
}

/// Does facts |= l >= 0 ? (sound: true means yes)
pub fn entails(facts: &[Lin], l: &Lin) -> bool {
    if let Some(c) = l.is_const() { return c >= 0; }
    for f in facts { if f.t == l.t && f.c <= l.c { return true; } }
    match minimize(facts, l) {
        Min::Infeasible => true,
        Min::At(n, d) => n > -d, // integer valued: > -1 means >= 0
        _ => false,
    }
}

/// Can facts hold together with l >= 0 ? (false means surely not)
pub fn consistent(facts: &[Lin], l: &Lin) -> bool {
    if let Some(c) = l.is_const() { return c >= 0; }
    // l >= 0 impossible iff facts |= -l - 1 >= 0
    !entails(facts, &l.neg().addk(-1))
}

/// Dense simplex: free variables are split; phase one with a single artificial.
fn simplex(facts: &[&Lin], obj: &Lin) -> R<Min> {
    let mut idx: BTreeMap<Atom, usize> = BTreeMap::new();
    for f in facts { for (a, _) in &f.t { let n = idx.len(); idx.entry(*a).or_insert(n); } }
    for (a, _) in &obj.t { let n = idx.len(); idx.entry(*a).or_insert(n); }
    let nv = idx.len();
    // variables that have a plain lower bound x >= lo become x' = x - lo >= 0
    let mut lo: Vec<Option<i128>> = vec![None; nv];
    let mut skip = vec![false; facts.len()];
    for (k, f) in facts.iter().enumerate() {
        if f.t.len() == 1 && f.t[0].1 == 1 {
            let v = idx[&f.t[0].0];
            let b = -f.c;
            match lo[v] {
                None => { lo[v] = Some(b); skip[k] = true; }
                Some(o) if b <= o => skip[k] = true,
                Some(_) => { lo[v] = Some(b); skip[k] = true; }
            }
        }
    }
    // columns
    let mut col: Vec<(usize, Option<usize>)> = vec![];
    let mut nc = 0;
    for v in 0..nv {
        if lo[v].is_some() { col.push((nc, None)); nc += 1; } else { col.push((nc, Some(nc + 1))); nc += 2; }
    }
    let conv = |l: &Lin| -> R<(Vec<Q>, Q)> {
        let mut r = vec![Q::Z; nc];
        let mut c = Q::i(l.c);
        for (a, x) in &l.t {
            let v = idx[a];
            let q = Q::i(*x);
            r[col[v].0] = q;
            if let Some(j) = col[v].1 { r[j] = q.neg(); }
            if let Some(b) = lo[v] { c = c.add(Q::i(x.checked_mul(b).ok_or(Overflow)?))?; }
        }
        Ok((r, c))
    };
    // rows: a.x + c >= 0  ->  -a.x + s = c, s >= 0
    let mut rows: Vec<Vec<Q>> = vec![];
    let mut rhs: Vec<Q> = vec![];
    for (k, f) in facts.iter().enumerate() {
        if skip[k] { continue; }
        let (a, c) = conv(f)?;
        rows.push(a.iter().map(|x| x.neg()).collect());
        rhs.push(c);
    }
    let m = rows.len();
    let (oc, o0) = conv(obj)?;
    let tot = nc + m + 1; // + artificial
    let art = nc + m;
    let mut t: Vec<Vec<Q>> = vec![];
    for i in 0..m {
        let mut r = rows[i].clone();
        r.resize(tot, Q::Z);
        r[nc + i] = Q::i(1);
        r[art] = Q::i(-1);
        r.push(rhs[i]);
        t.push(r);
    }
    let mut basis: Vec<usize> = (0..m).map(|i| nc + i).collect();
    let pivot = |t: &mut Vec<Vec<Q>>, z: &mut Vec<Q>, basis: &mut Vec<usize>, r: usize, c: usize| -> R<()> {
        let p = t[r][c];
        for x in t[r].iter_mut() { *x = x.div(p)?; }
        let row = t[r].clone();
        for i in 0..t.len() {
            if i != r && t[i][c].n != 0 {
                let f = t[i][c];
                for j in 0..row.len() { if row[j].n != 0 { t[i][j] = t[i][j].add(row[j].mul(f)?.neg())?; } }
            }
        }
        if z[c].n != 0 {
            let f = z[c];
            for j in 0..row.len() { if row[j].n != 0 { z[j] = z[j].add(row[j].mul(f)?.neg())?; } }
        }
        basis[r] = c;
        Ok(())
    };
    let run = |t: &mut Vec<Vec<Q>>, z: &mut Vec<Q>, basis: &mut Vec<usize>, allow_art: bool| -> R<bool> {
        let mut it = 0;
        loop {
            it += 1;
            if it > 4000 { return Err(Overflow); }
            let w = z.len() - 1;
            let mut c = None;
            for j in 0..w { if !allow_art && j == art { continue; } if z[j].n < 0 { c = Some(j); break; } }
            let Some(c) = c else { return Ok(true) };
            let mut best: Option<(usize, Q)> = None;
            for i in 0..t.len() {
                if t[i][c].n > 0 {
                    let r = t[i][w].div(t[i][c])?;
                    match best {
                        None => best = Some((i, r)),
                        Some((bi, b)) => if r.lt(b)? || (r == b && basis[i] < basis[bi]) { best = Some((i, r)); }
                    }
                }
            }
            let Some((r, _)) = best else { return Ok(false) };
            pivot(t, z, basis, r, c)?;
        }
    };
    // phase one
    let mut worst: Option<usize> = None;
    for i in 0..m { if rhs[i].n < 0 { if worst.is_none() || rhs[i].lt(rhs[worst.unwrap()])? { worst = Some(i); } } }
    if let Some(w) = worst {
        let mut z = vec![Q::Z; tot + 1];
        z[art] = Q::i(1);
        pivot(&mut t, &mut z, &mut basis, w, art)?;
        run(&mut t, &mut z, &mut basis, true)?;
        // minimum of artificial = -z[last]
        if z[tot].n != 0 { return Ok(Min::Infeasible); }
        if let Some(r) = basis.iter().position(|b| *b == art) {
            // drive it out
            let mut c = None;
            for j in 0..tot { if j != art && t[r][j].n != 0 { c = Some(j); break; } }
            if let Some(c) = c { let mut z = vec![Q::Z; tot + 1]; pivot(&mut t, &mut z, &mut basis, r, c)?; }
        }
    }
    for r in t.iter_mut() { r[art] = Q::Z; }
    let mut z = vec![Q::Z; tot + 1];
    for j in 0..nc { z[j] = oc[j]; }
    for i in 0..m {
        let b = basis[i];
        if z[b].n != 0 {
            let f = z[b];
            for j in 0..=tot { let d = t[i][j].mul(f)?; z[j] = z[j].add(d.neg())?; }
        }
    }
    if !run(&mut t, &mut z, &mut basis, false)? { return Ok(Min::Unbounded); }
    let v = o0.add(z[tot].neg())?;
    Ok(Min::At(v.n, v.d))
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basic() {
        let x = Lin::atom(0); let y = Lin::atom(1);
        let f = vec![x.clone(), y.sub(&x), Lin::k(10).sub(&y)];
        assert!(entails(&f, &y));
        assert!(!entails(&f, &y.addk(-1)));
        assert!(entails(&f, &Lin::k(10).sub(&x)));
        assert!(!entails(&f, &Lin::k(9).sub(&x)));
        assert!(consistent(&f, &x.addk(-10)));
        assert!(!consistent(&f, &x.addk(-11)));
        // free variables
        let f = vec![x.add(&y).addk(-3), x.sub(&y).addk(-1)];
        assert!(entails(&f, &x.addk(-2)));
        assert!(!entails(&f, &y));
        let f = vec![x.addk(-5), Lin::k(3).sub(&x)];
        assert!(entails(&f, &Lin::atom(9)) == false);
        assert!(entails(&f, &x.scale(-1)));
    }
}
