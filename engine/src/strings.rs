//! Models of functions on strings and characters. A word that such a function looks into is
//! split into representative spellings; the remaining spellings are marked as not followed
//! exactly.
use crate::ir::*;
use crate::lin::*;
use crate::native::*;
use crate::val::*;
use std::rc::Rc;

pub const WORDS: [&str; 36] = ["a", "A", "b2", "_", "1", "2", "-1", "0", "+1", "007", "-0", "1.5", "-0.5", "1e3", ".5", "x/y", "1/1", "1//1", "1/1/1", "/", "\u{e9}t\u{e9}", "\u{a0}", "\u{c}x",
    "a.png", "\"q\"", "off", "OFF", "on", "default", "inf", "NaN", "-", "v", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "a\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", "\u{65e5}\u{672c}\u{65e5}\u{672c}\u{65e5}\u{672c}\u{65e5}\u{672c}\u{65e5}\u{672c}\u{65e5}\u{672c}"];

/// Spellings to try: usual ones, and those the code itself mentions.
pub fn words(p: &Program, root: FnId) -> Vec<Rc<str>> {
    let mut out: Vec<Rc<str>> = vec![];
    fn see(c: &CVal, out: &mut Vec<Rc<str>>) {
        match c {
            CVal::Str(s) if s.len() <= 24 => {
                for x in [s.to_string(), format!("{}x", s), format!("x{}", s), s.to_uppercase()] {
                    if State::valid_token(&x) && !out.iter().any(|o| **o == *x) { out.push(x.as_str().into()); }
                }
            }
            CVal::Char(k) => if let Some(k) = char::from_u32(*k) {
                for x in [k.to_string(), format!("{}x", k), format!("x{}", k), format!("x{}y", k)] { if State::valid_token(&x) && !out.iter().any(|o| **o == *x) { out.push(x.as_str().into()); } }
            },
            CVal::Agg(_, v) | CVal::Array(v) => for x in v { see(x, out); },
            CVal::Ref(r) => see(r, out),
            _ => {}
        }
    }
    for f in crate::reachable(p, root).into_iter().map(|f| &p.funcs[f]).filter(|f| f.local) {
        let mut op = |o: &Op| if let Op::Const(c, _) = o { see(c, &mut out) };
        for b in &f.blocks {
            for (s, _) in &b.st { if let St::Assign(_, r) = s { match r { Rv::Use(o) | Rv::Cast(_, o, _) => op(o), Rv::Bin(_, x, y, _) => { op(x); op(y); } Rv::Agg(_, v, _) => for o in v { op(o) }, _ => {} } } }
            if let Tm::Call { args, .. } = &b.tm { for a in args { op(a); } }
        }
    }
    out.truncate(120);
    for w in WORDS { if !out.iter().any(|o| **o == *w) { out.push(w.into()); } }
    out
}

impl State {
    /// The spelling of a word.
    pub fn spelled(&self, cx: &Cx, s: StrId) -> Dec<Rc<str>> {
        if let Some(l) = self.sf(s).lit { return Ok(l); }
        let f = self.sf(s);
        let mut c: Vec<Rc<str>> = cx.words.iter().filter(|w| self.could_be(cx, s, w)).cloned().collect();
        if let Some(a) = f.len {
            // words of the least length possible, and a little longer
            let lo = match minimize(&self.facts, &Lin::atom(a)) { Min::At(n, d) if n >= 0 => (n / d) as usize, _ => 1 };
            if lo > 3 && lo < 100_000 {
                let mut v: Vec<Rc<str>> = vec![];
                for n in [lo, lo + 1] {
                    let e = "\u{e9}".repeat(n / 2);
                    for w in [format!("0.{}", "1234567890".repeat(n / 10 + 1)[..n - 2].to_string()), format!("{:0>1$}", 1, n), format!("1e{:0>1$}", 3, n - 2), format!("-{:0>1$}", 1, n - 1), "b".repeat(n), format!("{}{}", "a".repeat(n % 2), e), format!("{}{}", e, "a".repeat(n % 2))] { if self.could_be(cx, s, &w) { v.push(w.as_str().into()); } }
                }
                c.truncate(20);
                c = v.into_iter().chain(c).collect();
            }
        }
        let cap = if cx.word_cap == 0 { 40 } else { cx.word_cap };
        if c.len() > cap {
            // the usual spellings come last in the list
            let k = c.len();
            let mut d: Vec<Rc<str>> = c[..cap / 2].to_vec();
            d.extend_from_slice(&c[k - cap / 2..]);
            c = d;
        }
        if f.int == Some(true) { c.truncate(12); }
        let mut alts: Vec<Vec<Con>> = c.iter().map(|w| vec![Con::Is(s, w.clone())]).collect();
        alts.push(vec![Con::Not(s, c), Con::Taint("a spelling the analysis does not follow")]);
        Err(Box::new(Fork(alts, "spelling")))
    }
    /// The words for which something holds.
    pub fn spelled_for(&self, cx: &Cx, s: StrId, q: &Ask) -> Box<Fork> {
        let mut c: Vec<Rc<str>> = vec![];
        let add = |w: &str, c: &mut Vec<Rc<str>>, n: usize| if c.len() < n && q.holds(w) && self.could_be(cx, s, w) && !c.iter().any(|x| **x == *w) { c.push(w.into()); };
        for w in q.samples() { add(&w, &mut c, 18); }
        for w in &cx.words { add(w, &mut c, 22); }
        let mut alts: Vec<Vec<Con>> = c.iter().map(|w| vec![Con::Is(s, w.clone())]).collect();
        alts.push(vec![Con::Not(s, c), Con::Taint("a spelling the analysis does not follow")]);
        Box::new(Fork(alts, "spelling"))
    }
    /// The text of a string; None if it has parts that are not words.
    pub fn text(&self, cx: &Cx, p: &[Piece]) -> Dec<Option<String>> {
        let mut s = String::new();
        for x in p {
            match x {
                Piece::Lit(l) => s.push_str(l),
                Piece::Tok(t) => {
                    if self.taint.is_some() && self.sf(*t).lit.is_none() { return Ok(None); }
                    s.push_str(&self.spelled(cx, *t)?)
                }
                Piece::Int(l) => match l.is_const() { Some(c) => s.push_str(&c.to_string()), None => return Ok(None) },
                _ => return Ok(None),
            }
        }
        Ok(Some(s))
    }
}

/// What a pattern matches.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Pat { Set(Vec<char>), Str(String), Pred(&'static str) }
impl Pat {
    fn first(&self, s: &str) -> Option<(usize, usize)> {
        match self {
            Pat::Str(p) => s.find(p.as_str()).map(|i| (i, p.len())),
            _ => s.char_indices().find(|(_, c)| self.is(*c)).map(|(i, c)| (i, c.len_utf8())),
        }
    }
    fn last(&self, s: &str) -> Option<(usize, usize)> {
        match self {
            Pat::Str(p) => s.rfind(p.as_str()).map(|i| (i, p.len())),
            _ => s.char_indices().rev().find(|(_, c)| self.is(*c)).map(|(i, c)| (i, c.len_utf8())),
        }
    }
    fn is(&self, c: char) -> bool {
        match self {
            Pat::Set(v) => v.contains(&c), Pat::Str(_) => false,
            Pat::Pred(n) => match *n {
                "is_whitespace" => c.is_whitespace(), "is_numeric" => c.is_numeric(), "is_alphabetic" => c.is_alphabetic(), "is_alphanumeric" => c.is_alphanumeric(), "is_control" => c.is_control(), "is_uppercase" => c.is_uppercase(), "is_lowercase" => c.is_lowercase(), "is_ascii_uppercase" => c.is_ascii_uppercase(), "is_ascii_lowercase" => c.is_ascii_lowercase(), "is_ascii_whitespace" => c.is_ascii_whitespace(), "not_ascii" => !c.is_ascii(),
                _ => false,
            },
        }
    }
    fn starts(&self, s: &str) -> Option<usize> { match self { Pat::Str(p) => s.starts_with(p.as_str()).then_some(p.len()), _ => s.chars().next().filter(|c| self.is(*c)).map(|c| c.len_utf8()) } }
    fn ends(&self, s: &str) -> Option<usize> { match self { Pat::Str(p) => s.ends_with(p.as_str()).then_some(p.len()), _ => s.chars().next_back().filter(|c| self.is(*c)).map(|c| c.len_utf8()) } }
    fn split<'a>(&self, s: &'a str) -> Vec<&'a str> {
        match self { Pat::Str(p) => s.split(p.as_str()).collect(), _ => s.split(|c| self.is(c)).collect() }
    }
    fn splitn<'a>(&self, n: usize, s: &'a str) -> Vec<&'a str> {
        match self { Pat::Str(p) => s.splitn(n, p.as_str()).collect(), _ => s.splitn(n, |c| self.is(c)).collect() }
    }
    fn rsplitn<'a>(&self, n: usize, s: &'a str) -> Vec<&'a str> {
        match self { Pat::Str(p) => s.rsplitn(n, p.as_str()).collect(), _ => s.rsplitn(n, |c| self.is(c)).collect() }
    }
    /// Some of what it matches.
    fn samples(&self) -> Vec<String> {
        match self {
            Pat::Str(p) => vec![p.clone()],
            Pat::Set(v) => v.iter().take(6).map(|c| c.to_string()).collect(),
            Pat::Pred(_) => ['\n', 'a', 'A', '1', '\u{a0}', '\u{c}', '\u{e9}', '\u{c9}', '\u{665}', '\u{b}'].iter().filter(|c| self.is(**c)).map(|c| c.to_string()).collect(),
        }
    }
    /// Can a number be spelled with what it matches?
    fn in_number(&self, chars: &str) -> bool {
        match self {
            Pat::Str(p) => p.chars().all(|c| chars.contains(c)),
            Pat::Set(v) => v.iter().any(|c| chars.contains(*c)),
            Pat::Pred(_) => chars.chars().any(|c| self.is(c)),
        }
    }
}
/// A question about the spelling of a word.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ask { Has(Pat), Starts(Pat), Ends(Pat), /// the same but for the case of letters
    Ci(Rc<str>) }
impl Ask {
    pub fn holds(&self, s: &str) -> bool {
        match self { Ask::Has(p) => p.first(s).is_some(), Ask::Starts(p) => p.starts(s).is_some(), Ask::Ends(p) => p.ends(s).is_some(), Ask::Ci(l) => s.eq_ignore_ascii_case(l) }
    }
    /// Words for which it holds.
    pub fn samples(&self) -> Vec<String> {
        let mut out = vec![];
        match self {
            Ask::Has(p) | Ask::Starts(p) | Ask::Ends(p) => for x in p.samples() {
                for y in [x.clone(), format!("a{}b", x), format!("1{}5", x), format!("{}1", x), format!("1{}", x), format!("{}a", x), format!("a{}", x), format!("{}{}", x, x), format!("1.{}5", x), format!("{}1.5", x), format!("1.5{}", x), format!("{}{}1", x, x), format!("1{}{}", x, x), format!("{}-1", x), format!("{}+1", x)] { if self.holds(&y) && !out.contains(&y) { out.push(y); } }
            },
            Ask::Ci(l) => {
                let mut c = l.to_string();
                if !c.is_empty() && c.is_char_boundary(1) { let (a, b) = c.split_at(1); c = format!("{}{}", a.to_ascii_uppercase(), b.to_ascii_lowercase()); }
                for y in [l.to_string(), l.to_ascii_uppercase(), l.to_ascii_lowercase(), c] { if !out.contains(&y) { out.push(y); } }
            }
        }
        out
    }
}
impl SFact {
    /// The answer that the kind of word implies.
    pub fn answer(&self, q: &Ask) -> Option<bool> {
        let chars = if self.int == Some(true) { "0123456789+-" } else if self.flt == Some(true) { "0123456789+-.eEinfatyINFATY" } else { return None };
        match q {
            Ask::Starts(p) if self.int == Some(true) && self.neg.is_some() && *p == Pat::Set(vec!['-']) => self.neg,
            Ask::Has(p) | Ask::Starts(p) | Ask::Ends(p) => if p.in_number(chars) { None } else { Some(false) },
            Ask::Ci(l) => if l.chars().all(|c| chars.contains(c) || chars.contains(c.to_ascii_uppercase())) { None } else { Some(false) },
        }
    }
    pub fn spelling_ok(&self) -> bool { self.ask.iter().all(|(q, b)| self.answer(q).is_none_or(|x| x == *b)) }
}
fn pat(st: &State, cx: &Cx, v: &V) -> Dec<Option<Pat>> {
    if let V::Fn(c) = v {
        let p = cx.prog.callees[*c].path.rsplit("::").next().unwrap_or("").to_string();
        return Ok(["is_whitespace", "is_numeric", "is_alphabetic", "is_alphanumeric", "is_control", "is_uppercase", "is_lowercase"].into_iter().find(|x| *x == p).map(Pat::Pred));
    }
    Ok(match st.deref_all(cx, v)? {
        V::Int(l) => l.is_const().and_then(|c| char::from_u32(c as u32)).map(|c| Pat::Set(vec![c])),
        V::S(p) => st.text(cx, &p)?.map(|s| { let mut c = s.chars(); match (c.next(), c.next()) { (Some(x), None) => Pat::Set(vec![x]), _ => Pat::Str(s.clone()) } }),
        V::Seq(s) => {
            let mut out = vec![];
            for g in &s.segs { match g { Seg::El(x) => match st.deref_all(cx, x)? { V::Int(l) if l.is_const().is_some() => out.push(char::from_u32(l.c as u32).unwrap_or('\0')), _ => return Ok(None) }, _ => return Ok(None) } }
            Some(Pat::Set(out))
        }
        _ => None,
    })
}
/// The arguments with lists of one character replaced by that character.
pub fn as_chars(st: &State, cx: &Cx, a: &[V]) -> Dec<Option<Vec<V>>> {
    let mut out = None;
    for (k, v) in a.iter().enumerate().skip(1) {
        if matches!(v, V::Fn(_)) { continue; }
        if let V::Seq(s) = st.deref_all(cx, v)? { if let [Seg::El(x)] = &s.segs[..] { if let V::Int(l) = st.deref_all(cx, x)? { if l.is_const().is_some() { out.get_or_insert_with(|| a.to_vec())[k] = V::Int(l); } } } }
    }
    Ok(out)
}
fn strs(v: Vec<&str>) -> V {
    let n = v.len() as i128;
    V::agg(0, vec![V::seq(0, v.into_iter().map(|x| Seg::El(V::cref(V::lit(x)))).collect()), V::int(0), V::int(n)])
}
fn ints(v: Vec<i128>) -> V {
    let n = v.len() as i128;
    V::agg(0, vec![V::seq(0, v.into_iter().map(|x| Seg::El(V::int(x))).collect()), V::int(0), V::int(n)])
}
fn opt(v: Option<V>) -> V { match v { Some(v) => V::some(v), None => V::none() } }
fn r(s: &str) -> V { V::cref(V::lit(s)) }

/// Methods on a word that is not spelled out: the word has nothing of what the method looks for,
/// or else it is spelled.
fn word_method(st: &State, cx: &mut Cx, name: &str, t: StrId, a: &[V]) -> Dec<Option<V>> {
    let me = V::tok(t);
    let one = || V::agg(0, vec![V::seq(0, vec![Seg::El(V::cref(V::tok(t)))]), V::int(0), V::int(1)]);
    let k = if name.ends_with("splitn") { 2 } else { 1 };
    let ws = Pat::Pred("is_whitespace");
    let pt = match name {
        "contains" | "starts_with" | "ends_with" | "find" | "rfind" | "strip_prefix" | "strip_suffix" | "split_once" | "rsplit_once" | "split" | "rsplit" | "split_terminator" | "splitn" | "rsplitn" | "replace" | "replacen" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "trim_left_matches" | "trim_right_matches" =>
            match pat(st, cx, &a[k])? { Some(p) => p, None => return Ok(None) },
        "to_lowercase" => Pat::Pred("is_uppercase"), "to_ascii_lowercase" => Pat::Pred("is_ascii_uppercase"), "to_uppercase" => Pat::Pred("is_lowercase"), "to_ascii_uppercase" => Pat::Pred("is_ascii_lowercase"),
        "is_ascii" => Pat::Pred("not_ascii"), "lines" => Pat::Set(vec!['\n']), "split_ascii_whitespace" => Pat::Pred("is_ascii_whitespace"),
        _ => ws,
    };
    let spell = |q: Ask| -> Dec<Option<V>> {
        // it does: with the usual words that do
        if st.taint.is_none() { return Err(st.spelled_for(cx, t, &q)); }
        Ok(None)
    };
    let q = match name {
        "contains" => return Ok(Some(V::Bool(st.ask(t, Ask::Has(pt))?))),
        "starts_with" => return Ok(Some(V::Bool(st.ask(t, Ask::Starts(pt))?))),
        "ends_with" => return Ok(Some(V::Bool(st.ask(t, Ask::Ends(pt))?))),
        "is_ascii" => return Ok(Some(V::Bool(!st.ask(t, Ask::Has(pt))?))),
        "eq_ignore_ascii_case" => {
            let V::S(q) = st.deref_all(cx, &a[1])? else { return Ok(None) };
            return Ok(match str_lit(st, &q) { Some(l) => Some(V::Bool(st.ask(t, Ask::Ci(l.as_str().into()))?)), None => None });
        }
        "len" => return Ok(Some(V::Int(st.word_len(cx, t)?))),
        "strip_prefix" => Ask::Starts(pt), "strip_suffix" => Ask::Ends(pt),
        "trim" | "trim_matches" => { if st.ask(t, Ask::Starts(pt.clone()))? { return spell(Ask::Starts(pt)); } Ask::Ends(pt) }
        "trim_start" | "trim_left" | "trim_start_matches" | "trim_left_matches" => Ask::Starts(pt),
        "trim_end" | "trim_right" | "trim_end_matches" | "trim_right_matches" => Ask::Ends(pt),
        "split_whitespace" | "split_ascii_whitespace" | "lines" | "split_terminator" => { if st.is_empty_str(cx, t)? { return Ok(None); } Ask::Has(pt) }
        "find" | "rfind" | "split_once" | "rsplit_once" | "split" | "rsplit" | "splitn" | "rsplitn" | "replace" | "replacen" | "to_lowercase" | "to_ascii_lowercase" | "to_uppercase" | "to_ascii_uppercase" => Ask::Has(pt),
        _ => return Ok(None),
    };
    if st.ask(t, q.clone())? { return spell(q); }
    Ok(Some(match name {
        "strip_prefix" | "strip_suffix" | "find" | "rfind" | "split_once" | "rsplit_once" => V::none(),
        "replace" | "replacen" | "to_lowercase" | "to_ascii_lowercase" | "to_uppercase" | "to_ascii_uppercase" => me,
        "splitn" | "rsplitn" => match a[1].lin().and_then(|l| l.is_const()) { Some(0) | None => return Ok(None), _ => one() },
        "split" | "rsplit" | "split_terminator" | "split_whitespace" | "split_ascii_whitespace" | "lines" => one(),
        _ => V::cref(me),
    }))
}

/// `name` is the method; None if there is no model.
pub fn method(st: &State, cx: &mut Cx, name: &str, a: &[V]) -> Dec<Option<V>> {
    let V::S(p) = st.deref_all(cx, &a[0])? else { return Ok(None) };
    // a few questions that need no spelling
    if let [Piece::Tok(t)] = &p[..] {
        if st.sf(*t).lit.is_none() {
            let slash = a.get(1).is_some_and(|v| match v { V::Int(l) => l.is_const() == Some('/' as i128), V::CRef(x) => matches!(&**x, V::S(q) if str_lit(st, q).as_deref() == Some("/")), _ => false });
            let slash2 = name == "splitn" && a.get(2).is_some_and(|v| match v { V::Int(l) => l.is_const() == Some('/' as i128), V::CRef(x) => matches!(&**x, V::S(q) if str_lit(st, q).as_deref() == Some("/")), _ => false });
            if slash || slash2 {
                let join = |ps: &[StrId]| { let mut v = vec![]; for (i, x) in ps.iter().enumerate() { if i > 0 { v.push(Piece::Lit("/".into())); } v.push(Piece::Tok(*x)); } V::cref(V::S(Rc::new(v))) };
                match name {
                    "contains" | "split_once" | "rsplit_once" | "splitn" => {
                        let n = match (name, a.get(1).and_then(|x| x.lin()).and_then(|l| l.is_const())) { ("splitn", Some(n)) => n as usize, ("splitn", None) => return Ok(None), _ => 0 };
                        let ps = st.parts(cx, *t)?;
                        return Ok(Some(match name {
                            "contains" => V::Bool(ps.len() > 1),
                            "split_once" => opt((ps.len() > 1).then(|| V::agg(0, vec![join(&ps[..1]), join(&ps[1..])]))),
                            "rsplit_once" => opt((ps.len() > 1).then(|| V::agg(0, vec![join(&ps[..ps.len() - 1]), join(&ps[ps.len() - 1..])]))),
                            _ => {
                                let mut v: Vec<V> = vec![];
                                let k = ps.len();
                                for i in 0..k.min(n) { if i + 1 == n { v.push(join(&ps[i..])); } else { v.push(join(&ps[i..i + 1])); } }
                                let m = v.len() as i128;
                                V::agg(0, vec![V::seq(0, v.into_iter().map(Seg::El).collect()), V::int(0), V::int(m)])
                            }
                        }));
                    }
                    _ => {}
                }
            }
        }
    }
    if let [Piece::Sub(x, y)] = &p[..] { return text_method(st, cx, name, x, y, a); }
    if let [Piece::Name(0)] = &p[..] {
        // the whole text: what such a function takes away is the concern of the analysis of tokenization
        if matches!(name, "trim" | "trim_start" | "trim_end" | "trim_left" | "trim_right" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "trim_left_matches" | "trim_right_matches") { return Ok(Some(V::cref(V::S(p.clone())))); }
    }
    if let [Piece::Tok(t)] = &p[..] { if st.sf(*t).lit.is_none() { if let Some(v) = word_method(st, cx, name, *t, a)? { return Ok(Some(v)); } } }
    let Some(s) = st.text(cx, &p)? else { return Ok(None) };
    let s = s.as_str();
    macro_rules! pat { ($k:expr) => { match pat(st, cx, &a[$k])? { Some(p) => p, None => return Ok(None) } }; }
    macro_rules! int { ($k:expr) => { match a[$k].lin().and_then(|l| l.is_const()) { Some(n) => n, None => return Ok(None) } }; }
    Ok(Some(match name {
        "trim" => r(s.trim()), "trim_start" | "trim_left" => r(s.trim_start()), "trim_end" | "trim_right" => r(s.trim_end()),
        "to_lowercase" => V::lit(&s.to_lowercase()), "to_uppercase" => V::lit(&s.to_uppercase()), "to_ascii_lowercase" => V::lit(&s.to_ascii_lowercase()), "to_ascii_uppercase" => V::lit(&s.to_ascii_uppercase()),
        "len" => V::int(s.len() as i128), "is_ascii" => V::Bool(s.is_ascii()),
        "starts_with" => V::Bool(pat!(1).starts(s).is_some()), "ends_with" => V::Bool(pat!(1).ends(s).is_some()), "contains" => V::Bool(pat!(1).first(s).is_some()),
        "find" => opt(pat!(1).first(s).map(|x| V::int(x.0 as i128))), "rfind" => opt(pat!(1).last(s).map(|x| V::int(x.0 as i128))),
        "strip_prefix" => opt(pat!(1).starts(s).map(|n| r(&s[n..]))), "strip_suffix" => opt(pat!(1).ends(s).map(|n| r(&s[..s.len() - n]))),
        "split_once" => opt(pat!(1).first(s).map(|(i, n)| V::agg(0, vec![r(&s[..i]), r(&s[i + n..])]))),
        "rsplit_once" => opt(pat!(1).last(s).map(|(i, n)| V::agg(0, vec![r(&s[..i]), r(&s[i + n..])]))),
        "split" => strs(pat!(1).split(s)),
        "rsplit" => { let mut v = pat!(1).split(s); v.reverse(); strs(v) }
        "split_terminator" => { let mut v = pat!(1).split(s); if v.last() == Some(&"") { v.pop(); } strs(v) }
        "splitn" => { let n = int!(1); strs(pat!(2).splitn(n as usize, s)) }
        "rsplitn" => { let n = int!(1); strs(pat!(2).rsplitn(n as usize, s)) }
        "split_whitespace" => strs(s.split_whitespace().collect()), "split_ascii_whitespace" => strs(s.split_ascii_whitespace().collect()), "lines" => strs(s.lines().collect()),
        "split_inclusive" => { let p = pat!(1); let mut v = vec![]; let mut x = s; while let Some((i, n)) = p.first(x) { if n == 0 { return Ok(None); } v.push(&x[..i + n]); x = &x[i + n..]; } if !x.is_empty() { v.push(x); } strs(v) }
        "matches" => { let p = pat!(1); let mut v = vec![]; let mut x = s; while let Some((i, n)) = p.first(x) { if n == 0 { return Ok(None); } v.push(&x[i..i + n]); x = &x[i + n..]; } strs(v) }
        "split_at" => { let n = int!(1) as usize; if !s.is_char_boundary(n) { return Ok(None); } V::agg(0, vec![r(&s[..n]), r(&s[n..])]) }
        "chars" => ints(s.chars().map(|c| c as i128).collect()), "bytes" => ints(s.bytes().map(|c| c as i128).collect()),
        "char_indices" => {
            let v: Vec<Seg> = s.char_indices().map(|(i, c)| Seg::El(V::agg(0, vec![V::int(i as i128), V::int(c as i128)]))).collect();
            let n = v.len() as i128;
            V::agg(0, vec![V::seq(0, v), V::int(0), V::int(n)])
        }
        "eq_ignore_ascii_case" => { let V::S(q) = st.deref_all(cx, &a[1])? else { return Ok(None) }; let Some(q) = st.text(cx, &q)? else { return Ok(None) }; V::Bool(s.eq_ignore_ascii_case(&q)) }
        "is_char_boundary" => V::Bool(s.is_char_boundary(int!(1) as usize)),
        "trim_matches" | "trim_start_matches" | "trim_end_matches" | "trim_left_matches" | "trim_right_matches" => {
            let p = pat!(1);
            let mut x = s;
            if name != "trim_end_matches" && name != "trim_right_matches" { while let Some(n) = p.starts(x).filter(|n| *n > 0) { x = &x[n..]; } }
            if name != "trim_start_matches" && name != "trim_left_matches" { while let Some(n) = p.ends(x).filter(|n| *n > 0) { x = &x[..x.len() - n]; } }
            r(x)
        }
        "replace" | "replacen" => {
            let p = pat!(1);
            let V::S(q) = st.deref_all(cx, &a[2])? else { return Ok(None) };
            let Some(q) = st.text(cx, &q)? else { return Ok(None) };
            let n = if name == "replacen" { int!(3) as usize + 1 } else { usize::MAX };
            V::lit(&p.splitn(n, s).join(&q))
        }
        "repeat" => V::lit(&s.repeat((int!(1) as usize).min(1000))),
        "to_string" | "into_string" => V::lit(s),
        "as_bytes_seq" => V::seq(0, s.bytes().map(|b| Seg::El(V::int(b as i128))).collect()),
        _ => return Ok(None),
    }))
}

/// Methods of characters and bytes.
pub fn char_method(name: &str, c: i128, byte: bool, arg: Option<i128>) -> Option<V> {
    let ch = char::from_u32(c as u32)?;
    let asc = c < 128;
    Some(match name {
        "is_ascii_digit" => V::Bool(ch.is_ascii_digit()), "is_ascii_alphabetic" => V::Bool(ch.is_ascii_alphabetic()), "is_ascii_alphanumeric" => V::Bool(ch.is_ascii_alphanumeric()),
        "is_ascii_whitespace" => V::Bool(ch.is_ascii_whitespace()), "is_ascii_punctuation" => V::Bool(ch.is_ascii_punctuation()), "is_ascii_uppercase" => V::Bool(ch.is_ascii_uppercase()), "is_ascii_lowercase" => V::Bool(ch.is_ascii_lowercase()),
        "is_ascii_graphic" => V::Bool(ch.is_ascii_graphic()), "is_ascii_control" => V::Bool(ch.is_ascii_control()), "is_ascii_hexdigit" => V::Bool(ch.is_ascii_hexdigit()), "is_ascii" => V::Bool(asc),
        "to_ascii_lowercase" => V::int(if asc { ch.to_ascii_lowercase() as i128 } else { c }), "to_ascii_uppercase" => V::int(if asc { ch.to_ascii_uppercase() as i128 } else { c }),
        "is_whitespace" if !byte => V::Bool(ch.is_whitespace()), "is_numeric" if !byte => V::Bool(ch.is_numeric()), "is_alphabetic" if !byte => V::Bool(ch.is_alphabetic()), "is_alphanumeric" if !byte => V::Bool(ch.is_alphanumeric()),
        "is_control" if !byte => V::Bool(ch.is_control()), "is_uppercase" if !byte => V::Bool(ch.is_uppercase()), "is_lowercase" if !byte => V::Bool(ch.is_lowercase()), "len_utf8" if !byte => V::int(ch.len_utf8() as i128),
        "eq_ignore_ascii_case" => { let o = arg?; let low = |c: i128| if (65..91).contains(&c) { c + 32 } else { c }; V::Bool(low(c) == low(o)) }
        "from_u32" if !byte => opt(Some(V::int(c))), "from_digit" if !byte => opt(char::from_digit(c as u32, arg? as u32).map(|d| V::int(d as i128))),
        "to_digit" if !byte => opt(ch.to_digit(arg? as u32).map(|d| V::int(d as i128))), "is_digit" if !byte => V::Bool(ch.is_digit(arg? as u32)),
        _ => return None,
    })
}

impl Pat {
    /// The spellings, in bytes, of what the pattern matches.
    fn spellings(&self) -> Option<Vec<Vec<u8>>> {
        Some(match self {
            Pat::Str(s) => vec![s.as_bytes().to_vec()],
            Pat::Set(v) => v.iter().map(|c| c.to_string().into_bytes()).collect(),
            Pat::Pred(_) => { let v: Vec<Vec<u8>> = ('\0'..=char::MAX).filter(|c| self.is(*c)).take(64).map(|c| c.to_string().into_bytes()).collect(); if v.len() == 64 { return None; } v }
        })
    }
}
/// Which of the spellings stands at the start (or the end) of a part of the text?
fn spelled_at(st: &State, cx: &Cx, x: &Lin, y: &Lin, sp: &[Vec<u8>], end: bool) -> Dec<Option<usize>> {
    'next: for (k, w) in sp.iter().enumerate() {
        for i in 0..w.len() {
            let j = if end { w.len() - 1 - i } else { i };
            let at = if end { y.addk(-(i as i128) - 1) } else { x.addk(i as i128) };
            let inside = if end { st.ge0(cx, &at.sub(x))? } else { st.ge0(cx, &y.sub(&at).addk(-1))? };
            if !inside { continue 'next; }
            let b = st.byte_at(cx, &at)?;
            if !st.eq0(cx, &b.addk(-(w[j] as i128)))? { continue 'next; }
        }
        return Ok(Some(k));
    }
    Ok(None)
}
/// Methods on a part of the text.
fn text_method(st: &State, cx: &Cx, name: &str, x: &Lin, y: &Lin, a: &[V]) -> Dec<Option<V>> {
    let sub = |x: &Lin, y: &Lin| V::cref(V::S(Rc::new(vec![Piece::Sub(x.clone(), y.clone())])));
    let p = match name {
        "trim" | "trim_start" | "trim_end" | "trim_left" | "trim_right" => Pat::Pred("is_whitespace"),
        "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "trim_left_matches" | "trim_right_matches" => match pat(st, cx, &a[1])? { Some(p) => p, None => return Ok(None) },
        "bytes" => return Ok(Some(V::agg(0, vec![V::Seq(Rc::new(State::sub_seq(x, y))), V::int(0), V::Int(y.sub(x))]))),
        "len" => return Ok(Some(V::Int(y.sub(x)))),
        _ => return Ok(None),
    };
    let Some(sp) = p.spellings() else { return Ok(None) };
    let (mut x, mut y) = (x.clone(), y.clone());
    Ok(Some(match name {
        "starts_with" => V::Bool(spelled_at(st, cx, &x, &y, &sp, false)?.is_some()),
        "ends_with" => V::Bool(spelled_at(st, cx, &x, &y, &sp, true)?.is_some()),
        "strip_prefix" => opt(spelled_at(st, cx, &x, &y, &sp, false)?.map(|k| sub(&x.addk(sp[k].len() as i128), &y))),
        "strip_suffix" => opt(spelled_at(st, cx, &x, &y, &sp, true)?.map(|k| sub(&x, &y.addk(-(sp[k].len() as i128))))),
        _ => {
            if sp.iter().any(|w| w.is_empty()) { return Ok(None); }
            let (s, e) = (!name.contains("_end") && !name.contains("_right"), !name.contains("_start") && !name.contains("_left"));
            for _ in 0..200 {
                if !s { break; }
                match spelled_at(st, cx, &x, &y, &sp, false)? { Some(k) => x = x.addk(sp[k].len() as i128), None => break }
            }
            for _ in 0..200 {
                if !e { break; }
                match spelled_at(st, cx, &x, &y, &sp, true)? { Some(k) => y = y.addk(-(sp[k].len() as i128)), None => break }
            }
            sub(&x, &y)
        }
    }))
}
