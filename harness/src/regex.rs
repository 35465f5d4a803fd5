//! C13: regular expressions, against an independent parser and automaton.
use crate::rt::Ctx;
use btree_range_map::RangeSet;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use tl::abs::RegExp;
use tl::utils::DetAutomaton;
use treeldr_layouts as tl;

// ------------------------------------------------------------ reference

#[derive(Clone, Debug)]
pub enum Rx {
    /// union of ranges, possibly complemented
    Set(Vec<(char, char)>, bool),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    /// `None`: unbounded
    Rep(Box<Rx>, u32, Option<u32>),
}

pub enum P {
    Ok(Rx),
    /// accepted with that meaning, or rejected
    Maybe(Rx),
    /// not specified, must not crash
    Open,
    Bad,
}

fn escape(c: char) -> char {
    match c {
        '0' => '\0',
        'a' => '\x07',
        'b' => '\x08',
        't' => '\t',
        'n' => '\n',
        'v' => '\x0b',
        'f' => '\x0c',
        'r' => '\r',
        'e' => '\x1b',
        c => c,
    }
}

struct Parser<'a> {
    s: &'a [char],
    i: usize,
    maybe: bool,
    open: bool,
}

struct Malformed;

impl Parser<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += 1;
        c
    }
    fn alt(&mut self) -> Result<Rx, Malformed> {
        let mut alts = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            alts.push(self.cat()?);
        }
        Ok(Rx::Alt(alts))
    }
    fn cat(&mut self) -> Result<Rx, Malformed> {
        let mut items: Vec<Rx> = vec![];
        loop {
            match self.peek() {
                None | Some('|') | Some(')') => return Ok(Rx::Cat(items)),
                Some(c @ ('*' | '+' | '?')) => {
                    self.i += 1;
                    let e = items.pop().unwrap_or_else(|| {
                        self.maybe = true;
                        Rx::Cat(vec![])
                    });
                    items.push(match c {
                        '*' => Rx::Rep(Box::new(e), 0, None),
                        '+' => Rx::Rep(Box::new(e), 1, None),
                        _ => Rx::Rep(Box::new(e), 0, Some(1)),
                    });
                }
                Some('{') => {
                    self.i += 1;
                    let end = self.s[self.i..].iter().position(|c| *c == '}');
                    let Some(end) = end else {
                        self.open = true;
                        return Err(Malformed);
                    };
                    let body: String = self.s[self.i..self.i + end].iter().collect();
                    self.i += end + 1;
                    let num = |s: &str| {
                        if s.is_empty() || s.len() > 3 || s.chars().any(|c| !c.is_ascii_digit()) {
                            None
                        } else {
                            s.parse::<u32>().ok()
                        }
                    };
                    let bounds = match body.split_once(',') {
                        None => num(&body).map(|n| (n, Some(n))),
                        Some((a, "")) => num(a).map(|n| (n, None)),
                        Some(("", b)) => num(b).map(|n| (0, Some(n))),
                        Some((a, b)) => num(a).zip(num(b)).map(|(a, b)| (a, Some(b))),
                    };
                    match bounds {
                        Some((a, b)) if b.map(|b| a <= b).unwrap_or(true) && !items.is_empty() => {
                            let e = items.pop().unwrap();
                            items.push(Rx::Rep(Box::new(e), a, b));
                        }
                        _ => {
                            self.open = true;
                            return Err(Malformed);
                        }
                    }
                }
                Some('}') => {
                    self.i += 1;
                    self.maybe = true;
                    items.push(Rx::Set(vec![('}', '}')], false));
                }
                Some('(') => {
                    self.i += 1;
                    let e = self.alt()?;
                    if self.next() != Some(')') {
                        return Err(Malformed);
                    }
                    items.push(e);
                }
                Some('[') => {
                    self.i += 1;
                    items.push(self.set()?);
                }
                Some('.') => {
                    self.i += 1;
                    items.push(Rx::Set(vec![], true));
                }
                Some('\\') => {
                    self.i += 1;
                    let c = escape(self.next().ok_or(Malformed)?);
                    items.push(Rx::Set(vec![(c, c)], false));
                }
                Some(c) => {
                    self.i += 1;
                    items.push(Rx::Set(vec![(c, c)], false));
                }
            }
        }
    }
    fn set(&mut self) -> Result<Rx, Malformed> {
        let negate = self.peek() == Some('^');
        if negate {
            self.i += 1;
        }
        let mut ranges = vec![];
        loop {
            let c = match self.next().ok_or(Malformed)? {
                ']' => return Ok(Rx::Set(ranges, negate)),
                '\\' => escape(self.next().ok_or(Malformed)?),
                c => c,
            };
            if self.peek() == Some('-') {
                self.i += 1;
                let d = match self.next().ok_or(Malformed)? {
                    ']' => {
                        // a dash before the closing bracket
                        self.open = true;
                        return Err(Malformed);
                    }
                    '\\' => escape(self.next().ok_or(Malformed)?),
                    d => d,
                };
                if d < c {
                    self.open = true;
                }
                ranges.push((c, d));
            } else {
                ranges.push((c, c));
            }
        }
    }
}

pub fn parse(s: &str) -> P {
    let chars: Vec<char> = s.chars().collect();
    let mut p = Parser { s: &chars, i: 0, maybe: false, open: false };
    let r = p.alt();
    if p.open {
        return P::Open;
    }
    match r {
        Ok(e) if p.i == chars.len() => {
            if p.maybe {
                P::Maybe(e)
            } else {
                P::Ok(e)
            }
        }
        _ => P::Bad,
    }
}

/// Non-deterministic automaton with epsilon moves.
#[derive(Default)]
pub struct Nfa {
    eps: Vec<Vec<usize>>,
    sym: Vec<Option<(Vec<(char, char)>, bool, usize)>>,
}

impl Nfa {
    fn state(&mut self) -> usize {
        self.eps.push(vec![]);
        self.sym.push(None);
        self.eps.len() - 1
    }
    /// State from which `e` then `k` is read.
    fn add(&mut self, e: &Rx, k: usize) -> usize {
        match e {
            Rx::Set(r, n) => {
                let q = self.state();
                self.sym[q] = Some((r.clone(), *n, k));
                q
            }
            Rx::Cat(es) => es.iter().rev().fold(k, |k, e| self.add(e, k)),
            Rx::Alt(es) => {
                let q = self.state();
                for e in es {
                    let s = self.add(e, k);
                    self.eps[q].push(s);
                }
                q
            }
            Rx::Rep(e, min, max) => {
                let mut k = match max {
                    None => {
                        let l = self.state();
                        let s = self.add(e, l);
                        self.eps[l].push(s);
                        self.eps[l].push(k);
                        l
                    }
                    Some(m) => {
                        let end = k;
                        let mut k = k;
                        for _ in *min..*m {
                            let q = self.state();
                            let s = self.add(e, k);
                            self.eps[q].push(s);
                            self.eps[q].push(end);
                            k = q;
                        }
                        k
                    }
                };
                for _ in 0..*min {
                    k = self.add(e, k);
                }
                k
            }
        }
    }
    fn close(&self, qs: impl IntoIterator<Item = usize>) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<usize> = qs.into_iter().collect();
        while let Some(q) = todo.pop() {
            if out.insert(q) {
                todo.extend(&self.eps[q]);
            }
        }
        out
    }
    fn step(&self, qs: &BTreeSet<usize>, c: char) -> BTreeSet<usize> {
        self.close(qs.iter().filter_map(|q| match &self.sym[*q] {
            Some((r, n, t)) if r.iter().any(|(a, b)| *a <= c && c <= *b) != *n => Some(*t),
            _ => None,
        }))
    }
}

fn bounds(e: &Rx, out: &mut BTreeSet<char>) {
    match e {
        Rx::Set(r, _) => out.extend(r.iter().flat_map(|(a, b)| [*a, *b])),
        Rx::Cat(es) | Rx::Alt(es) => es.iter().for_each(|e| bounds(e, out)),
        Rx::Rep(e, _, _) => bounds(e, out),
    }
}

fn around(c: char, out: &mut BTreeSet<char>) {
    out.insert(c);
    for d in [(c as u32).wrapping_sub(1), c as u32 + 1] {
        if let Some(d) = char::from_u32(d) {
            out.insert(d);
        }
    }
}

/// Transition of the compiled automaton; `Err` if not deterministic.
fn det_step(d: &DetAutomaton<usize>, q: usize, c: char) -> Result<Option<usize>, String> {
    let mut found: Option<usize> = None;
    for (r, t) in d.transitions_from(&q) {
        let inside = match (r.first(), r.last()) {
            (Some(a), Some(b)) => a <= c && c <= b,
            _ => false,
        };
        if inside {
            if found.is_some() {
                return Err(format!("two transitions from {q} by {c:?}"));
            }
            found = Some(*t);
        }
    }
    Ok(found)
}

/// Exact comparison of the language of the automaton and of the expression:
/// explores all reachable pairs of states over representatives of every class
/// of characters either side distinguishes.
pub fn compare(d: &DetAutomaton<usize>, e: &Rx, mut visit: impl FnMut()) -> Result<(), String> {
    let mut n = Nfa::default();
    let end = n.state();
    let start = n.add(e, end);
    let mut raw = BTreeSet::new();
    bounds(e, &mut raw);
    for m in d.transitions().values() {
        for r in m.keys() {
            raw.extend(r.first());
            raw.extend(r.last());
        }
    }
    let mut reps = BTreeSet::from(['\0', '\u{d7ff}', '\u{e000}', '\u{10ffff}', 'a', 'm']);
    for c in raw {
        around(c, &mut reps);
    }
    let mut seen: BTreeMap<(Option<usize>, BTreeSet<usize>), String> = BTreeMap::new();
    let first = (Some(*d.initial_state()), n.close([start]));
    seen.insert(first.clone(), String::new());
    let mut todo = vec![first];
    while let Some((q, s)) = todo.pop() {
        visit();
        let w = seen[&(q, s.clone())].clone();
        let real = q.is_some_and(|q| d.is_final_state(&q));
        if real != s.contains(&end) {
            return Err(format!("{w:?} is {}", if real { "accepted" } else { "not accepted" }));
        }
        for c in &reps {
            let next = (q.map(|q| det_step(d, q, *c)).transpose()?.flatten(), n.step(&s, *c));
            if next.0.is_none() && next.1.is_empty() {
                continue;
            }
            if !seen.contains_key(&next) {
                seen.insert(next.clone(), format!("{w}{c}"));
                todo.push(next);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ checks

/// Everything that is claimed of an expression whose language is that of `e`.
fn check_expr(ctx: &Ctx, key: &str, r: &RegExp, e: &Rx) {
    let say = |what: &str, why: String| {
        ctx.violate(key, what, json!({"expression": format!("{r:?}"), "reference": format!("{e:?}"), "why": why}))
    };
    let lang = |what: &str, f: &dyn Fn() -> Result<DetAutomaton<usize>, String>| match ctx.guarded(f) {
        Err(p) => say(what, format!("crash: {p}")),
        Ok(Err(w)) => say(what, w),
        Ok(Ok(d)) => {
            if let Err(w) = compare(&d, e, || ctx.state()) {
                say(what, w)
            }
        }
    };
    ctx.trace();
    lang("the automaton does not accept the language of the expression", &|| Ok(r.build()));
    lang("the printed expression does not denote the same language", &|| {
        let t = r.to_string();
        RegExp::parse(&t).map(|p| p.build()).map_err(|err| format!("{t}: {err}"))
    });
    lang("the serialized expression does not denote the same language", &|| {
        let t = serde_json::to_value(r).map_err(|e| e.to_string())?;
        serde_json::from_value::<RegExp>(t).map(|p| p.build()).map_err(|e| e.to_string())
    });
    lang("the simplified expression does not denote the same language", &|| Ok(r.clone().simplified().build()));
    match ctx.guarded(|| r.as_singleton()) {
        Err(p) => say("as_singleton crashes", p),
        Ok(None) => (),
        Ok(Some(s)) => {
            ctx.count("singletons", 1);
            let single = Rx::Cat(s.chars().map(|c| Rx::Set(vec![(c, c)], false)).collect());
            match ctx.guarded(|| RegExp::from(s.as_str()).build()) {
                Err(p) => say("a plain string crashes", p),
                Ok(d) => {
                    if let Err(w) = compare(&d, &single, || ctx.state()) {
                        say("a plain string does not denote itself", w)
                    } else if let Err(w) = compare(&d, e, || ctx.state()) {
                        say(&format!("reported to denote only {s:?}"), w)
                    }
                }
            }
        }
    }
}

fn check_text(ctx: &Ctx, s: &str) {
    let key = format!("text|{s}");
    if !ctx.begin(&key) {
        return;
    }
    let m = parse(s);
    let r = match ctx.guarded(|| RegExp::parse(s)) {
        Err(p) => {
            ctx.violate(&key, "parsing crashes", json!({"text": s, "why": p}));
            return;
        }
        Ok(r) => r,
    };
    match (r, m) {
        (Err(_), P::Bad) => {
            ctx.trace();
            ctx.count("malformed", 1)
        }
        (Ok(r), P::Bad) => ctx.violate(&key, "a malformed expression is accepted", json!({"text": s, "as": format!("{r:?}")})),
        (Err(e), P::Ok(_)) => ctx.violate(&key, "a well-formed expression is rejected", json!({"text": s, "why": e.to_string()})),
        (Err(_), P::Maybe(_) | P::Open) => ctx.count("unspecified", 1),
        (Ok(r), P::Open) => {
            ctx.count("unspecified", 1);
            if let Err(p) = ctx.guarded(|| (r.build(), r.to_string(), r.as_singleton())) {
                ctx.violate(&key, "an accepted expression crashes", json!({"text": s, "why": p}))
            }
        }
        (Ok(r), P::Ok(e) | P::Maybe(e)) => {
            ctx.count("well-formed", 1);
            check_expr(ctx, &key, &r, &e);
        }
    }
}

fn texts(alphabet: &[&str], len: usize, f: &mut impl FnMut(&str)) {
    fn go(alphabet: &[&str], left: usize, s: &mut String, f: &mut impl FnMut(&str)) {
        f(s);
        if left == 0 {
            return;
        }
        for a in alphabet {
            let n = s.len();
            s.push_str(a);
            go(alphabet, left - 1, s, f);
            s.truncate(n);
        }
    }
    go(alphabet, len, &mut String::new(), f)
}

/// Expressions built from the constructors, with their meaning.
fn trees(depth: usize, wide: bool) -> Vec<(RegExp, Rx)> {
    let set = |rs: &[(char, char)]| {
        let mut s = RangeSet::new();
        for (a, b) in rs {
            s.insert(*a..=*b);
        }
        (RegExp::Set(s), Rx::Set(rs.to_vec(), false))
    };
    let mut base = vec![
        (RegExp::Any, Rx::Set(vec![], true)),
        set(&[]),
        set(&[('a', 'a')]),
        (RegExp::Sequence(vec![]), Rx::Cat(vec![])),
        set(&[('b', 'd'), ('f', 'g')]),
    ];
    if wide {
        base.extend([
            set(&[('.', '.')]),
            set(&[('\0', '\u{d7ff}'), ('\u{e000}', '\u{10ffff}')]),
            set(&[('\0', '`'), ('b', '\u{d7ff}'), ('\u{e000}', '\u{10ffff}')]),
            set(&[('-', '-'), ('[', '^')]),
            set(&[('\u{d7ff}', '\u{e000}')]),
            set(&[('{', '}')]),
            set(&[('*', '?')]),
        ]);
    }
    if depth == 0 {
        return base;
    }
    let sub = trees(depth - 1, wide && depth == 1);
    let mut out = base;
    for (r, e) in &sub {
        for (min, max) in [(0, Some(0)), (0, Some(1)), (0, None), (1, None), (1, Some(1)), (2, Some(2)), (0, Some(2)), (1, Some(3)), (2, None)] {
            out.push((
                RegExp::Repeat(Box::new(r.clone()), min, max.unwrap_or(u32::MAX)),
                Rx::Rep(Box::new(e.clone()), min, max),
            ));
        }
        out.push((RegExp::Sequence(vec![r.clone()]), e.clone()));
        out.push((RegExp::Union(vec![r.clone()]), e.clone()));
    }
    let small: Vec<_> = if depth == 1 { sub.clone() } else { trees(depth - 1, false).into_iter().take(60).collect() };
    for (r, e) in &small {
        for (s, f) in &small {
            out.push((RegExp::Sequence(vec![r.clone(), s.clone()]), Rx::Cat(vec![e.clone(), f.clone()])));
            out.push((RegExp::Union(vec![r.clone(), s.clone()]), Rx::Alt(vec![e.clone(), f.clone()])));
        }
    }
    out
}

pub fn c13(ctx: &Ctx) {
    // every text over the syntax characters
    let alphabets: Vec<(Vec<&str>, usize)> = vec![
        (vec!["a", "b", ".", "|", "*", "+", "?", "(", ")", "[", "]", "^", "-", "\\"], ctx.bound(5, 6)),
        (vec!["a", "c", "b", "[", "]", "^", "-", "\\"], ctx.bound(6, 7)),
        (vec!["a", "b", "(", ")", "|", "*", "?"], ctx.bound(7, 8)),
        (vec!["a", "{", "}", "1", "2", ",", "(", ")", "|", "\\"], ctx.bound(6, 7)),
        (vec!["a", "\\", "0", "n", "t", "r", "f", "v", "e", "é", "\u{d7ff}", "\u{e000}", "\u{10ffff}", "\n", "[", "]", "-", "^"], ctx.bound(4, 5)),
    ];
    for (alphabet, len) in &alphabets {
        let mut starts = vec![];
        for a in alphabet {
            for b in alphabet {
                starts.push(format!("{a}{b}"));
            }
        }
        check_text(ctx, "");
        for a in alphabet {
            check_text(ctx, a);
        }
        ctx.par(&starts, |_, s| {
            texts(alphabet, len - 2, &mut |t| {
                if !ctx.saturated() {
                    check_text(ctx, &format!("{s}{t}"))
                }
            })
        });
    }
    // every expression built from the constructors
    let ts = trees(2, !ctx.quick());
    ctx.par(&ts, |i, (r, e)| {
        let key = format!("tree|{i}");
        if ctx.begin(&key) {
            check_expr(ctx, &key, r, e)
        }
    });
    let ps = trees(1, true);
    ctx.par(&ps, |i, (r, e)| {
        for (j, (s, f)) in ps.iter().enumerate() {
            let key = format!("push|{i}|{j}");
            if ctx.begin(&key) {
                let mut p = r.clone();
                p.push(s.clone());
                check_expr(ctx, &key, &p, &Rx::Cat(vec![e.clone(), f.clone()]));
            }
        }
    });
}
