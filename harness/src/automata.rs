//! C14: operations on automata, over all automata of a few states.
use crate::rt::Ctx;
use btree_range_map::{AnyRange, RangeSet};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use tl::utils::{Automaton, DetAutomaton};
use treeldr_layouts as tl;

type Word = Vec<char>;

/// Acceptor explored symbolically: sets of states over a finite alphabet.
#[derive(Clone, Debug, Default)]
struct M {
    init: BTreeSet<usize>,
    fin: BTreeSet<usize>,
    /// `None`: epsilon
    tr: BTreeMap<usize, Vec<(Option<BTreeSet<char>>, usize)>>,
}

impl M {
    fn close(&self, qs: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<usize> = qs.into_iter().collect();
        while let Some(q) = todo.pop() {
            if out.insert(q) {
                for (l, t) in self.tr.get(&q).into_iter().flatten() {
                    if l.is_none() {
                        todo.push(*t);
                    }
                }
            }
        }
        out
    }
    fn start(&self) -> BTreeSet<usize> {
        self.close(self.init.clone())
    }
    fn step(&self, qs: &BTreeSet<usize>, c: char) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for q in qs {
            for (l, t) in self.tr.get(q).into_iter().flatten() {
                if l.as_ref().is_some_and(|l| l.contains(&c)) {
                    out.insert(*t);
                }
            }
        }
        self.close(out)
    }
    fn accepts(&self, qs: &BTreeSet<usize>) -> bool {
        qs.iter().any(|q| self.fin.contains(q))
    }
}

/// Exact language comparison: `expected` combines the acceptance of `ms`.
fn same(ctx: &Ctx, real: &M, ms: &[&M], expected: impl Fn(&[bool]) -> bool, alphabet: &[char]) -> Result<(), String> {
    let start = (real.start(), ms.iter().map(|m| m.start()).collect::<Vec<_>>());
    let mut seen = BTreeMap::from([(start.clone(), Word::new())]);
    let mut todo = vec![start];
    while let Some(s) = todo.pop() {
        ctx.state();
        let w = seen[&s].clone();
        let acc: Vec<bool> = ms.iter().zip(&s.1).map(|(m, q)| m.accepts(q)).collect();
        if real.accepts(&s.0) != expected(&acc) {
            return Err(format!("the word {w:?} is {}accepted", if real.accepts(&s.0) { "" } else { "not " }));
        }
        for c in alphabet {
            let n = (real.step(&s.0, *c), ms.iter().zip(&s.1).map(|(m, q)| m.step(q, *c)).collect::<Vec<_>>());
            if !seen.contains_key(&n) {
                let mut w = w.clone();
                w.push(*c);
                seen.insert(n.clone(), w);
                todo.push(n);
            }
        }
    }
    Ok(())
}

const ABC: [char; 4] = ['a', 'b', 'c', 'z'];

fn range_chars(r: &AnyRange<char>) -> BTreeSet<char> {
    match (r.first(), r.last()) {
        (Some(a), Some(b)) => ABC.into_iter().filter(|c| a <= *c && *c <= b).collect(),
        _ => BTreeSet::new(),
    }
}

fn of_det<Q: Ord + Clone, L: Ord>(d: &DetAutomaton<Q, L>, label: impl Fn(&L) -> BTreeSet<char>) -> M {
    let mut ids: BTreeMap<Q, usize> = BTreeMap::new();
    let mut id = |q: &Q| {
        let n = ids.len();
        *ids.entry(q.clone()).or_insert(n)
    };
    let mut m = M::default();
    m.init.insert(id(d.initial_state()));
    for q in d.final_states() {
        m.fin.insert(id(q));
    }
    for (q, ts) in d.transitions() {
        let q = id(q);
        for (l, t) in ts {
            let t = id(t);
            m.tr.entry(q).or_default().push((Some(label(l)), t));
        }
    }
    m
}

fn of_nd<Q: Ord + Clone>(d: &Automaton<Q>, all: &BTreeSet<Q>) -> M {
    let mut ids: BTreeMap<Q, usize> = BTreeMap::new();
    let mut id = |q: &Q| {
        let n = ids.len();
        *ids.entry(q.clone()).or_insert(n)
    };
    let mut m = M::default();
    for (q, ts) in d.transitions() {
        let qi = id(q);
        for (l, targets) in ts {
            for t in targets {
                let ti = id(t);
                let l = l.as_ref().map(|l| l.iter().flat_map(range_chars).collect());
                m.tr.entry(qi).or_default().push((l, ti));
            }
        }
    }
    for q in all {
        if d.is_initial_state(q) {
            m.init.insert(id(q));
        }
        if d.is_final_state(q) {
            m.fin.insert(id(q));
        }
    }
    m
}

fn deterministic(m: &M) -> Result<(), String> {
    if m.init.len() != 1 {
        return Err("not a single initial state".into());
    }
    for (q, ts) in &m.tr {
        for c in ABC {
            if ts.iter().filter(|(l, _)| l.as_ref().is_none_or(|l| l.contains(&c))).count() > 1 {
                return Err(format!("state {q} has two transitions by {c}"));
            }
        }
    }
    Ok(())
}

fn set(s: &str) -> RangeSet<char> {
    let mut r = RangeSet::new();
    for c in s.chars() {
        r.insert(c);
    }
    r
}

/// Non-deterministic automata: `n` states, transitions over `labels`.
fn nds(n: usize, labels: &[Option<&str>]) -> usize {
    1 << (n * n * labels.len())
}

fn nd(n: usize, labels: &[Option<&str>], code: usize, init: usize, fin: usize) -> (Automaton<usize>, M) {
    let mut a = Automaton::new();
    let mut m = M::default();
    let mut bit = 0;
    for q in 0..n {
        for t in 0..n {
            for l in labels {
                if code >> bit & 1 == 1 {
                    a.add(q, l.map(set), t);
                    m.tr.entry(q).or_default().push((l.map(|l| l.chars().collect()), t));
                }
                bit += 1;
            }
        }
    }
    for q in 0..n {
        if init >> q & 1 == 1 {
            a.add_initial_state(q);
            m.init.insert(q);
        }
        if fin >> q & 1 == 1 {
            a.add_final_state(q);
            m.fin.insert(q);
        }
    }
    (a, m)
}

fn fail(ctx: &Ctx, key: &str, what: &str, input: &M, why: String) {
    ctx.violate(key, what, json!({"automaton": format!("{input:?}"), "why": why}))
}

fn determinize(ctx: &Ctx, group: &str, n: usize, labels: &[Option<&str>]) {
    let codes: Vec<usize> = (0..nds(n, labels)).collect();
    ctx.par(&codes, |_, code| {
        for init in 0..1 << n {
            for fin in 0..1 << n {
                let key = format!("{group}|{code}|{init}|{fin}");
                if !ctx.begin(&key) {
                    continue;
                }
                let (a, m) = nd(n, labels, *code, init, fin);
                ctx.trace();
                match ctx.guarded(|| of_det(&a.determinize(), range_chars)) {
                    Err(p) => fail(ctx, &key, "determinisation crashes", &m, p),
                    Ok(d) => {
                        if let Err(w) = deterministic(&d).and_then(|_| same(ctx, &d, &[&m], |a| a[0], &ABC)) {
                            fail(ctx, &key, "determinisation changes the language", &m, w)
                        }
                    }
                }
            }
        }
    });
}

/// All pairs of automata with these sets of initial states, and of final states.
fn nd_product(ctx: &Ctx, group: &str, n: usize, labels: &[Option<&str>], inits: std::ops::Range<usize>, fins: usize) {
    let mut all = vec![];
    for code in 0..nds(n, labels) {
        for init in inits.clone() {
            for fin in fins..1 << n {
                all.push((code, init, fin));
            }
        }
    }
    ctx.par(&all, |i, &(c, x, y)| {
        let (a, ma) = nd(n, labels, c, x, y);
        for (j, &(d, z, t)) in all.iter().enumerate() {
            let key = format!("{group}|{i}|{j}");
            if ctx.saturated() || !ctx.begin(&key) {
                continue;
            }
            let (b, mb) = nd(n, labels, d, z, t);
            let states: BTreeSet<(usize, usize)> = (0..n).flat_map(|p| (0..n).map(move |q| (p, q))).collect();
            ctx.trace();
            match ctx.guarded(|| of_nd(&a.product(&b, |p, q| (*p, *q)), &states)) {
                Err(p) => fail(ctx, &key, "the product crashes", &ma, p),
                Ok(r) => {
                    if let Err(w) = same(ctx, &r, &[&ma, &mb], |a| a[0] && a[1], &ABC) {
                        fail(ctx, &key, "the product does not accept the intersection", &ma, format!("{w}, with {mb:?}"))
                    }
                }
            }
        }
    });
}

/// Deterministic automata over `n` states and `k` letters, partial.
fn det(n: usize, letters: &[char], mut code: usize, fin: usize) -> (DetAutomaton<usize, char>, M) {
    let mut d = DetAutomaton::new(0);
    let mut m = M { init: [0].into(), ..M::default() };
    for q in 0..n {
        for l in letters {
            let t = code % (n + 1);
            code /= n + 1;
            if t < n {
                d.add(q, *l, t);
                m.tr.entry(q).or_default().push((Some([*l].into()), t));
            }
        }
    }
    for q in 0..n {
        if fin >> q & 1 == 1 {
            d.add_final_state(q);
            m.fin.insert(q);
        }
    }
    (d, m)
}

fn one(c: &char) -> BTreeSet<char> {
    [*c].into()
}

/// Do states `p` and `q` of a deterministic acceptor read and accept the same
/// words?
fn equivalent(m: &M, p: usize, q: usize) -> bool {
    let (mut a, mut b) = (m.clone(), m.clone());
    a.init = [p].into();
    b.init = [q].into();
    let mut seen = BTreeSet::new();
    let mut todo = vec![(a.start(), b.start())];
    while let Some(s) = todo.pop() {
        if !seen.insert(s.clone()) {
            continue;
        }
        if a.accepts(&s.0) != b.accepts(&s.1) || s.0.is_empty() != s.1.is_empty() {
            return false;
        }
        for c in ABC {
            todo.push((a.step(&s.0, c), b.step(&s.1, c)));
        }
    }
    true
}

fn reachable(m: &M) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<usize> = m.init.iter().copied().collect();
    while let Some(q) = todo.pop() {
        if out.insert(q) {
            todo.extend(m.tr.get(&q).into_iter().flatten().map(|t| t.1));
        }
    }
    out
}

/// Reading of an automaton whose labels are words.
fn expand(d: &DetAutomaton<usize, String>) -> Result<M, String> {
    let mut m = M { init: [*d.initial_state()].into(), ..M::default() };
    m.fin = d.final_states().clone();
    let mut fresh = 1000;
    for (q, ts) in d.transitions() {
        for (w, t) in ts {
            let cs: Vec<char> = w.chars().collect();
            if cs.is_empty() {
                return Err("empty label".into());
            }
            let mut at = *q;
            for (i, c) in cs.iter().enumerate() {
                let to = if i + 1 == cs.len() {
                    *t
                } else {
                    fresh += 1;
                    fresh
                };
                m.tr.entry(at).or_default().push((Some([*c].into()), to));
                at = to;
            }
        }
    }
    Ok(m)
}

fn det_ops(ctx: &Ctx, group: &str, n: usize, letters: &[char]) {
    let total = (n + 1).pow((n * letters.len()) as u32);
    let codes: Vec<usize> = (0..total).collect();
    ctx.par(&codes, |_, code| {
        for fin in 0..1 << n {
            let key = format!("{group}|{code}|{fin}");
            if ctx.saturated() || !ctx.begin(&key) {
                continue;
            }
            let (d, m) = det(n, letters, *code, fin);
            ctx.trace();
            let bad = |what: &str, why: String| fail(ctx, &key, what, &m, why);
            let lang = |what: &str, r: Result<Result<M, String>, String>| match r {
                Err(p) => bad(what, format!("crash: {p}")),
                Ok(r) => {
                    if let Err(w) = r.and_then(|r| same(ctx, &r, &[&m], |a| a[0], &ABC)) {
                        bad(what, w)
                    }
                }
            };
            // minimisation, from the partition of the reachable states by
            // finality and from that of all states
            for all in [false, true] {
                let what = "minimisation changes the language";
                let r = ctx.guarded(|| {
                    let r = if all {
                        let states: Vec<usize> = (0..n).collect();
                        let (f, g): (BTreeSet<&usize>, BTreeSet<&usize>) = states.iter().partition(|q| d.is_final_state(q));
                        let part: Vec<BTreeSet<&usize>> = [f, g].into_iter().filter(|s| !s.is_empty()).collect();
                        // states borrowed from a copy: same values
                        let q = d.minimize(part.into_iter());
                        of_det(&q, |l| one(l))
                    } else {
                        let part = d.partition(|q| d.is_final_state(q));
                        of_det(&d.minimize(part.into_values()), |l| one(l))
                    };
                    deterministic(&r)?;
                    let live: Vec<usize> = reachable(&r).into_iter().collect();
                    for (i, p) in live.iter().enumerate() {
                        for q in &live[..i] {
                            if equivalent(&r, *p, *q) {
                                return Err("two equivalent states are left".to_owned());
                            }
                        }
                    }
                    Ok(r)
                });
                lang(what, r);
            }
            lang("relabelling changes the language", ctx.guarded(|| {
                let r = d.map(|q| format!("s{q}"), |l| l.to_string());
                Ok(of_det(&r, |l| l.chars().collect()))
            }));
            lang("fallible relabelling changes the language", ctx.guarded(|| {
                let r = d.try_map::<_, _, String>(|q| Ok(n - q), |l| Ok(*l as u32)).unwrap();
                Ok(of_det(&r, |l| [char::from_u32(*l).unwrap()].into()))
            }));
            lang("serialisation changes the language", ctx.guarded(|| {
                let j = serde_json::to_string(&d).map_err(|e| e.to_string())?;
                let r: DetAutomaton<usize, char> = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                Ok(of_det(&r, one))
            }));
            lang("compression changes the language", ctx.guarded(|| {
                let r: DetAutomaton<usize, String> = d.compress(|w: &mut String, c| w.push(*c));
                expand(&r)
            }));
            // exploration
            let want = reachable(&m);
            let got = ctx.guarded(|| {
                let a: BTreeSet<usize> = d.states().into_iter().copied().collect();
                let b: BTreeSet<usize> = d.reachable_states_from(d.initial_state()).copied().collect();
                let c: Vec<usize> = d.reachable_states_from(d.initial_state()).copied().collect();
                let e: BTreeSet<usize> = d.select_states(|q| d.is_final_state(q)).into_iter().copied().collect();
                let f = d.try_partition::<_, _, ()>(|q| Ok(d.is_final_state(q))).unwrap();
                (a, b, c.len(), e, f.values().map(|s| s.len()).sum::<usize>())
            });
            match got {
                Err(p) => bad("exploration crashes", p),
                Ok((a, b, c, e, f)) => {
                    let finals: BTreeSet<usize> = want.intersection(&m.fin).copied().collect();
                    if a != want || b != want || c != want.len() || e != finals || f != want.len() {
                        bad("the reported states are not the reachable ones", format!("{a:?} {b:?} {c} {e:?} {f}"))
                    }
                }
            }
        }
    });
}

fn det_product(ctx: &Ctx, group: &str, n: usize, letters: &[char]) {
    let total = (n + 1).pow((n * letters.len()) as u32);
    let all: Vec<(usize, usize)> = (0..total).flat_map(|c| (0..1 << n).map(move |f| (c, f))).collect();
    ctx.par(&all, |i, &(c, x)| {
        let (a, ma) = det(n, letters, c, x);
        for (j, &(d, y)) in all.iter().enumerate() {
            let key = format!("{group}|{i}|{j}");
            if ctx.saturated() || !ctx.begin(&key) {
                continue;
            }
            let (b, mb) = det(n, letters, d, y);
            ctx.trace();
            let r = ctx.guarded(|| {
                let p = a.product(&b, |p, q| (*p, *q), |l, m| (l == m).then_some(*l));
                // the states are paired as requested
                for (q, ts) in p.transitions() {
                    for (l, t) in ts {
                        let ea = a.transitions().get(&q.0).and_then(|m| m.get(l));
                        let eb = b.transitions().get(&q.1).and_then(|m| m.get(l));
                        if (ea, eb) != (Some(&t.0), Some(&t.1)) {
                            return Err(format!("{q:?} goes to {t:?} by {l}"));
                        }
                    }
                }
                Ok(of_det(&p, one))
            });
            match r {
                Err(p) => fail(ctx, &key, "the product crashes", &ma, p),
                Ok(r) => {
                    if let Err(w) = r.and_then(|r| same(ctx, &r, &[&ma, &mb], |a| a[0] && a[1], &ABC)) {
                        fail(ctx, &key, "the product does not accept the intersection", &ma, format!("{w}, with {mb:?}"))
                    }
                }
            }
        }
    });
}

fn charsets(ctx: &Ctx) {
    let points = ['\0', 'a', 'b', 'c', 'd', '\u{d7ff}', '\u{e000}', '\u{10ffff}'];
    let mk = |bits: usize| {
        let mut s = RangeSet::new();
        let mut i = 0;
        while i < points.len() {
            if bits >> i & 1 == 1 {
                s.insert(points[i]);
            }
            i += 1;
        }
        s
    };
    let wide = |bits: usize| {
        // ranges between consecutive points
        let mut s = RangeSet::new();
        for i in 0..points.len() - 1 {
            if bits >> i & 1 == 1 {
                s.insert(points[i]..=points[i + 1]);
            }
        }
        s
    };
    let mut all: Vec<RangeSet<char>> = (0..256).map(mk).collect();
    all.extend((0..128).map(wide));
    let mut probes: BTreeSet<char> = points.into();
    probes.extend(['\u{1}', '`', 'e', 'm', '\u{e001}', '\u{10fffe}']);
    ctx.par(&all, |i, a| {
        for (j, b) in all.iter().enumerate() {
            let key = format!("set|{i}|{j}");
            if ctx.saturated() || !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            ctx.trace();
            match ctx.guarded(|| tl::utils::charset_intersection(a, b)) {
                Err(p) => ctx.violate(&key, "charset_intersection crashes", json!({"why": p})),
                Ok(r) => {
                    for c in &probes {
                        if r.contains(*c) != (a.contains(*c) && b.contains(*c)) {
                            ctx.violate(&key, "wrong intersection of character sets", json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "at": c.to_string()}));
                            break;
                        }
                    }
                }
            }
        }
    });
}

pub fn c14(ctx: &Ctx) {
    charsets(ctx);
    determinize(ctx, "det1", 1, &[None, Some("a"), Some("ab"), Some("bc"), Some("c")]);
    determinize(ctx, "det2", 2, &[None, Some("ab"), Some("bc")]);
    if ctx.quick() {
        determinize(ctx, "det3", 3, &[Some("a")]);
    } else {
        determinize(ctx, "det3", 3, &[None, Some("ab")]);
    }
    nd_product(ctx, "ndp1", 1, &[None, Some("a"), Some("ab"), Some("bc")], 0..2, 0);
    // in the quick tier, a single initial state when there are epsilon moves
    nd_product(ctx, "ndp2", 2, &[None, Some("a")], 1..ctx.bound(2, 4), 1);
    nd_product(ctx, "ndp2m", 2, &[Some("a")], 0..4, 0);
    det_ops(ctx, "ops2", 2, &['a', 'b', 'c']);
    det_ops(ctx, "ops3", 3, &['a', 'b']);
    det_ops(ctx, "ops4", 4, &['a']);
    if !ctx.quick() {
        det_ops(ctx, "ops5", 5, &['a']);
        det_ops(ctx, "ops3c", 3, &['a', 'b', 'c']);
        det_ops(ctx, "ops4b", 4, &['a', 'b']);
    }
    det_product(ctx, "prod2", 2, &['a', 'b']);
    det_product(ctx, "prod3", 3, &['a']);
}
