//! Statement patterns enumerated for themselves: every variable, constant and
//! graph in every position, in every place of a layout where patterns occur.
use crate::{core::*, fam::*, model::*, rt::Ctx};
use rdf_types::Term;
use std::collections::BTreeMap;

/// Gives every inner layout a name, equal layouts sharing it.
pub fn share(s: &Sys) -> Sys {
    fn lr(l: &LR, seen: &mut Vec<(L, String)>) -> LR {
        match l {
            LR::Named(n) => LR::Named(n.clone()),
            LR::In(l) => {
                if matches!(l.k, K::Never | K::Always) {
                    return LR::In(l.clone());
                }
                let inner = go(l, seen);
                if let Some((_, n)) = seen.iter().find(|(m, _)| *m == inner) {
                    return LR::Named(n.clone());
                }
                let n = format!("http://e/shared/{}", seen.len());
                seen.push((inner, n.clone()));
                LR::Named(n)
            }
        }
    }
    fn go(l: &L, seen: &mut Vec<(L, String)>) -> L {
        let mut l = l.clone();
        let mut c = |c: &mut Comp| c.layout = lr(&c.layout, seen);
        match &mut l.k {
            K::Record(f) => f.values_mut().for_each(|(x, _)| c(x)),
            K::Sum(v) => v.iter_mut().for_each(|(_, x)| c(x)),
            K::Set(x) | K::List(_, _, x) => c(x),
            K::Tuple(v) => v.iter_mut().for_each(c),
            _ => {}
        }
        l
    }
    let mut seen = vec![];
    let main = go(&s.main, &mut seen);
    let mut named = BTreeMap::new();
    for (n, l) in &s.named {
        named.insert(n.clone(), go(l, &mut seen));
    }
    for (mut l, n) in seen {
        l.id = Some(n.clone());
        named.insert(n, l);
    }
    Sys { name: format!("shared:{}", s.name), main, named }
}

fn slot(p: &Pat) -> String {
    match p {
        V(i) => format!("{i}"),
        C(t) => t.to_string().rsplit('/').next().unwrap_or("c").trim_end_matches('>').to_string(),
    }
}
fn nm(q: &PQ) -> String {
    format!("{}{}{}{}", slot(&q.0), slot(&q.1), slot(&q.2), q.3.as_ref().map(|g| format!("@{}", slot(g))).unwrap_or_default())
}

/// All patterns over the given slots.
pub fn patterns(s: &[Pat], p: &[Pat], o: &[Pat], g: &[Option<Pat>]) -> Vec<PQ> {
    let mut out = vec![];
    for a in s {
        for b in p {
            for c in o {
                for d in g {
                    out.push(PQ(a.clone(), b.clone(), c.clone(), d.clone()));
                }
            }
        }
    }
    out
}

pub const PLACES: [&str; 7] = ["header", "field", "optional", "set", "variant", "item", "node"];

/// A layout with `q1` among its own patterns and `q2` in the given place,
/// showing what variables 1 and 2 are bound to.
pub fn placed(q1: &PQ, q2: Option<&PQ>, place: &str) -> Sys {
    let see = |i: usize| Comp { intro: 0, ds: vec![], layout: LR::In(Box::new(l_id())), input: vec![V(i)], graph: G::Inherit };
    let name = format!("pat[{},{},{}]", nm(q1), q2.map(nm).unwrap_or_default(), place);
    let uses = |i: usize| [Some(q1), q2].into_iter().flatten().any(|q| [&q.0, &q.1, &q.2].contains(&&V(i)) || q.3 == Some(V(i)));
    let at = |i: usize| if uses(i) { see(i) } else { see(0) };
    let comp = |extra: Vec<PQ>| Comp { intro: 0, ds: extra, ..at(2) };
    // the value of the second component: variable 2
    let l = match (place, q2) {
        ("header", q2) => with_ds(tuple(vec![at(1), at(2)]), 2, [Some(q1), q2].into_iter().flatten().cloned().collect()),
        ("field" | "optional", Some(q2)) => {
            let c = Comp { intro: 1, ..comp(vec![q2.clone()]) };
            with_ds(record(vec![("k", see(1), true), ("f", c, place == "field")]), 1, vec![q1.clone()])
        }
        ("set", Some(q2)) => with_ds(leaf(K::Set(Comp { intro: 1, ..comp(vec![q2.clone()]) })), 1, vec![q1.clone()]),
        ("variant", Some(q2)) => with_ds(sum(vec![("a", Comp { intro: 1, ..comp(vec![q2.clone()]) }), ("b", on_self(leaf(K::Never)))]), 1, vec![q1.clone()]),
        ("item", Some(q2)) => with_ds(tuple(vec![Comp { intro: 1, ..comp(vec![q2.clone()]) }]), 1, vec![q1.clone()]),
        ("node", Some(q2)) => {
            // head = 2, rest = 3
            let n = Comp { intro: 0, ds: vec![q2.clone(), PQ(V(2), C(rest()), V(3), None)], ..see(2) };
            with_ds(leaf(K::List(V(1), C(nil()), n)), 1, vec![q1.clone()])
        }
        _ => unreachable!(),
    };
    sys(&name, l)
}

fn universe(two_preds: bool) -> Vec<Q4> {
    let mut out = vec![];
    let ps: Vec<Term> = if two_preds { vec![ex("p"), ex("a")] } else { vec![ex("p")] };
    for s in [ex("a"), ex("g")] {
        for p in &ps {
            for o in [ex("a"), ex("g")] {
                for g in [None, Some(ex("g")), Some(ex("a"))] {
                    out.push((s.clone(), p.clone(), o.clone(), g));
                }
            }
        }
    }
    out
}

/// Systems with the number of data statements to explore for each.
pub fn pattern_systems(full: bool) -> Vec<(Sys, bool, usize)> {
    let mut out = vec![];
    let c = |x: &str| C(ex(x));
    let singles = patterns(&[V(0), V(1), V(2), c("a")], &[c("p"), V(1), V(2)], &[V(0), V(1), V(2), c("g")], &[None, Some(c("g")), Some(V(1)), Some(V(2))]);
    for q in &singles {
        out.push((placed(q, None, "header"), true, if full { 3 } else { 2 }));
    }
    // pairs
    let q1s = patterns(&[V(0), V(1)], &[c("p"), V(1)], &[V(0), V(1)], &[None, Some(c("g")), Some(V(1))]);
    let q2s = if full {
        patterns(&[V(0), V(1), V(2)], &[c("p"), V(1), V(2)], &[V(0), V(1), V(2)], &[None, Some(c("g")), Some(V(1)), Some(V(2))])
    } else {
        let mut v = patterns(&[V(0), V(1), V(2)], &[c("p")], &[V(1), V(2)], &[None, Some(V(1)), Some(V(2))]);
        v.extend(patterns(&[V(0)], &[V(1), V(2)], &[V(2)], &[None, Some(c("g")), Some(V(1)), Some(V(2))]));
        v
    };
    for q1 in &q1s {
        // the first pattern must introduce variable 1 to be of interest
        if ![&q1.0, &q1.1, &q1.2].contains(&&V(1)) && q1.3 != Some(V(1)) {
            continue;
        }
        for q2 in &q2s {
            let vars = [&q1.1, &q2.1].iter().any(|p| matches!(p, V(_)));
            for place in PLACES {
                if place == "node" && (q2.1 != c("p") || q1.1 != c("p")) {
                    continue;
                }
                out.push((placed(q1, Some(q2), place), vars, if full && !vars { 3 } else { 2 }));
            }
        }
    }
    out
}

pub fn hydrate_patterns(ctx: &Ctx, total_only: bool) {
    let systems = pattern_systems(!ctx.quick());
    ctx.par(&systems, |_, (s, vars, k)| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let mut pool = universe(*vars);
        if s.name.ends_with("node]") {
            pool.retain(|q| q.3 != Some(ex("a")) || q.0 == ex("a"));
            pool.push((ex("a"), rest(), nil(), None));
            pool.push((ex("g"), rest(), nil(), None));
            pool.push((ex("g"), rest(), ex("a"), None));
        }
        let k = if s.name.ends_with("node]") { k + 1 } else { *k };
        let node = s.name.ends_with("node]");
        subsets(pool.len(), k, &mut |ix| {
            let ds: Ds = ix.iter().map(|i| pool[*i].clone()).collect();
            if node && k == ix.len() && !ds.iter().any(|q| q.1 == rest()) {
                return !ctx.saturated();
            }
            let key = format!("{}|d{}", s.name, ix.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."));
            if ctx.begin(&key) {
                hydrate_case(ctx, s, &real, &ds, None, &[ex("a")], &key, total_only);
            }
            !ctx.saturated()
        });
    });
}
