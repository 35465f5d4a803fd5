//! C08: outcomes do not depend on statement order, blank node labels,
//! irrelevant statements or the run.
use crate::{core::*, fam::*, model::*, pats, real::*, roundtrip::show_terms, rt::Ctx};
use rdf_types::{Id, Term};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type Outcome = Result<Tree, ()>;

fn run(ctx: &Ctx, real: &Real, d: &FlatDs<Term>, g: Option<&Term>, inputs: &[Term]) -> Result<Outcome, String> {
    ctx.guarded(|| real.hydrate_in(d, g, inputs).map(|v| Tree::of_typed(&v)).map_err(|_| ()))
}

/// Everything a pattern of the layouts may match.
#[derive(Default)]
struct Used {
    predicates: BTreeSet<Term>,
    any_predicate: bool,
    graphs: BTreeSet<Term>,
    any_graph: bool,
}

fn used(s: &Sys) -> Used {
    let mut u = Used::default();
    fn go(l: &L, u: &mut Used) {
        for q in l.h.ds.iter().chain(l.comps().into_iter().flat_map(|c| c.ds.iter())) {
            match &q.1 {
                C(t) => {
                    u.predicates.insert(t.clone());
                }
                V(_) => u.any_predicate = true,
            }
            match &q.3 {
                Some(C(t)) => {
                    u.graphs.insert(t.clone());
                }
                Some(V(_)) => u.any_graph = true,
                None => {}
            }
        }
        for c in l.comps() {
            match &c.graph {
                G::P(C(t)) => {
                    u.graphs.insert(t.clone());
                }
                G::P(V(_)) => u.any_graph = true,
                _ => {}
            }
            if let LR::In(l) = &c.layout {
                go(l, u)
            }
        }
    }
    go(&s.main, &mut u);
    s.named.values().for_each(|l| go(l, &mut u));
    u
}

/// Statements no pattern can match.
fn irrelevant(u: &Used, pool: &[Q4]) -> Vec<Q4> {
    let mut out = vec![];
    if !u.any_predicate {
        let p = ex("unused");
        for s in [ex("a"), ex("b"), blank("x"), nil()] {
            for o in [ex("b"), s_lit("s"), blank("x")] {
                out.push((s.clone(), p.clone(), o.clone(), None));
            }
        }
        for g in &u.graphs {
            out.push((ex("a"), p.clone(), ex("b"), Some(g.clone())));
        }
    }
    if !u.any_graph {
        // the same statements in a graph nothing refers to
        for q in pool {
            out.push((q.0.clone(), q.1.clone(), q.2.clone(), Some(ex("unused"))));
        }
        out.push((ex("a"), ex("unused"), ex("b"), Some(blank("x"))));
    }
    out
}

fn rename(t: &Term, m: &BTreeMap<Term, Term>) -> Term {
    m.get(t).cloned().unwrap_or_else(|| t.clone())
}

fn blanks_of(ds: &Ds, inputs: &[Term]) -> Vec<Term> {
    let mut b = BTreeSet::new();
    let mut add = |t: &Term| {
        if matches!(t, Term::Id(Id::Blank(_))) {
            b.insert(t.clone());
        }
    };
    for q in ds {
        add(&q.0);
        add(&q.1);
        add(&q.2);
        if let Some(g) = &q.3 {
            add(g)
        }
    }
    inputs.iter().for_each(add);
    b.into_iter().collect()
}

/// Every injective map of `from` into `to`.
fn injections(from: &[Term], to: &[Term]) -> Vec<BTreeMap<Term, Term>> {
    match from.split_first() {
        None => vec![BTreeMap::new()],
        Some((h, t)) => {
            let mut out = vec![];
            for (i, x) in to.iter().enumerate() {
                let rest: Vec<Term> = to.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| x.clone()).collect();
                for mut m in injections(t, &rest) {
                    m.insert(h.clone(), x.clone());
                    out.push(m);
                }
            }
            out
        }
    }
}

/// Canonical order of the values of one layout, where it is plain to see.
fn canonical(a: &Tree, b: &Tree) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    Some(match (a, b) {
        (Tree::Unit, Tree::Unit) => Equal,
        (Tree::Bool(a), Tree::Bool(b)) => a.cmp(b),
        (Tree::Num(a), Tree::Num(b)) => a.cmp(b),
        (Tree::Str(a), Tree::Str(b)) => a.as_bytes().cmp(b.as_bytes()),
        (Tree::List(a), Tree::List(b)) => {
            for (x, y) in a.iter().zip(b) {
                match canonical(x, y)? {
                    Equal => {}
                    o => return Some(o),
                }
            }
            a.len().cmp(&b.len())
        }
        (Tree::Map(a), Tree::Map(b)) => {
            for ((k, x), (l, y)) in a.iter().zip(b) {
                match canonical(k, l)? {
                    Equal => {}
                    o => return Some(o),
                }
                match canonical(x, y)? {
                    Equal => {}
                    o => return Some(o),
                }
            }
            a.len().cmp(&b.len())
        }
        _ => return None,
    })
}

/// Every unordered list in the tree is in canonical order.
fn ordered(l: &L, named: &BTreeMap<String, L>, t: &Tree) -> bool {
    let at = |c: &Comp, t: &Tree| match &c.layout {
        LR::In(l) => ordered(l, named, t),
        LR::Named(n) => named.get(n).map(|l| ordered(l, named, t)).unwrap_or(true),
    };
    match (&l.k, t) {
        (K::Record(f), Tree::Map(m)) => m.iter().all(|(k, v)| match k {
            Tree::Str(k) => f.get(k).map(|(c, _)| at(c, v)).unwrap_or(true),
            _ => true,
        }),
        (K::Sum(vs), Tree::Var(i, v)) => at(&vs[*i as usize].1, v),
        (K::Set(c), Tree::List(items)) => {
            items.iter().all(|v| at(c, v)) && items.windows(2).all(|w| canonical(&w[0], &w[1]) != Some(std::cmp::Ordering::Greater))
        }
        (K::List(_, _, c), Tree::List(items)) => items.iter().all(|v| at(c, v)),
        (K::Tuple(cs), Tree::List(items)) => items.iter().zip(cs).all(|(v, c)| at(c, v)),
        _ => true,
    }
}

pub fn c08(ctx: &Ctx) {
    let mut systems: Vec<(Sys, u64)> = vec![];
    let b = ctx.bound(120, 1_500);
    for s in faithful(ctx.bound(2, 3)) {
        systems.push((s, b));
    }
    for s in adversarial() {
        systems.push((s, ctx.bound(400, 4_000)));
    }
    for s in orders() {
        systems.push((s, ctx.bound(1_500, 40_000)));
    }
    let pk = ctx.bound(24, 300);
    for (i, (s, _, _)) in pats::pattern_systems(false).into_iter().enumerate() {
        if !ctx.quick() || i % 3 == 0 {
            systems.push((s, pk));
        }
    }
    let max_perm = ctx.bound(4, 5);
    let all_perms: Vec<Vec<Vec<usize>>> = (0..=max_perm).map(perms).collect();
    ctx.par(&systems, |_, (s, budget)| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let u = used(s);
        let pool = quad_pool(s, false);
        let noise = irrelevant(&u, &pool);
        let mut ins = input_choices(s);
        ins.truncate(ctx.bound(3, 30));
        each_ds(ctx, &pool, *budget, max_perm, |ds, dk| {
            for (ii, inputs) in ins.iter().enumerate() {
                if ii > 0 && ds.len() > 1 {
                    break;
                }
                let key = format!("{}|h|d{}|i{}", s.name, dk, ii);
                if !ctx.begin(&key) {
                    continue;
                }
                ctx.state();
                let flat = to_flat(ds);
                let detail = |what: &str, base: &Outcome, other: &dyn std::fmt::Debug, data: Vec<String>| {
                    json!({"layout": s.main.json(), "dataset": show_ds(ds), "inputs": show_terms(inputs), "outcome": format!("{base:?}"), "change": what, "changed_dataset": data, "changed_outcome": format!("{other:?}")})
                };
                let base = match run(ctx, &real, &flat, None, inputs) {
                    Ok(b) => b,
                    Err(p) => {
                        ctx.violate(&key, "hydration crashed", json!({"layout": s.main.json(), "dataset": show_ds(ds), "panic": p}));
                        continue;
                    }
                };
                ctx.count(if base.is_ok() { "accepted" } else { "rejected" }, 1);
                let same = |what: &str, d: &FlatDs<Term>, inp: &[Term]| {
                    ctx.step();
                    let o = run(ctx, &real, d, None, inp);
                    let ok = matches!(&o, Ok(o) if *o == base);
                    if !ok {
                        let shown = d.0.iter().map(|q| q.to_string()).collect();
                        ctx.violate(&key, &format!("the outcome depends on {what}"), detail(what, &base, &o, shown));
                    }
                    ok
                };
                if let Ok(t) = &base {
                    if !ordered(&s.main, &s.named, t) {
                        ctx.violate(&key, "an unordered list is not in canonical order", detail("", &base, &"", vec![]));
                        continue;
                    }
                }
                // again
                if !same("the run", &flat, inputs) {
                    continue;
                }
                // every order of the statements
                let mut bad = false;
                for p in &all_perms[ds.len()] {
                    let d = FlatDs(p.iter().map(|i| flat.0[*i].clone()).collect());
                    if !same("the order of the statements", &d, inputs) {
                        bad = true;
                        break;
                    }
                }
                if bad {
                    continue;
                }
                // every order of insertion in the indexed dataset
                if !ds.iter().any(repeats) {
                    let v: Vec<&Q4> = ds.iter().collect();
                    for p in &all_perms[ds.len()] {
                        ctx.step();
                        let d = to_indexed(p.iter().map(|i| v[*i]));
                        let o = ctx.guarded(|| real.hydrate_in(&d, None, inputs).map(|v| Tree::of_typed(&v)).map_err(|_| ()));
                        if !matches!(&o, Ok(o) if *o == base) {
                            ctx.violate(&key, "the outcome depends on the order of insertion", detail("insertion", &base, &o, vec![]));
                            bad = true;
                            break;
                        }
                    }
                }
                if bad {
                    continue;
                }
                // every renaming of the blank nodes
                let bl = blanks_of(ds, inputs);
                if !bl.is_empty() {
                    let labels: Vec<Term> = ["0", "A", "x", "y", "zz"].iter().map(|l| blank(l)).collect();
                    for m in injections(&bl, &labels) {
                        let mut d = FlatDs(flat.0.iter().map(|q| rdf_types::Quad(rename(&q.0, &m), rename(&q.1, &m), rename(&q.2, &m), q.3.as_ref().map(|g| rename(g, &m)))).collect());
                        d.0.sort_by_key(|q| q.to_string());
                        let inp: Vec<Term> = inputs.iter().map(|t| rename(t, &m)).collect();
                        if !same("blank node labels", &d, &inp) {
                            bad = true;
                            break;
                        }
                    }
                }
                if bad {
                    continue;
                }
                // every statement nothing can match, first and last
                for q in &noise {
                    if ds.contains(q) {
                        continue;
                    }
                    let q = rdf_types::Quad(q.0.clone(), q.1.clone(), q.2.clone(), q.3.clone());
                    let mut d = FlatDs(flat.0.clone());
                    d.0.push(q.clone());
                    if !same("statements no pattern can match", &d, inputs) {
                        break;
                    }
                    let mut d = FlatDs(vec![q]);
                    d.0.extend(flat.0.iter().cloned());
                    if !same("statements no pattern can match", &d, inputs) {
                        break;
                    }
                }
                ctx.trace();
                if base.is_ok() && ds.len() > 1 {
                    ctx.sample(|| detail("orders, labels, additions", &base, &base, vec![]));
                }
            }
        });
        // ---- writing
        for (vi, v) in values(s, !ctx.quick()).iter().enumerate() {
            let key = format!("{}|d|v{}", s.name, vi);
            if !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            let val = v.to_value();
            let one = ctx.guarded(|| real.dehydrate(&val).map_err(|_| ()));
            for _ in 0..3 {
                ctx.step();
                let again = ctx.guarded(|| real.dehydrate(&val).map_err(|_| ()));
                if one != again {
                    ctx.violate(&key, "dehydrating twice gives different datasets", json!({"layout": s.main.json(), "value": v.show(), "first": format!("{one:?}"), "second": format!("{again:?}")}));
                    break;
                }
            }
            // unordered lists in every order
            for w in reorderings(&s.main, &s.named, v) {
                ctx.step();
                let wv = w.to_value();
                let other = ctx.guarded(|| real.dehydrate(&wv).map_err(|_| ()));
                let ok = match (&one, &other) {
                    (Ok(Ok(a)), Ok(Ok(b))) => iso(&a.0, &a.1, &b.0, &b.1, false),
                    (Ok(Err(_)), Ok(Err(_))) => true,
                    _ => false,
                };
                if !ok {
                    ctx.violate(&key, "the statements depend on the order of an unordered list", json!({"layout": s.main.json(), "value": v.show(), "other": w.show(), "first": format!("{one:?}"), "second": format!("{other:?}")}));
                    break;
                }
            }
            ctx.trace();
        }
    });
}

/// The value with the items of an outermost unordered list in other orders.
fn reorderings(l: &L, named: &BTreeMap<String, L>, t: &Tree) -> Vec<Tree> {
    let at = |c: &Comp, t: &Tree| match &c.layout {
        LR::In(l) => reorderings(l, named, t),
        LR::Named(n) => named.get(n).map(|l| reorderings(l, named, t)).unwrap_or_default(),
    };
    match (&l.k, t) {
        (K::Set(_), Tree::List(i)) if i.len() > 1 && i.len() <= 4 => perms(i.len()).into_iter().map(|p| Tree::List(p.into_iter().map(|j| i[j].clone()).collect())).collect(),
        (K::Record(f), Tree::Map(m)) => {
            let mut out = vec![];
            for (k, v) in m {
                if let Tree::Str(n) = k {
                    if let Some((c, _)) = f.get(n) {
                        for w in at(c, v) {
                            let mut m = m.clone();
                            m.insert(k.clone(), w);
                            out.push(Tree::Map(m));
                        }
                    }
                }
            }
            out
        }
        (K::List(_, _, c), Tree::List(items)) => {
            let mut out = vec![];
            for (i, v) in items.iter().enumerate() {
                for w in at(c, v) {
                    let mut items = items.clone();
                    items[i] = w;
                    out.push(Tree::List(items));
                }
            }
            out
        }
        _ => vec![],
    }
}

/// Layouts in which the order of statements could show.
fn orders() -> Vec<Sys> {
    let two = |p: &str, q: &str, l: L| Comp {
        intro: 2,
        ds: vec![PQ(V(0), C(ex(p)), V(1), None), PQ(V(1), C(ex(q)), V(2), None)],
        layout: LR::In(Box::new(l)),
        input: vec![V(2)],
        graph: G::Inherit,
    };
    vec![
        sys("o:set2(str)", leaf(K::Set(two("p", "q", l_str())))),
        sys("o:set2(int)", leaf(K::Set(two("p", "q", l_num("integer"))))),
        sys("o:set(rec)", set("p", record(vec![("x", prop(1, "q", l_num("integer")), false), ("y", prop(1, "r", l_str()), false)]))),
        sys("o:set(set)", set("p", set("q", l_num("integer")))),
        sys("o:set(list)", set("p", rdf_list(l_num("integer")))),
        sys("o:set(sum)", set("p", sum(vec![("a", on_self(l_str())), ("b", on_self(l_num("integer"))), ("c", on_self(l_bool()))]))),
        sys("o:rec(2,2)", record(vec![("x", two("p", "q", l_str()), false), ("y", prop(1, "p", record(vec![])), false)])),
    ]
}
