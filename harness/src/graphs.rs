//! C06: graph scoping.
use crate::{core::*, fam::*, interp::*, model::*, roundtrip::{back_same, repeated_identity, show_terms}, rt::Ctx};
use rdf_types::Term;
use serde_json::json;
use std::collections::BTreeSet;

fn q(s: Pat, p: &str, o: Pat, g: &Option<Pat>) -> PQ {
    PQ(s, C(ex(p)), o, g.clone())
}

/// Inner layouts reading at least one statement, whose patterns carry `g`.
fn inners(g: &Option<Pat>, thorough: bool) -> Vec<(String, L)> {
    let gn = match g {
        None => "-".to_owned(),
        Some(C(t)) => t.to_string().replace("http://e/", ""),
        Some(V(i)) => format!("v{i}"),
    };
    let fld = |p: &str, l: L| Comp { ds: vec![q(V(0), p, V(1), g)], ..prop(1, p, l) };
    let mut v = vec![
        ("path".to_owned(), with_ds(leaf(K::Str(V(1), format!("{XSD}string"))), 1, vec![q(V(0), "q", V(1), g)])),
        ("rec".to_owned(), record(vec![("x", fld("q", l_str()), true)])),
        ("recopt".to_owned(), record(vec![("id", on_self(l_id()), true), ("x", fld("q", l_str()), false)])),
        ("set".to_owned(), leaf(K::Set(fld("q", l_str())))),
        ("sum".to_owned(), sum(vec![("a", fld("q", l_str())), ("b", fld("r", l_num("integer")))])),
        ("unit".to_owned(), with_ds(l_unit(n(1)), 0, vec![q(V(0), "q", C(ex("m")), g)])),
    ];
    if thorough || g.is_none() {
        v.push(("tup".to_owned(), tuple(vec![fld("q", l_str()), fld("r", l_num("integer"))])));
        v.push(("list".to_owned(), {
            let mut l = rdf_list(l_str());
            if let K::List(_, _, c) = &mut l.k {
                for x in &mut c.ds {
                    x.3 = match g {
                        Some(V(_)) => Some(V(0)),
                        o => o.clone(),
                    };
                }
            }
            l
        }));
    }
    v.into_iter().map(|(n, l)| (format!("{n}@{gn}"), l)).collect()
}

fn sel(i: usize) -> (&'static str, G) {
    match i {
        0 => ("inherit", G::Inherit),
        1 => ("default", G::Default),
        2 => ("g", G::P(C(ex("g")))),
        3 => ("self", G::P(V(0))),
        _ => ("value", G::P(V(1))),
    }
}

pub fn systems(thorough: bool) -> Vec<Sys> {
    let mut out = vec![];
    let pg: Vec<Option<Pat>> = vec![None, Some(C(ex("g"))), Some(V(0))];
    let mut level1: Vec<(String, L)> = vec![];
    for g in &pg {
        level1.extend(inners(g, thorough));
    }
    for (n, l) in &level1 {
        out.push(sys(n, l.clone()));
    }
    let mut level2: Vec<(String, L)> = vec![];
    for (n, l) in &level1 {
        for og in &pg {
            if og.is_some() && !thorough && !n.ends_with("@-") {
                continue;
            }
            for i in 0..5 {
                let (gn, g) = sel(i);
                let c = Comp { ds: vec![q(V(0), "p", V(1), og)], graph: g, ..prop(1, "p", l.clone()) };
                let ogn = match og {
                    None => "-",
                    Some(C(_)) => "g",
                    Some(V(_)) => "v0",
                };
                level2.push((format!("rec[{ogn},{gn}]({n})"), record(vec![("o", c.clone(), true)])));
                if og.is_none() {
                    level2.push((format!("set[{ogn},{gn}]({n})"), leaf(K::Set(c.clone()))));
                    level2.push((format!("sum[{ogn},{gn}]({n})"), sum(vec![("a", c.clone()), ("b", prop(1, "s", l_str()))])));
                    level2.push((format!("tup[{ogn},{gn}]({n})"), tuple(vec![c.clone()])));
                    if gn != "value" && !n.starts_with("list") {
                        let mut ll = rdf_list(l.clone());
                        if let K::List(_, _, k) = &mut ll.k {
                            k.graph = c.graph.clone();
                        }
                        level2.push((format!("list[{ogn},{gn}]({n})"), ll));
                    }
                    // on the subject itself: the selection alone matters
                    if gn != "value" {
                        let c = Comp { graph: c.graph.clone(), ..on_self(l.clone()) };
                        level2.push((format!("on[{gn}]({n})"), record(vec![("o", c, true)])));
                    }
                }
            }
        }
    }
    for (n, l) in &level2 {
        out.push(sys(n, l.clone()));
    }
    // a third level, to see that a selection is undone or nested properly
    let pick: Vec<&(String, L)> = level2
        .iter()
        .filter(|(n, _)| (n.starts_with("rec[-") || n.starts_with("on[")) && (n.ends_with("(rec@-)") || n.ends_with("(path@-)") || (thorough && n.ends_with("@-)"))))
        .collect();
    for (n, l) in pick {
        for i in 0..5 {
            let (gn, g) = sel(i);
            let c = Comp { ds: vec![q(V(0), "t", V(1), &None)], graph: g.clone(), ..prop(1, "t", l.clone()) };
            let after = Comp { ds: vec![q(V(0), "z", V(1), &None)], ..prop(1, "z", l_str()) };
            out.push(sys(&format!("rec3[{gn}]({n})"), record(vec![("a", c.clone(), true), ("z", after, false)])));
        }
    }
    out
}

fn pool_for(s: &Sys, g: Option<&Term>) -> Vec<Q4> {
    let base = quad_pool(s, false);
    let mut graphs: BTreeSet<Option<Term>> = base.iter().map(|q| q.3.clone()).collect();
    let bare: BTreeSet<(Term, Term, Term)> = base.into_iter().map(|q| (q.0, q.1, q.2)).collect();
    graphs.insert(g.cloned());
    if s.name.contains("self") || s.name.contains("v0") {
        graphs.insert(Some(ex("a")));
    }
    if graphs.len() == 1 {
        graphs.insert(Some(ex("other")));
    }
    let mut out = vec![];
    for (x, y, z) in bare {
        for g in &graphs {
            out.push((x.clone(), y.clone(), z.clone(), g.clone()));
        }
    }
    out
}

pub fn c06(ctx: &Ctx) {
    let systems = systems(!ctx.quick());
    let budget = ctx.bound(5_000, 60_000);
    let tops: Vec<Option<Term>> = vec![None, Some(ex("g")), Some(ex("h"))];
    ctx.par(&systems, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let ins = inputs_of(s);
        for (gi, g) in tops.iter().enumerate() {
            let pool = pool_for(s, g.as_ref());
            each_ds(ctx, &pool, budget / if s.name.starts_with("rec3") { 1 } else { 3 }, 5, |ds, dk| {
                let key = format!("{}|h|g{}|d{}", s.name, gi, dk);
                if !ctx.begin(&key) {
                    return;
                }
                hydrate_case(ctx, s, &real, ds, g.as_ref(), &ins, &key, false);
                // data in a graph nobody mentions never matters
                if ds.len() <= 2 {
                    let mut noisy = ds.clone();
                    for q in ds {
                        noisy.insert((q.0.clone(), q.1.clone(), q.2.clone(), Some(ex("unrelated"))));
                        noisy.insert((q.0.clone(), q.1.clone(), s_lit("noise"), Some(ex("unrelated"))));
                    }
                    let a = ctx.guarded(|| real.hydrate(ds, g.as_ref(), &ins).map(|v| Tree::of_typed(&v)));
                    let b = ctx.guarded(|| real.hydrate(&noisy, g.as_ref(), &ins).map(|v| Tree::of_typed(&v)));
                    ctx.trace();
                    if a != b {
                        ctx.violate(&key, "data in an unrelated graph changes the result",
                            json!({"layout": s.main.json(), "dataset": show_ds(&noisy), "without": format!("{a:?}"), "with": format!("{b:?}")}));
                    }
                }
            });
        }
        let gs: Vec<Option<R>> = vec![None, Some(R::T(ex("g"))), Some(R::T(ex("h"))), Some(R::In(9))];
        for (vi, v) in values(s, true).iter().enumerate() {
            for (gi, g) in gs.iter().enumerate() {
                let key = format!("{}|d|g{}|v{}", s.name, gi, vi);
                if !ctx.begin(&key) {
                    continue;
                }
                ctx.state();
                let n = s.main.h.inputs;
                let inr: Vec<R> = (0..n).map(R::In).collect();
                let val = v.to_value();
                let got = match ctx.guarded(|| dehydrate_rec(&real, &val, g.as_ref(), &inr)) {
                    Ok(r) => r,
                    Err(p) => {
                        ctx.violate(&key, "dehydration crashed", json!({"layout": s.main.json(), "value": v.show(), "panic": p}));
                        continue;
                    }
                };
                let mut m = Out::default();
                let want = d_layout(&s.named, &s.main, v, g.as_ref(), &inr, &mut m).map(|_| m);
                ctx.trace();
                let detail = |got: &Result<Out, String>, x: serde_json::Value| json!({"layout": s.main.json(), "value": v.show(), "graph": format!("{g:?}"),
                    "real": match got { Ok(o) => json!(format!("{:?}", o.quads)), Err(e) => json!(e) }, "reference": x});
                match (&got, &want) {
                    (Err(_), Err(_)) => {}
                    (Ok(a), Ok(b)) => match (resolve(a, n), resolve(b, n)) {
                        (Err(_), Err(_)) => {}
                        (Ok(a), Ok(b)) => {
                            if !iso(&a.0, &a.1, &b.0, &b.1, false) {
                                ctx.violate(&key, "dehydration writes into other graphs than the reference", detail(&got, json!({"dataset": show_ds(&b.0)})));
                                continue;
                            }
                            // found again when read under the same selection
                            let top = match g {
                                None => None,
                                Some(R::T(t)) => Some(t.clone()),
                                Some(_) => Some(blank("input9")),
                            };
                            if repeated_identity(v) || m_hydrate(s, &a.0, top.as_ref(), &a.1).is_err() {
                                ctx.count("not_reversible", 1);
                                continue;
                            }
                            match ctx.guarded(|| real.hydrate(&a.0, top.as_ref(), &a.1).map(|v| Tree::of_value(&v.into_untyped()))) {
                                Ok(Ok(b)) if back_same(&s.main, &s.named, v, &b) => {
                                    ctx.count("found_again", 1);
                                    if a.0.iter().any(|q| q.3.is_some()) {
                                        ctx.sample(|| json!({"layout": s.main.json(), "value": v.show(), "graph": format!("{g:?}"), "dataset": show_ds(&a.0), "inputs": show_terms(&a.1)}));
                                    }
                                }
                                o => ctx.violate(&key, "data written under a graph is not found again under it", detail(&got, json!({"dataset": show_ds(&a.0), "back": format!("{o:?}")}))),
                            }
                        }
                        (a, b) => ctx.violate(&key, "dehydration differs from the reference", detail(&got, json!(format!("{:?} / {:?}", a.is_ok(), b.is_ok())))),
                    },
                    (_, w) => ctx.violate(&key, "dehydration differs from the reference", detail(&got, json!(format!("{w:?}")))),
                }
            }
        }
    });
}
