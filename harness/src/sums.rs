//! C05: sum layouts.
//!
//! Every sum of up to three variants out of a library, in every order, is
//! compared (a) with the reference semantics and (b) with the sums of its
//! variants taken alone, run on the same real code.
use crate::{core::*, fam::*, model::*, real::*, roundtrip::show_terms, rt::Ctx};
use rdf_types::Term;
use serde_json::json;

pub fn library() -> Vec<(&'static str, Comp)> {
    let mark = |o: &str, l: L| Comp { intro: 0, ds: vec![PQ(V(0), C(ex("type")), C(ex(o)), None)], layout: LR::In(Box::new(l)), input: vec![V(0)], graph: G::Inherit };
    vec![
        ("str", on_self(l_str())),
        ("int", on_self(l_num("integer"))),
        ("bool", on_self(l_bool())),
        ("id", on_self(l_id())),
        ("unit", on_self(l_unit(n(1)))),
        ("rec", on_self(record(vec![("x", prop(1, "q", l_str()), true)]))),
        ("recopt", on_self(record(vec![("x", prop(1, "q", l_str()), false), ("y", prop(1, "r", l_num("integer")), false)]))),
        ("recid", on_self(record(vec![("id", on_self(l_id()), true), ("x", prop(1, "q", l_str()), false)]))),
        ("set", on_self(set("q", l_str()))),
        ("tup", on_self(tuple(vec![prop(1, "q", l_str()), prop(1, "r", l_num("integer"))]))),
        ("list", on_self(rdf_list(l_str()))),
        ("q:str", prop(1, "q", l_str())),
        ("q:id", prop(1, "q", l_id())),
        ("r:int", prop(1, "r", l_num("integer"))),
        ("r:str", prop(1, "r", l_str())),
        ("qr", Comp { intro: 2, ds: vec![PQ(V(0), C(ex("q")), V(1), None), PQ(V(1), C(ex("r")), V(2), None)], layout: LR::In(Box::new(l_num("integer"))), input: vec![V(2)], graph: G::Inherit }),
        ("free", Comp { intro: 1, ds: vec![], layout: LR::In(Box::new(l_str())), input: vec![V(1)], graph: G::Inherit }),
        ("mark1", mark("T1", record(vec![("x", prop(1, "q", l_str()), false)]))),
        ("mark2", mark("T2", record(vec![("x", prop(1, "q", l_str()), false)]))),
        ("qlist", prop(1, "q", rdf_list(l_str()))),
        ("nested", on_self(sum(vec![("m", prop(1, "q", l_str())), ("n", on_self(l_num("integer")))]))),
        ("graph", Comp { graph: G::P(C(ex("g"))), ..on_self(record(vec![("x", prop(1, "q", l_str()), true)])) }),
        ("never", on_self(leaf(K::Never))),
        ("failing", on_self(record(vec![("id", on_self(l_id()), true), ("x", prop(1, "q", record(vec![("z", prop(1, "r", l_num("integer")), true)])), true)]))),
    ]
}

fn a_sum(vs: &[&Comp]) -> L {
    sum(["a", "b", "c", "d"].into_iter().zip(vs.iter().map(|c| (*c).clone())).collect())
}

/// Outcome of a variant alone in a sum.
enum Alone {
    Accepts(Tree),
    Rejects,
    Ambiguous,
}

fn strip(t: &Tree) -> Tree {
    match t {
        Tree::Var(_, v) => (**v).clone(),
        o => o.clone(),
    }
}

pub fn c05(ctx: &Ctx) {
    let lib = library();
    let mut combos: Vec<Vec<usize>> = vec![];
    for i in 0..lib.len() {
        for j in 0..lib.len() {
            combos.push(vec![i, j]);
        }
    }
    let small: Vec<usize> = if ctx.quick() { vec![0, 1, 3, 5, 7, 11, 13, 14, 16, 17, 21, 23] } else { (0..lib.len()).collect() };
    for &i in &small {
        for &j in &small {
            for &k in &small {
                combos.push(vec![i, j, k]);
            }
        }
    }
    let budget = ctx.bound(130, 3_000);
    // every pair once more with the layouts of the variants named, equal ones shared
    let mut cases: Vec<(Vec<usize>, bool)> = combos.iter().filter(|c| c.len() == 2 || !ctx.quick()).map(|c| (c.clone(), true)).collect();
    cases.extend(combos.into_iter().map(|c| (c, false)));
    let singles: Vec<Sys> = lib.iter().map(|(n, c)| sys(n, a_sum(&[c]))).collect();
    let sreal: Vec<Real> = singles.iter().filter_map(|s| load_or_report(ctx, s)).collect();
    if sreal.len() < singles.len() && ctx.only.is_none() {
        return;
    }
    let sreal: Vec<Real> = singles.iter().map(|s| load(s).unwrap()).collect();
    ctx.par(&cases, |_, (combo, shared)| {
        let name = combo.iter().map(|i| lib[*i].0).collect::<Vec<_>>().join("|");
        let vs: Vec<&Comp> = combo.iter().map(|i| &lib[*i].1).collect();
        let mut s = sys(&format!("sum({name})"), a_sum(&vs));
        if *shared {
            s = crate::pats::share(&s);
        }
        let Some(real) = load_or_report(ctx, &s) else { return };
        let bare = |l: &L| json!({"variants": name, "layout": l.json()});
        // ---- reading
        let pool = quad_pool(&s, false);
        let ins: Vec<Vec<Term>> = vec![
            vec![ex("a")], vec![s_lit("s")], vec![xsd("12", "integer")], vec![xsd("true", "boolean")], vec![blank("x")], vec![nil()],
        ];
        each_ds(ctx, &pool, budget, 6, |ds, dk| {
            for (ii, inputs) in ins.iter().enumerate() {
                if ii > 0 && ds.len() > 1 {
                    break;
                }
                let key = format!("{}|h|d{}|i{}", s.name, dk, ii);
                if !ctx.begin(&key) {
                    continue;
                }
                hydrate_case(ctx, &s, &real, ds, None, inputs, &key, false);
                let got = match ctx.guarded(|| real.hydrate(ds, None, inputs).map(|v| Tree::of_typed(&v))) {
                    Ok(r) => r,
                    Err(p) => {
                        ctx.violate(&key, "hydration of a sum crashed", json!({"sum": bare(&s.main), "panic": p}));
                        continue;
                    }
                };
                let mut alone = vec![];
                for i in combo {
                    alone.push(match ctx.guarded(|| sreal[*i].hydrate(ds, None, inputs).map(|v| Tree::of_typed(&v))) {
                        Ok(Ok(t)) => Alone::Accepts(t),
                        Ok(Err(HErr::Ambiguous)) => Alone::Ambiguous,
                        _ => Alone::Rejects,
                    });
                }
                ctx.trace();
                let accepting: Vec<(usize, &Tree)> =
                    alone.iter().enumerate().filter_map(|(i, a)| if let Alone::Accepts(t) = a { Some((i, t)) } else { None }).collect();
                let ambiguous = alone.iter().any(|a| matches!(a, Alone::Ambiguous));
                let ok = match &got {
                    Ok(Tree::Var(i, t)) => !ambiguous && accepting.len() == 1 && accepting[0].0 == *i as usize && strip(accepting[0].1) == **t,
                    Ok(_) => false,
                    Err(_) => ambiguous || accepting.len() != 1,
                };
                if !ok {
                    ctx.violate(&key, "a sum does not behave as its only accepting variant (reading)",
                        json!({"sum": bare(&s.main), "dataset": show_ds(ds), "inputs": show_terms(inputs), "sum_result": show_h(&got),
                               "variants_alone": alone.iter().map(|a| match a { Alone::Accepts(t) => t.show(), Alone::Rejects => "rejects".into(), Alone::Ambiguous => "ambiguous".into() }).collect::<Vec<_>>()}));
                }
            }
        });
        // ---- writing
        for (vi, v) in values(&s, false).iter().enumerate() {
            let key = format!("{}|d|v{}", s.name, vi);
            if !ctx.begin(&key) {
                continue;
            }
            dehydrate_case(ctx, &s, &real, v, &key);
            let val = v.to_value();
            let got = match ctx.guarded(|| real.dehydrate(&val)) {
                Ok(r) => r,
                Err(p) => {
                    ctx.violate(&key, "dehydration of a sum crashed", json!({"sum": bare(&s.main), "panic": p}));
                    continue;
                }
            };
            let alone: Vec<Option<(Ds, Vec<Term>)>> = combo.iter().map(|i| ctx.guarded(|| sreal[*i].dehydrate(&val)).ok().and_then(|r| r.ok())).collect();
            ctx.trace();
            let accepting: Vec<&(Ds, Vec<Term>)> = alone.iter().flatten().collect();
            let ok = match &got {
                Ok(r) => accepting.len() == 1 && iso(&r.0, &r.1, &accepting[0].0, &accepting[0].1, false),
                // conflicting terms within a variant only show once the whole value is processed
                Err(_) => accepting.len() != 1,
            };
            if !ok && !conflicting(&lib, combo, v) {
                ctx.violate(&key, "a sum does not behave as its only accepting variant (writing)",
                    json!({"sum": bare(&s.main), "value": v.show(),
                        "sum_result": match &got { Ok(r) => json!({"dataset": show_ds(&r.0), "inputs": show_terms(&r.1)}), Err(e) => json!(e) },
                        "variants_alone": alone.iter().map(|a| a.as_ref().map(|r| json!({"dataset": show_ds(&r.0), "inputs": show_terms(&r.1)}))).collect::<Vec<_>>()}));
            }
        }
    });
    // ---- sums inside other layouts
    let mut inner: Vec<Sys> = vec![];
    let pick: Vec<usize> = if ctx.quick() { vec![0, 3, 5, 7, 11, 13, 17, 23] } else { (0..lib.len()).collect() };
    for &i in &pick {
        for &j in &pick {
            let l = a_sum(&[&lib[i].1, &lib[j].1]);
            let nm = format!("{}|{}", lib[i].0, lib[j].0);
            inner.push(sys(&format!("rec(sum({nm}))"), record(vec![("f", prop(1, "p", l.clone()), true), ("g", prop(1, "s", l.clone()), false)])));
            inner.push(sys(&format!("set(sum({nm}))"), set("p", l.clone())));
            inner.push(sys(&format!("list(sum({nm}))"), rdf_list(l.clone())));
            inner.push(sys(&format!("self(sum({nm}))"), record(vec![("f", on_self(l.clone()), true), ("id", on_self(l_id()), false)])));
        }
    }
    let budget = ctx.bound(150, 4_000);
    ctx.par(&inner, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let pool = quad_pool(s, false);
        let ins = inputs_of(s);
        each_ds(ctx, &pool, budget, 6, |ds, dk| {
            let key = format!("{}|h|d{}", s.name, dk);
            if ctx.begin(&key) {
                hydrate_case(ctx, s, &real, ds, None, &ins, &key, false);
            }
        });
        for (vi, v) in values(s, false).iter().enumerate() {
            let key = format!("{}|d|v{}", s.name, vi);
            if ctx.begin(&key) {
                dehydrate_case(ctx, s, &real, v, &key);
            }
        }
    });
}

/// Does a variant accept `v` by itself while giving conflicting terms to the
/// same resource (reported for the whole value only)?
fn conflicting(lib: &[(&str, Comp)], combo: &[usize], v: &Tree) -> bool {
    combo.iter().any(|i| matches!(m_dehydrate(&sys("x", a_sum(&[&lib[*i].1])), v), Err(DErr::TermAmbiguity)))
}
