//! C03, C04, C07: hydration and dehydration against the reference semantics.
use crate::{fam::*, model::*, real::*, rt::Ctx};
use rdf_types::Term;
use serde_json::json;

/// All datasets of the pool up to the size allowed by the budget.
pub fn each_ds(ctx: &Ctx, pool: &[Q4], budget: u64, max: usize, mut f: impl FnMut(&Ds, &str)) -> usize {
    let k = depth_for(pool.len(), budget, max);
    subsets(pool.len(), k, &mut |ix| {
        let ds: Ds = ix.iter().map(|i| pool[*i].clone()).collect();
        let key = ix.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".");
        f(&ds, &key);
        !ctx.saturated()
    });
    k
}

pub fn input_choices(s: &Sys) -> Vec<Vec<Term>> {
    let base = inputs_of(s);
    let mut out = vec![base.clone()];
    // literal leaves are read from a literal input
    if base.len() == 1 {
        match &s.main.k {
            K::Str(V(0), _) | K::Bool(V(0), _) | K::Num(V(0), _) | K::Bytes(V(0), _) | K::Id(V(0)) | K::Sum(_) | K::Unit(_) => {
                for t in [
                    blank("x"), s_lit("s"), xsd("true", "boolean"), xsd("maybe", "boolean"), xsd("-1.50", "decimal"), xsd("12", "integer"),
                    xsd("zz", "integer"), lang("s", "en"), lit("v", "http://e/dt"), xsd("1.5", "double"), xsd("ff", "hexBinary"), s_lit("http://e/a"),
                    xsd("1", "boolean"), xsd("", "string"), xsd("+5", "integer"), xsd(".5", "decimal"), xsd("1e2", "decimal"), xsd("true", "string"), nil(),
                ] {
                    out.push(vec![t]);
                }
            }
            K::List(..) => {
                out.push(vec![nil()]);
                out.push(vec![blank("x")]);
            }
            _ => {}
        }
    }
    // too few and too many
    out.push(vec![ex("a"); base.len() + 1]);
    for k in 0..base.len() {
        out.push(base[..k].to_vec());
    }
    if base.len() == 2 {
        out.push(vec![ex("b"), ex("a")]);
        out.push(vec![ex("a"), ex("a")]);
    }
    out
}

pub fn hydrate_case(ctx: &Ctx, s: &Sys, real: &Real, ds: &Ds, g: Option<&Term>, inputs: &[Term], key: &str, total_only: bool) {
    ctx.state();
    let got = ctx.guarded(|| real.hydrate(ds, g, inputs).map(|v| Tree::of_typed(&v)));
    let detail = |got: String, want: String| {
        json!({"layout": s.main.json(), "named": s.named.values().map(|l| l.json()).collect::<Vec<_>>(),
               "dataset": show_ds(ds), "graph": g.map(|g| g.to_string()), "inputs": inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>(),
               "real": got, "reference": want})
    };
    match got {
        Err(p) => {
            ctx.violate(key, "hydration crashed", detail(p, "a value or an error".into()))
        }
        Ok(r) => {
            if total_only {
                ctx.trace();
                return;
            }
            let m = m_hydrate(s, ds, g, inputs);
            ctx.trace();
            if m.is_ok() && !ds.is_empty() {
                ctx.sample(|| detail(show_h(&r), show_m(&m)));
            }
            ctx.count(if m.is_ok() { "accepted" } else { "rejected" }, 1);
            if !same_h(&r, &m) {
                ctx.violate(key, "hydration differs from the reference semantics", detail(show_h(&r), show_m(&m)));
            }
        }
    }
}

pub fn load_or_report(ctx: &Ctx, s: &Sys) -> Option<Real> {
    let key = format!("load:{}", s.name);
    if !ctx.only.as_ref().map(|o| o.starts_with(&s.name)).unwrap_or(true) && ctx.only.as_deref() != Some(&key) {
        return None;
    }
    match ctx.guarded(|| load(s)) {
        Ok(Ok(r)) => Some(r),
        Ok(Err(e)) | Err(e) => {
            ctx.violate(&key, "a well-formed layout is not accepted", json!({"layout": s.main.json(), "error": e}));
            None
        }
    }
}

pub fn c03(ctx: &Ctx) {
    crate::pats::hydrate_patterns(ctx, false);
    crate::lits::hydrate_literals(ctx, false);
    let mut systems = faithful(ctx.bound(2, 3));
    systems.extend(adversarial());
    systems.extend(faithful(1).iter().map(crate::pats::share).collect::<Vec<_>>());
    let budget = ctx.bound(4_000, 120_000);
    ctx.par(&systems, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        for wide in [false, true] {
            let pool = quad_pool(s, wide);
            let ins = input_choices(s);
            each_ds(ctx, &pool, budget, 7, |ds, dk| {
                for (ii, inputs) in ins.iter().enumerate() {
                    if ii > 0 && ds.len() > 2 {
                        break;
                    }
                    let key = format!("{}|w{}|d{}|i{}", s.name, wide as u8, dk, ii);
                    if ctx.begin(&key) {
                        hydrate_case(ctx, s, &real, ds, None, inputs, &key, false);
                    }
                }
            });
        }
    });
}

pub fn c07(ctx: &Ctx) {
    crate::pats::hydrate_patterns(ctx, true);
    crate::lits::hydrate_literals(ctx, true);
    crate::lits::dehydrate_total(ctx);
    let mut systems = adversarial();
    systems.extend(faithful(ctx.bound(1, 3)));
    let budget = ctx.bound(3_000, 60_000);
    ctx.par(&systems, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let pool = quad_pool(s, true);
        let ins = input_choices(s);
        each_ds(ctx, &pool, budget, 6, |ds, dk| {
            for (ii, inputs) in ins.iter().enumerate() {
                if ii > 0 && ds.len() > 2 {
                    break;
                }
                let key = format!("{}|h|d{}|i{}", s.name, dk, ii);
                if ctx.begin(&key) {
                    hydrate_case(ctx, s, &real, ds, None, inputs, &key, true);
                }
            }
        });
        for (vi, v) in values(s, true).iter().enumerate() {
            let key = format!("{}|d|v{}", s.name, vi);
            if ctx.begin(&key) {
                ctx.state();
                let val = v.to_value();
                match ctx.guarded(|| real.dehydrate(&val)) {
                    Ok(_) => ctx.trace(),
                    Err(p) => ctx.violate(&key, "dehydration crashed", json!({"layout": s.main.json(), "value": v.show(), "panic": p})),
                }
            }
        }
    });
}

pub fn dehydrate_case(ctx: &Ctx, s: &Sys, real: &Real, v: &Tree, key: &str) {
    ctx.state();
    let val = v.to_value();
    let got = match ctx.guarded(|| real.dehydrate(&val)) {
        Ok(r) => r,
        Err(p) => {
            ctx.violate(key, "dehydration crashed", json!({"layout": s.main.json(), "value": v.show(), "panic": p}));
            return;
        }
    };
    let want = m_dehydrate(s, v);
    ctx.trace();
    ctx.count(if want.is_ok() { "accepted" } else { "rejected" }, 1);
    let show = |r: &(Ds, Vec<Term>)| json!({"dataset": show_ds(&r.0), "inputs": r.1.iter().map(|t| t.to_string()).collect::<Vec<_>>()});
    let detail = || {
        json!({"layout": s.main.json(), "value": v.show(),
          "real": match &got { Ok(r) => show(r), Err(e) => json!(format!("error: {e}")) },
          "reference": match &want { Ok(r) => show(r), Err(e) => json!(format!("error: {e:?}")) }})
    };
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => iso(&a.0, &a.1, &b.0, &b.1, false),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !ok {
        ctx.violate(key, "dehydration differs from the reference semantics", detail());
    } else if matches!(&got, Ok(r) if r.0.len() > 1) {
        ctx.sample(detail);
    }
}

pub fn c04(ctx: &Ctx) {
    crate::lits::dehydrate_literals(ctx);
    let mut systems = faithful(ctx.bound(2, 3));
    systems.extend(adversarial());
    systems.extend(faithful(ctx.bound(1, 2)).iter().map(crate::pats::share).collect::<Vec<_>>());
    systems.extend(crate::pats::pattern_systems(!ctx.quick()).into_iter().map(|x| x.0));
    ctx.par(&systems, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        for (vi, v) in values(s, !ctx.quick()).iter().enumerate() {
            let key = format!("{}|v{}", s.name, vi);
            if ctx.begin(&key) {
                dehydrate_case(ctx, s, &real, v, &key);
            }
        }
    });
}
