//! C01, C02: round trips through the real code.
use crate::{core::*, fam::*, model::*, rt::Ctx};
use rdf_types::Term;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

/// Is `back` the value `v` up to order and merging of equal items in the
/// unordered lists of layout `l`?
pub fn back_same(l: &L, named: &BTreeMap<String, L>, v: &Tree, back: &Tree) -> bool {
    let lr = |c: &Comp, v: &Tree, b: &Tree| match &c.layout {
        LR::In(l) => back_same(l, named, v, b),
        LR::Named(n) => named.get(n).map(|l| back_same(l, named, v, b)).unwrap_or(false),
    };
    match (&l.k, v, back) {
        (K::Record(fs), Tree::Map(a), Tree::Map(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, x), (j, y))| {
                    k == j
                        && match k {
                            Tree::Str(k) => fs.get(k).map(|(c, _)| lr(c, x, y)).unwrap_or(false),
                            _ => false,
                        }
                })
        }
        (K::Sum(vs), v, b) => vs.iter().any(|(_, c)| lr(c, v, b)),
        (K::Set(c), Tree::List(a), Tree::List(b)) => {
            // every item of one side has its counterpart, with no item more
            // often than it was given
            b.len() <= a.len() && a.iter().all(|x| b.iter().any(|y| lr(c, x, y))) && {
                // an injection of the items read back into those given
                fn inject(b: &[Tree], a: &[Tree], used: &mut Vec<bool>, lr: &dyn Fn(&Tree, &Tree) -> bool) -> bool {
                    let Some((y, rest)) = b.split_first() else { return true };
                    for i in 0..a.len() {
                        if !used[i] && lr(&a[i], y) {
                            used[i] = true;
                            if inject(rest, a, used, lr) {
                                return true;
                            }
                            used[i] = false;
                        }
                    }
                    false
                }
                inject(b, a, &mut vec![false; a.len()], &|x, y| lr(c, x, y))
            }
        }
        (K::List(_, _, c), Tree::List(a), Tree::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| lr(c, x, y)),
        (K::Tuple(cs), Tree::List(a), Tree::List(b)) => {
            a.len() == b.len() && a.len() == cs.len() && a.iter().zip(b).zip(cs).all(|((x, y), c)| lr(c, x, y))
        }
        (_, a, b) => a == b,
    }
}

/// Number of items that an unordered list may merge: those without an
/// identity of their own stay distinct nodes.
fn ids(v: &Tree, out: &mut Vec<String>) {
    match v {
        Tree::Map(m) => {
            for (k, x) in m {
                if let (Tree::Str(k), Tree::Str(x)) = (k, x) {
                    if k == "id" {
                        out.push(x.clone());
                    }
                }
                ids(x, out);
            }
        }
        Tree::List(l) | Tree::Bag(l) => l.iter().for_each(|x| ids(x, out)),
        Tree::Var(_, x) => ids(x, out),
        _ => {}
    }
}

pub fn repeated_identity(v: &Tree) -> bool {
    let mut o = vec![];
    ids(v, &mut o);
    let n = o.len();
    o.sort();
    o.dedup();
    o.len() < n
}

/// One value: written, read back.
pub fn value_case(ctx: &Ctx, s: &Sys, real: &crate::real::Real, v: &Tree, key: &str) {
    if m_dehydrate(s, v).is_err() {
        // not a value of the layout: the subject of C04
        ctx.count("not_accepted", 1);
        return;
    }
    if repeated_identity(v) {
        ctx.count("repeated_identity", 1);
        return;
    }
    ctx.state();
    let val = v.to_value();
    let detail = |x: serde_json::Value| json!({"layout": s.main.json(), "value": v.show(), "outcome": x});
    let (ds, ins) = match ctx.guarded(|| real.dehydrate(&val)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) | Err(e) => {
            ctx.violate(key, "an accepted value is not turned into RDF", detail(json!(e)));
            return;
        }
    };
    match ctx.guarded(|| real.hydrate(&ds, None, &ins).map(|v| Tree::of_value(&v.into_untyped()))) {
        Ok(Ok(b)) => {
            ctx.trace();
            if !back_same(&s.main, &s.named, v, &b) {
                ctx.violate(key, "the value read back differs", detail(json!({"dataset": show_ds(&ds), "back": b.show()})));
            } else if ds.len() > 1 {
                ctx.sample(|| detail(json!({"dataset": show_ds(&ds), "back": b.show()})));
            }
        }
        Ok(Err(e)) => ctx.violate(key, "the produced RDF cannot be read back", detail(json!({"dataset": show_ds(&ds), "inputs": show_terms(&ins), "error": format!("{e:?}")}))),
        Err(p) => ctx.violate(key, "reading back crashed", detail(json!({"dataset": show_ds(&ds), "panic": p}))),
    }
}

pub fn c01(ctx: &Ctx) {
    crate::lits::round_values(ctx);
    let systems = faithful(ctx.bound(2, 3));
    ctx.par(&systems, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        for (vi, v) in values(s, true).iter().enumerate() {
            let key = format!("{}|v{}", s.name, vi);
            if !ctx.begin(&key) {
                continue;
            }
            value_case(ctx, s, &real, v, &key);
        }
    });
}

pub fn show_terms(t: &[Term]) -> Vec<String> {
    t.iter().map(|t| t.to_string()).collect()
}

fn by_value(t: &Term) -> Term {
    if let Term::Literal(l) = t {
        if *t == xsd(&l.value, "boolean") {
            match l.value.as_str() {
                "1" => return xsd("true", "boolean"),
                "0" => return xsd("false", "boolean"),
                _ => {}
            }
        }
    }
    norm_term(t)
}

/// Can the blank nodes of `a` be read as nodes of `b` so that `a` is included
/// in `b` and the inputs correspond?
pub fn embeds(a: &Ds, va: &[Term], b: &Ds, vb: &[Term]) -> bool {
    let f = |ds: &Ds| -> Vec<Q4> { ds.iter().map(|q| (by_value(&q.0), by_value(&q.1), by_value(&q.2), q.3.as_ref().map(by_value))).collect() };
    let (a, b) = (f(a), f(b));
    let mut m: BTreeMap<Term, Term> = BTreeMap::new();
    for (x, y) in va.iter().zip(vb) {
        let (x, y) = (by_value(x), by_value(y));
        if x.is_blank() {
            match m.get(&x) {
                Some(z) if *z != y => return false,
                _ => {
                    m.insert(x, y);
                }
            }
        } else if x != y {
            return false;
        }
    }
    fn unify(x: &Term, y: &Term, m: &mut BTreeMap<Term, Term>, log: &mut Vec<Term>) -> bool {
        if x.is_blank() {
            match m.get(x) {
                Some(z) => z == y,
                None => {
                    m.insert(x.clone(), y.clone());
                    log.push(x.clone());
                    true
                }
            }
        } else {
            x == y
        }
    }
    fn go(a: &[Q4], b: &[Q4], m: &mut BTreeMap<Term, Term>) -> bool {
        let Some((q, rest)) = a.split_first() else { return true };
        for r in b {
            let mut log = vec![];
            let ok = unify(&q.0, &r.0, m, &mut log)
                && unify(&q.1, &r.1, m, &mut log)
                && unify(&q.2, &r.2, m, &mut log)
                && match (&q.3, &r.3) {
                    (None, None) => true,
                    (Some(x), Some(y)) => unify(x, y, m, &mut log),
                    _ => false,
                };
            if ok && go(rest, b, m) {
                return true;
            }
            for t in log {
                m.remove(&t);
            }
        }
        false
    }
    go(&a, &b, &mut m)
}

/// One dataset: read, written, read again.
pub fn data_case(ctx: &Ctx, s: &Sys, real: &crate::real::Real, ds: &Ds, inputs: &[Term], key: &str, seen: &mut BTreeSet<String>) {
    ctx.state();
    let Ok(Ok(v)) = ctx.guarded(|| real.hydrate(ds, None, inputs).map(|v| v.into_untyped())) else { return };
    ctx.count("hydrated", 1);
    let t = Tree::of_value(&v);
    let detail = |x: serde_json::Value| json!({"layout": s.main.json(), "dataset": show_ds(ds), "inputs": show_terms(inputs), "tree": t.show(), "outcome": x});
    let (d2, i2) = match ctx.guarded(|| real.dehydrate(&v)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) | Err(e) => {
            ctx.violate(key, "a hydrated tree cannot be dehydrated", detail(json!(e)));
            return;
        }
    };
    ctx.trace();
    if !embeds(&d2, &i2, ds, inputs) {
        ctx.violate(key, "dehydration asserts something the data did not contain", detail(json!({"dataset": show_ds(&d2), "inputs": show_terms(&i2)})));
        return;
    }
    match ctx.guarded(|| real.hydrate(&d2, None, &i2).map(|v| Tree::of_value(&v.into_untyped()))) {
        Ok(Ok(b)) if back_same(&s.main, &s.named, &t, &b) => {
            if ds.len() > 1 && seen.insert(t.show()) {
                ctx.sample(|| detail(json!({"dataset": show_ds(&d2)})));
            }
        }
        Ok(Ok(b)) => ctx.violate(key, "the tree is lost through dehydration", detail(json!({"dataset": show_ds(&d2), "back": b.show()}))),
        Ok(Err(e)) => ctx.violate(key, "the dehydrated tree cannot be hydrated again", detail(json!({"dataset": show_ds(&d2), "error": format!("{e:?}")}))),
        Err(p) => ctx.violate(key, "hydrating again crashed", detail(json!({"dataset": show_ds(&d2), "panic": p}))),
    }
}

pub fn c02(ctx: &Ctx) {
    crate::lits::round_literals(ctx);
    let mut systems = faithful(ctx.bound(2, 3));
    // an identifier and a text look the same in a tree: these variants are
    // told apart by the data but not by the trees
    systems.retain(|s| !s.name.contains("str|id"));
    let budget = ctx.bound(6_000, 150_000);
    ctx.par(&systems, |_, s| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for wide in [false, true] {
            let pool = quad_pool(s, wide);
            let ins = input_choices(s);
            each_ds(ctx, &pool, budget, 7, |ds, dk| {
                for (ii, inputs) in ins.iter().enumerate() {
                    if ii > 0 && ds.len() > 2 {
                        break;
                    }
                    let key = format!("{}|w{}|d{}|i{}", s.name, wide as u8, dk, ii);
                    if !ctx.begin(&key) {
                        continue;
                    }
                    data_case(ctx, s, &real, ds, inputs, &key, &mut seen);
                }
            });
        }
    });
}
