//! Bounded families of layouts, datasets and values.
use crate::model::*;
use rdf_types::{Id, Term};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------ enumeration

/// Visits every subset of `pool` with at most `k` elements (as sorted index
/// lists). Stops when `f` returns false.
pub fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
    fn go(from: usize, n: usize, k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if cur.len() == k {
            return true;
        }
        for i in from..n {
            cur.push(i);
            let go_on = go(i + 1, n, k, cur, f);
            cur.pop();
            if !go_on {
                return false;
            }
        }
        true
    }
    go(0, n, k, &mut vec![], f);
}

/// Largest k such that the number of subsets of size <= k is within budget.
pub fn depth_for(n: usize, budget: u64, max: usize) -> usize {
    let mut total = 1u64;
    let mut c = 1u64;
    for k in 1..=max.min(n) {
        c = c * (n as u64 - k as u64 + 1) / k as u64;
        total += c;
        if total > budget {
            return k - 1;
        }
    }
    max.min(n)
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

// ------------------------------------------------------------ dataset pools

fn leaf_terms(l: &L, named: &BTreeMap<String, L>, depth: usize, wide: bool, out: &mut BTreeSet<Term>) {
    if depth > 4 {
        return;
    }
    match &l.k {
        K::Id(_) => {
            out.insert(ex("b"));
            out.insert(blank("x"));
            if wide {
                out.insert(s_lit("s"));
                out.insert(ex("c"));
            }
        }
        K::Str(_, dt) => {
            out.insert(lit("s", dt));
            out.insert(lit("t", dt));
            if wide {
                out.insert(ex("b"));
                out.insert(lang("s", "en"));
                out.insert(xsd("5", "integer"));
            }
        }
        K::Bool(_, dt) => {
            out.insert(lit("true", dt));
            out.insert(lit("0", dt));
            if wide {
                out.insert(lit("maybe", dt));
                out.insert(s_lit("true"));
            }
        }
        K::Num(_, dt) => {
            out.insert(lit("10", dt));
            out.insert(lit("9", dt));
            if wide {
                out.insert(lit("-0.50", dt));
                out.insert(lit("1e2", dt));
                out.insert(s_lit("9"));
            }
        }
        K::Bytes(_, dt) => {
            out.insert(lit("ff", dt));
        }
        K::Unit(_) => {
            out.insert(ex("b"));
        }
        K::Sum(vs) => {
            for (_, c) in vs {
                if c.ds.is_empty() {
                    lr_terms(&c.layout, named, depth + 1, wide, out)
                } else {
                    out.insert(ex("b"));
                }
            }
        }
        K::List(..) => {
            out.insert(nil());
            out.insert(ex("b"));
            out.insert(blank("x"));
        }
        _ => {
            out.insert(ex("b"));
            out.insert(blank("x"));
        }
    }
}
fn lr_terms(l: &LR, named: &BTreeMap<String, L>, depth: usize, wide: bool, out: &mut BTreeSet<Term>) {
    match l {
        LR::In(l) => leaf_terms(l, named, depth, wide, out),
        LR::Named(n) => {
            if let Some(l) = named.get(n) {
                leaf_terms(l, named, depth, wide, out)
            }
        }
    }
}

/// Type-directed pool of candidate quads for the layouts of `s`.
pub fn quad_pool(s: &Sys, wide: bool) -> Vec<Q4> {
    let mut out: BTreeSet<Q4> = BTreeSet::new();
    let mut graphs: BTreeSet<Option<Term>> = BTreeSet::new();
    graphs.insert(None);
    collect_graphs(&s.main, &mut graphs);
    for l in s.named.values() {
        collect_graphs(l, &mut graphs);
    }
    visit(&s.main, s, wide, true, &graphs, &mut out, 0);
    for l in s.named.values() {
        visit(l, s, wide, true, &graphs, &mut out, 0);
    }
    out.into_iter().collect()
}

fn collect_graphs(l: &L, out: &mut BTreeSet<Option<Term>>) {
    let mut pq = |q: &PQ| match &q.3 {
        Some(C(t)) => {
            out.insert(Some(t.clone()));
        }
        Some(V(_)) => {
            out.insert(Some(ex("g")));
            out.insert(Some(ex("h")));
        }
        None => {}
    };
    l.h.ds.iter().for_each(&mut pq);
    for c in l.comps() {
        c.ds.iter().for_each(&mut pq);
    }
    for c in l.comps() {
        match &c.graph {
            G::P(C(t)) => {
                out.insert(Some(t.clone()));
            }
            G::P(V(_)) => {
                out.insert(Some(ex("b")));
            }
            _ => {}
        }
        if let LR::In(l) = &c.layout {
            collect_graphs(l, out);
        }
    }
}

fn visit(
    l: &L,
    s: &Sys,
    wide: bool,
    top: bool,
    graphs: &BTreeSet<Option<Term>>,
    out: &mut BTreeSet<Q4>,
    depth: usize,
) {
    if depth > 4 {
        return;
    }
    let subj: Vec<Term> = if top { vec![ex("a"), ex("b")] } else { vec![ex("b"), blank("x")] };
    let add = |q: &PQ, objs: &BTreeSet<Term>, chain: bool, out: &mut BTreeSet<Q4>| {
        let ss: Vec<Term> = match &q.0 {
            C(t) => vec![t.clone()],
            V(_) if chain => vec![ex("a"), ex("b"), blank("x")],
            V(_) => subj.clone(),
        };
        let ps: Vec<Term> = match &q.1 {
            C(t) => vec![t.clone()],
            V(_) => vec![ex("p"), ex("q")],
        };
        let os: Vec<Term> = match &q.2 {
            C(t) => vec![t.clone(), ex("b")],
            V(_) => objs.iter().cloned().collect(),
        };
        for x in &ss {
            for y in &ps {
                for z in &os {
                    for g in graphs {
                        out.insert((x.clone(), y.clone(), z.clone(), g.clone()));
                    }
                }
            }
        }
    };
    let generic: BTreeSet<Term> = [ex("a"), ex("b")].into_iter().collect();
    for q in &l.h.ds {
        let mut objs = generic.clone();
        if let V(i) = &q.2 {
            if *i >= l.h.inputs {
                // the introduced resource may be the literal itself
                leaf_terms(l, &s.named, 0, wide, &mut objs);
            }
        }
        add(q, &objs, false, out);
    }
    let is_list = matches!(l.k, K::List(..));
    for c in l.comps() {
        for q in &c.ds {
            let mut objs = BTreeSet::new();
            match &q.2 {
                V(i) if c.input.contains(&V(*i)) => lr_terms(&c.layout, &s.named, 0, wide, &mut objs),
                V(_) if is_list => {
                    objs.extend([nil(), ex("a"), ex("b"), blank("x")]);
                }
                _ => objs.extend(generic.iter().cloned()),
            }
            add(q, &objs, is_list, out);
        }
        if let LR::In(inner) = &c.layout {
            let same_subject = c.input.first() == Some(&V(0));
            visit(inner, s, wide, top && same_subject, graphs, out, depth + 1);
        }
    }
}

// ------------------------------------------------------------ value spaces

/// Values for dehydration: conforming ones and near misses.
pub fn values(s: &Sys, rich: bool) -> Vec<Tree> {
    let mut v = vals(&s.main, s, if rich { 3 } else { 2 }, 0);
    v.extend([Tree::Unit, Tree::Bool(true), n(5), crate::model::s("s"), crate::model::s("http://e/a"), list([]), map([]), Tree::Bytes(vec![1])]);
    let set: BTreeSet<Tree> = v.into_iter().collect();
    set.into_iter().collect()
}

fn lr_vals(l: &LR, sy: &Sys, w: usize, depth: usize) -> Vec<Tree> {
    if depth > 6 {
        return vec![];
    }
    match l {
        LR::In(l) => vals(l, sy, w, depth),
        LR::Named(n) => match sy.named.get(n) {
            Some(l) => vals(l, sy, w, depth + 1),
            None => vec![crate::model::s("s")],
        },
    }
}

fn vals(l: &L, sy: &Sys, w: usize, depth: usize) -> Vec<Tree> {
    let take = |mut v: Vec<Tree>| {
        // deeper leaves use a smaller alphabet (good, good, bad)
        let k = if depth == 0 { v.len() } else { w.min(v.len()) };
        let bad = v.pop().unwrap();
        v.truncate(k);
        if depth <= 1 || w > 2 {
            v.push(bad);
        }
        v
    };
    match &l.k {
        K::Never | K::Always => vec![Tree::Unit, crate::model::s("s")],
        K::Id(_) => take(vec![
            crate::model::s("http://e/a"),
            crate::model::s("http://e/b"),
            crate::model::s("urn:c"),
            crate::model::s("not an iri"),
        ]),
        K::Unit(c) => vec![c.clone(), crate::model::s("other")],
        K::Bool(..) => take(vec![Tree::Bool(true), Tree::Bool(false), crate::model::s("true")]),
        K::Num(..) => take(vec![n(0), n(-7), dec(5, 2), dec(-1, 20), n(1 << 40), dec(1, 3)]),
        K::Str(..) => take(vec![crate::model::s("s"), crate::model::s(""), crate::model::s("http://e/a"), n(1)]),
        K::Bytes(..) => vec![Tree::Bytes(vec![1, 2])],
        K::Sum(vs) => {
            let mut out = vec![];
            for (_, c) in vs {
                out.extend(lr_vals(&c.layout, sy, w, depth));
            }
            out.sort();
            out.dedup();
            out
        }
        K::Record(fs) => {
            let mut acc: Vec<BTreeMap<Tree, Tree>> = vec![BTreeMap::new()];
            if depth > 3 {
                return vec![Tree::Map(BTreeMap::new())];
            }
            for (name, (c, _)) in fs {
                let vs = lr_vals(&c.layout, sy, if fs.len() > 2 { 2 } else { w }, depth + 1);
                let mut next = vec![];
                for m in &acc {
                    next.push(m.clone());
                    for v in &vs {
                        let mut m = m.clone();
                        m.insert(crate::model::s(name), v.clone());
                        next.push(m);
                    }
                }
                acc = next;
            }
            let mut out: Vec<Tree> = acc.iter().cloned().map(Tree::Map).collect();
            // unknown keys
            for m in acc.iter().take(8).chain(acc.last()) {
                let mut m = m.clone();
                m.insert(crate::model::s("zz"), crate::model::s("s"));
                out.push(Tree::Map(m));
            }
            let mut m = acc.last().unwrap().clone();
            m.insert(n(1), crate::model::s("s"));
            out.push(Tree::Map(m));
            out
        }
        K::Set(c) | K::List(_, _, c) => {
            if depth > 3 {
                return vec![list([])];
            }
            let vs = lr_vals(&c.layout, sy, w, depth + 1);
            let mut out = vec![list([])];
            for a in &vs {
                out.push(list([a.clone()]));
            }
            for a in vs.iter().take(12) {
                for b in vs.iter().take(12) {
                    out.push(list([a.clone(), b.clone()]));
                }
            }
            if depth == 0 {
                let few: Vec<&Tree> = vs.iter().take(3).collect();
                for a in &few {
                    for b in &few {
                        for c in &few {
                            out.push(list([(*a).clone(), (*b).clone(), (*c).clone()]));
                        }
                    }
                }
                for len in [4, 5] {
                    for start in 0..few.len() {
                        out.push(Tree::List((0..len).map(|i| few[(start + i) % few.len()].clone()).collect()));
                        out.push(Tree::List((0..len).map(|i| few[(start + i / 2) % few.len()].clone()).collect()));
                    }
                }
            }
            out
        }
        K::Tuple(cs) => {
            let mut acc: Vec<Vec<Tree>> = vec![vec![]];
            let mut out: Vec<Tree> = vec![];
            for c in cs {
                let vs = lr_vals(&c.layout, sy, w, depth + 1);
                out.extend(acc.iter().take(6).cloned().map(Tree::List)); // too short
                acc = acc
                    .iter()
                    .flat_map(|m| {
                        vs.iter().map(move |v| {
                            let mut m = m.clone();
                            m.push(v.clone());
                            m
                        })
                    })
                    .collect();
            }
            out.extend(acc.iter().cloned().map(Tree::List));
            for a in acc.iter().take(4) {
                let mut a = a.clone();
                a.push(crate::model::s("s"));
                out.push(Tree::List(a)); // too long
            }
            out
        }
    }
}

// ------------------------------------------------------------ layout families

/// Leaf layouts over one input.
pub fn leaves() -> Vec<(&'static str, L)> {
    vec![
        ("id", l_id()),
        ("str", l_str()),
        ("bool", l_bool()),
        ("int", l_num("integer")),
        ("dec", l_num("decimal")),
        ("unit", l_unit(Tree::Unit)),
    ]
}

fn rec_id(inner: Comp) -> L {
    record(vec![("id", on_self(l_id()), true), ("f", inner, false)])
}

/// Layouts whose components are told apart by the properties they use, so
/// that both round trips must be exact. `lvl` selects nesting depth.
pub fn faithful(lvl: usize) -> Vec<Sys> {
    let mut out: Vec<(String, L)> = vec![];
    let basic = vec![("id", l_id()), ("str", l_str()), ("bool", l_bool()), ("int", l_num("integer")), ("dec", l_num("decimal")), ("unit", l_unit(Tree::Unit))];
    // depth 1
    let mut d1: Vec<(String, L)> = vec![];
    for (nm, l) in &basic {
        d1.push((format!("rec!({nm})"), record(vec![("f", prop(1, "q", l.clone()), true)])));
        d1.push((format!("rec?({nm})"), record(vec![("f", prop(1, "q", l.clone()), false)])));
        d1.push((format!("recid({nm})"), rec_id(prop(1, "q", l.clone()))));
        d1.push((format!("set({nm})"), set("q", l.clone())));
        d1.push((format!("list({nm})"), rdf_list(l.clone())));
        d1.push((format!("tup({nm},str)"), tuple(vec![prop(1, "q", l.clone()), prop(1, "r", l_str())])));
    }
    d1.push((
        "rec2(str,int)".into(),
        record(vec![("g", prop(1, "q", l_str()), false), ("h", prop(1, "r", l_num("integer")), true)]),
    ));
    d1.push(("tup0".into(), tuple(vec![])));
    d1.push(("rec0".into(), record(vec![])));
    d1.push((
        "typed(rec)".into(),
        with_ds(
            record(vec![("f", prop(1, "q", l_str()), false)]),
            0,
            vec![PQ(V(0), C(ex("type")), C(ex("T")), None)],
        ),
    ));
    d1.push((
        "chain(rec)".into(),
        with_ds(
            record(vec![(
                "f",
                Comp {
                    intro: 1,
                    ds: vec![PQ(V(1), C(ex("q")), V(2), None)],
                    layout: LR::In(Box::new(l_str())),
                    input: vec![V(2)],
                    graph: G::Inherit,
                },
                true,
            )]),
            1,
            vec![PQ(V(0), C(ex("via")), V(1), None)],
        ),
    ));
    d1.push((
        "twohop(rec)".into(),
        record(vec![(
            "f",
            Comp {
                intro: 2,
                ds: vec![PQ(V(0), C(ex("via")), V(1), None), PQ(V(1), C(ex("q")), V(2), None)],
                layout: LR::In(Box::new(l_num("integer"))),
                input: vec![V(2)],
                graph: G::Inherit,
            },
            true,
        )]),
    ));
    let sv = |vs: Vec<(&str, L)>| sum(vs.into_iter().map(|(n, l)| (n, on_self(l))).collect());
    d1.push(("sum(str|id)".into(), sv(vec![("a", l_str()), ("b", l_id())])));
    d1.push(("sum(str|int|bool)".into(), sv(vec![("a", l_str()), ("b", l_num("integer")), ("c", l_bool())])));
    d1.push((
        "sum(recA|recB)".into(),
        sv(vec![
            ("a", record(vec![("x", prop(1, "q", l_str()), true)])),
            ("b", record(vec![("y", prop(1, "r", l_num("integer")), true)])),
        ]),
    ));
    d1.push((
        "sum(prop|prop)".into(),
        sum(vec![("a", prop(1, "q", l_str())), ("b", prop(1, "r", l_num("integer")))]),
    ));
    d1.push(("sum(str|rec)".into(), sv(vec![("a", l_str()), ("b", record(vec![("x", prop(1, "q", l_str()), true)]))])));
    // unit with a mark
    d1.push((
        "unitmark".into(),
        with_ds(l_unit(crate::model::s("k")), 0, vec![PQ(V(0), C(ex("q")), C(ex("mark")), None)]),
    ));
    // leaf with its own path
    d1.push((
        "strpath".into(),
        with_ds(leaf(K::Str(V(1), format!("{XSD}string"))), 1, vec![PQ(V(0), C(ex("q")), V(1), None)]),
    ));
    // two inputs
    d1.push((
        "rec2in".into(),
        L {
            id: None,
            h: Hdr { inputs: 2, intro: 0, ds: vec![] },
            k: K::Record(
                [
                    (
                        "f".to_owned(),
                        (
                            Comp {
                                intro: 1,
                                ds: vec![PQ(V(0), C(ex("q")), V(2), None), PQ(V(1), C(ex("r")), V(2), None)],
                                layout: LR::In(Box::new(l_str())),
                                input: vec![V(2)],
                                graph: G::Inherit,
                            },
                            true,
                        ),
                    ),
                    (
                        "g".to_owned(),
                        (Comp { input: vec![V(1)], ..on_self(l_id()) }, true),
                    ),
                ]
                .into_iter()
                .collect(),
            ),
        },
    ));
    for (nm, l) in &basic {
        out.push((nm.to_string(), l.clone()));
    }
    out.extend(d1.iter().cloned());
    let wrap = |nm: &str, l: &L| -> Vec<(String, L)> {
        let mut v = vec![
            (format!("rec!({nm})"), record(vec![("o", prop(1, "p", l.clone()), true)])),
            (format!("rec?({nm})"), record(vec![("o", prop(1, "p", l.clone()), false)])),
            (format!("set({nm})"), set("p", l.clone())),
            (format!("list({nm})"), rdf_list(l.clone())),
            (format!("tup(str,{nm})"), tuple(vec![prop(1, "s", l_str()), prop(1, "p", l.clone())])),
            (
                format!("recid2({nm})"),
                record(vec![("id", on_self(l_id()), true), ("o", prop(1, "p", l.clone()), false), ("n", prop(1, "s", l_str()), false)]),
            ),
        ];
        if nm.starts_with("rec!") || nm.starts_with("list") || nm.starts_with("tup(") {
            v.push((
                format!("sum({nm}|str)"),
                sum(vec![("m", prop(1, "p", l.clone())), ("n", prop(1, "s", l_str()))]),
            ));
        }
        v
    };
    if lvl >= 2 {
        for (nm, l) in d1.iter().filter(|(n, _)| n != "rec2in") {
            out.extend(wrap(nm, l));
        }
    }
    if lvl >= 3 {
        let pick = ["rec!(str)", "set(int)", "list(str)", "recid(id)", "sum(str|id)", "tup(id,str)"];
        for (nm, l) in d1.iter().filter(|(n, _)| pick.contains(&n.as_str())) {
            for (nm2, l2) in wrap(nm, l) {
                // fresh properties for the outer level
                for (k, o) in [
                    ("rec", record(vec![("u", prop(1, "u", l2.clone()), false)])),
                    ("set", set("u", l2.clone())),
                    ("list", rdf_list(l2.clone())),
                ] {
                    out.push((format!("{k}({nm2})"), o));
                }
            }
        }
    }
    let mut systems: Vec<Sys> = out.into_iter().map(|(nm, l)| sys(&nm, l)).collect();
    // recursive layouts
    let me = "http://e/layout/Tree".to_owned();
    let rec = L {
        id: Some(me.clone()),
        ..record(vec![
            ("v", prop(1, "q", l_str()), false),
            ("kids", Comp { layout: LR::Named(me.clone()), ..prop(1, "p", l_str()) }, false),
        ])
    };
    systems.push(Sys { name: "recursive(rec)".into(), main: rec.clone(), named: [(me.clone(), rec)].into_iter().collect() });
    systems
}

/// Layouts exercising overlap, ambiguity, odd patterns and unsupported parts;
/// not necessarily lossless.
pub fn adversarial() -> Vec<Sys> {
    let mut out: Vec<Sys> = vec![];
    let mut add = |n: &str, l: L| out.push(sys(n, l));
    for (nm, l) in leaves() {
        add(&format!("leaf:{nm}"), l.clone());
        add(
            &format!("leafself:{nm}"),
            with_ds(l.clone(), 0, vec![PQ(V(0), C(ex("p")), V(0), None)]),
        );
    }
    add("num:double", l_num("double"));
    add("bool:string", leaf(K::Bool(V(0), format!("{XSD}string"))));
    add("str:custom", leaf(K::Str(V(0), "http://e/dt".into())));
    add("bytes", leaf(K::Bytes(V(0), format!("{XSD}hexBinary"))));
    add("never", leaf(K::Never));
    add("always", leaf(K::Always));
    add("unit:5", l_unit(n(5)));
    add("unit:list", l_unit(list([crate::model::s("x"), n(1)])));
    add("unit:map", l_unit(map([("k", Tree::Bool(true))])));
    for (nm, l) in leaves() {
        add(&format!("viaconst:{nm}"), {
            let mut m = l.clone();
            let c = match &m.k {
                K::Id(_) => K::Id(C(ex("k"))),
                K::Str(_, d) => K::Str(C(lit("s", d)), d.clone()),
                K::Bool(_, d) => K::Bool(C(lit("true", d)), d.clone()),
                K::Num(_, d) => K::Num(C(lit("9", d)), d.clone()),
                o => o.clone(),
            };
            m.k = c;
            m
        });
    }
    // read on an introduced resource
    for (nm, l) in leaves().into_iter().chain([("bytes", leaf(K::Bytes(V(0), format!("{XSD}hexBinary"))))]) {
        let on = |x: usize| match l.k.clone() {
            K::Id(_) => K::Id(V(x)),
            K::Str(_, d) => K::Str(V(x), d),
            K::Bool(_, d) => K::Bool(V(x), d),
            K::Num(_, d) => K::Num(V(x), d),
            K::Bytes(_, d) => K::Bytes(V(x), d),
            k => k,
        };
        add(&format!("leafintro:{nm}"), with_ds(leaf(on(1)), 1, vec![PQ(V(0), C(ex("p")), V(1), None)]));
        add(&format!("leafchain:{nm}"), with_ds(leaf(on(2)), 2, vec![PQ(V(0), C(ex("p")), V(1), None), PQ(V(1), C(ex("q")), V(2), None)]));
    }
    // components on several resources
    let two = |k: K| L { id: None, h: Hdr { inputs: 2, intro: 0, ds: vec![] }, k };
    let at = |v: usize, p: &str, l: L| Comp { intro: 1, ds: vec![PQ(V(v), C(ex(p)), V(2), None)], layout: LR::In(Box::new(l)), input: vec![V(2)], graph: G::Inherit };
    let inner = || two(K::Record([("a".to_owned(), (at(0, "q", l_str()), true)), ("b".to_owned(), (at(1, "r", l_str()), false))].into_iter().collect()));
    for (nm, c) in [
        ("order", Comp { intro: 1, ds: vec![PQ(V(0), C(ex("p")), V(1), None)], layout: LR::In(Box::new(inner())), input: vec![V(0), V(1)], graph: G::Inherit }),
        ("swap", Comp { intro: 1, ds: vec![PQ(V(0), C(ex("p")), V(1), None)], layout: LR::In(Box::new(inner())), input: vec![V(1), V(0)], graph: G::Inherit }),
        ("const", Comp { intro: 1, ds: vec![PQ(V(0), C(ex("p")), V(1), None)], layout: LR::In(Box::new(inner())), input: vec![C(ex("a")), V(1)], graph: G::Inherit }),
        ("same", Comp { intro: 0, ds: vec![], layout: LR::In(Box::new(inner())), input: vec![V(0), V(0)], graph: G::Inherit }),
    ] {
        add(&format!("two:{nm}:record"), record(vec![("f", c.clone(), true)]));
        add(&format!("two:{nm}:tuple"), tuple(vec![c.clone()]));
        add(&format!("two:{nm}:set"), leaf(K::Set(c.clone())));
        add(&format!("two:{nm}:sum"), sum(vec![("a", c)]));
    }
    // same property twice
    add("rec:dup", record(vec![("f", prop(1, "q", l_str()), false), ("g", prop(1, "q", l_str()), true)]));
    // unconstrained introduced variable used as input
    add("rec:free", record(vec![("f", Comp { ds: vec![], ..prop(1, "q", l_str()) }, false)]));
    add("set:free", leaf(K::Set(Comp { ds: vec![], ..prop(1, "q", l_str()) })));
    add("tup:free", tuple(vec![Comp { ds: vec![], ..prop(1, "q", l_id()) }]));
    add("str:free", with_ds(leaf(K::Str(V(1), format!("{XSD}string"))), 1, vec![]));
    add("id:free", with_ds(leaf(K::Id(V(1))), 1, vec![]));
    add("int:free", with_ds(leaf(K::Num(V(1), format!("{XSD}integer"))), 1, vec![]));
    add("list:freetail", {
        let mut l = rdf_list(l_str());
        l.h.intro = 1;
        if let K::List(_, _, c) = &mut l.k {
            c.ds = vec![PQ(V(2), C(first()), V(4), None), PQ(V(2), C(rest()), V(3), None)];
            c.input = vec![V(4)];
        }
        if let K::List(h, t, c) = l.k.clone() {
            let _ = t;
            l.k = K::List(h, V(1), c);
        }
        l
    });
    add("list:norest", {
        let mut l = rdf_list(l_str());
        if let K::List(_, _, c) = &mut l.k {
            c.ds = vec![PQ(V(1), C(first()), V(3), None)];
        }
        l
    });
    add("list:constnode", {
        let mut l = rdf_list(l_str());
        if let K::List(_, _, c) = &mut l.k {
            c.intro = 0;
            c.ds = vec![PQ(V(1), C(rest()), V(2), None)];
            c.input = vec![V(1)];
            c.layout = LR::In(Box::new(l_id()));
        }
        l
    });
    add("list:headconst", {
        let mut l = rdf_list(l_id());
        if let K::List(_, _, c) = l.k.clone() {
            l.k = K::List(C(ex("b")), V(0), c);
        }
        l
    });
    // wrong input counts
    add(
        "rec:arity",
        record(vec![("f", Comp { input: vec![V(0), V(1)], ..prop(1, "q", record(vec![])) }, false)]),
    );
    add("rec:noinput", record(vec![("f", Comp { input: vec![], ..prop(1, "q", record(vec![])) }, false)]));
    for (nm, l) in leaves() {
        add(&format!("rec:noinput({nm})"), record(vec![("f", Comp { input: vec![], ..prop(1, "q", l.clone()) }, false)]));
        add(&format!("set:noinput({nm})"), leaf(K::Set(Comp { input: vec![], ..prop(1, "q", l.clone()) })));
        add(&format!("sum:noinput({nm})"), sum(vec![("a", Comp { input: vec![], ..prop(1, "q", l.clone()) }), ("b", on_self(l_str()))]));
        add(&format!("tup:arity({nm})"), tuple(vec![Comp { input: vec![V(0), V(1)], ..prop(1, "q", l.clone()) }]));
        add(&format!("list:noinput({nm})"), {
            let mut x = rdf_list(l.clone());
            if let K::List(_, _, c) = &mut x.k {
                c.input = vec![];
            }
            x
        });
    }
    // dangling reference
    add(
        "rec:dangling",
        record(vec![("f", Comp { layout: LR::Named("http://e/layout/none".into()), ..prop(1, "q", l_str()) }, false)]),
    );
    add(
        "set:dangling",
        leaf(K::Set(Comp { layout: LR::Named("http://e/layout/none".into()), ..prop(1, "q", l_str()) })),
    );
    add("rec:never", record(vec![("f", prop(1, "q", leaf(K::Never)), false)]));
    add("rec:always", record(vec![("f", prop(1, "q", leaf(K::Always)), false)]));
    add("set:always", set("q", leaf(K::Always)));
    // conflicting identities
    add("rec:ids", record(vec![("f", on_self(l_id()), false), ("g", on_self(l_id()), false)]));
    add("rec:idlit", record(vec![("f", on_self(l_id()), false), ("g", on_self(l_str()), false)]));
    add(
        "sum:overlap",
        sum(vec![("a", on_self(l_str())), ("b", on_self(l_str())), ("c", on_self(l_num("integer")))]),
    );
    add("sum:empty", sum(vec![]));
    add("sum:varpath", sum(vec![("a", prop(1, "p", l_str())), ("b", prop(1, "p", l_id()))]));
    add("sum:intro", {
        let mut l = sum(vec![("a", prop(2, "q", l_str())), ("b", prop(2, "r", l_str()))]);
        l.h.intro = 1;
        l.h.ds = vec![PQ(V(0), C(ex("p")), V(1), None)];
        if let K::Sum(vs) = &mut l.k {
            for (_, c) in vs {
                c.ds[0].0 = V(1);
            }
        }
        l
    });
    add(
        "rec:predvar",
        record(vec![(
            "f",
            Comp {
                intro: 2,
                ds: vec![PQ(V(0), V(1), V(2), None)],
                layout: LR::In(Box::new(l_id())),
                input: vec![V(1)],
                graph: G::Inherit,
            },
            false,
        )]),
    );
    add(
        "rec:constobj",
        record(vec![(
            "f",
            Comp {
                intro: 0,
                ds: vec![PQ(V(0), C(ex("p")), C(s_lit("s")), None)],
                layout: LR::In(Box::new(l_unit(Tree::Bool(true)))),
                input: vec![V(0)],
                graph: G::Inherit,
            },
            false,
        )]),
    );
    add(
        "rec:langobj",
        record(vec![(
            "f",
            Comp {
                intro: 0,
                ds: vec![PQ(V(0), C(ex("p")), C(lang("s", "en")), None)],
                layout: LR::In(Box::new(l_unit(Tree::Bool(true)))),
                input: vec![V(0)],
                graph: G::Inherit,
            },
            true,
        )]),
    );
    // recursion
    for (nm, req) in [("opt", false), ("req", true)] {
        let me = "http://e/layout/R".to_owned();
        let rec = L {
            id: Some(me.clone()),
            ..record(vec![("k", Comp { layout: LR::Named(me.clone()), ..prop(1, "p", l_str()) }, req)])
        };
        out.push(Sys { name: format!("recursive:{nm}"), main: rec.clone(), named: [(me, rec)].into_iter().collect() });
    }
    {
        let me = "http://e/layout/S".to_owned();
        let rec = L { id: Some(me.clone()), ..leaf(K::Set(Comp { layout: LR::Named(me.clone()), ..prop(1, "p", l_str()) })) };
        out.push(Sys { name: "recursive:set".into(), main: rec.clone(), named: [(me, rec)].into_iter().collect() });
    }
    {
        // a layout that is its own variant: no data can ever satisfy it
        let me = "http://e/layout/V".to_owned();
        let rec = L {
            id: Some(me.clone()),
            ..sum(vec![
                ("a", Comp { layout: LR::Named(me.clone()), ..on_self(l_str()) }),
                ("b", on_self(l_str())),
            ])
        };
        out.push(Sys { name: "recursive:sum".into(), main: rec.clone(), named: [(me, rec)].into_iter().collect() });
    }
    out
}

pub fn inputs_of(s: &Sys) -> Vec<Term> {
    let k = match s.main.k {
        K::Never | K::Always => 1,
        _ => s.main.h.inputs,
    };
    [ex("a"), ex("b"), ex("c")][..k].to_vec()
}

pub fn is_iri(t: &Term) -> bool {
    matches!(t, Term::Id(Id::Iri(_)))
}
