//! C18: layouts written as Rust types with derive attributes.
//!
//! `emit` turns a family of layouts into the source of the types (committed
//! as /verif/derive/src/types.rs and compared with what is emitted).
use crate::{fam::*, graphs, model::*, pats, sums};
use rdf_types::{Id, Term};
use std::collections::BTreeMap;
use std::fmt::Write;

/// How the types are written.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// Rust's own types for leaves, defaults and property shorthands
    Short,
    /// a type for each leaf, every attribute written out
    Long,
}

pub struct DSys {
    pub sys: Sys,
    pub style: Style,
}

// ------------------------------------------------------------- what is expressible

fn iri_or_var(p: &Pat) -> bool {
    matches!(p, V(_) | C(Term::Id(Id::Iri(_))))
}
fn ds_ok(ds: &[PQ]) -> bool {
    ds.iter().all(|q| iri_or_var(&q.0) && iri_or_var(&q.1) && iri_or_var(&q.2) && q.3.as_ref().map_or(true, iri_or_var))
}
fn plain(l: &L) -> bool {
    l.h == h1() && matches!(l.k, K::Id(V(0)) | K::Str(V(0), _) | K::Num(V(0), _))
}

fn rust_l(l: &L, s: &Sys, st: Style) -> Option<L> {
    if !ds_ok(&l.h.ds) {
        return None;
    }
    let comp = |c: &Comp| -> Option<Comp> {
        if !ds_ok(&c.ds) || !c.input.iter().all(iri_or_var) || !matches!(&c.graph, G::Inherit | G::Default | G::P(V(_) | C(Term::Id(Id::Iri(_))))) {
            return None;
        }
        let (layout, n) = match &c.layout {
            LR::In(l) => {
                let l = rust_l(l, s, st)?;
                let n = l.h.inputs;
                (LR::In(Box::new(l)), n)
            }
            LR::Named(n) => (LR::Named(n.clone()), s.named.get(n)?.h.inputs),
        };
        // the number of inputs is part of the type
        (n == c.input.len()).then(|| Comp { layout, ..c.clone() })
    };
    let k = match &l.k {
        K::Never | K::Always | K::Bytes(..) => return None,
        K::Id(p) => iri_or_var(p).then(|| l.k.clone())?,
        K::Unit(_) => K::Unit(Tree::Unit),
        K::Bool(p, d) => (iri_or_var(p) && *d == format!("{XSD}boolean")).then(|| l.k.clone())?,
        K::Str(p, _) => iri_or_var(p).then(|| l.k.clone())?,
        K::Num(p, d) => {
            if !iri_or_var(p) {
                return None;
            }
            let d = match d.strip_prefix(XSD)? {
                "integer" if st == Style::Short && plain(l) => "int",
                "integer" => "integer",
                "decimal" => "unsignedByte",
                _ => return None,
            };
            K::Num(p.clone(), format!("{XSD}{d}"))
        }
        K::Record(f) => K::Record(f.iter().map(|(n, (c, r))| Some((n.clone(), (comp(c)?, *r)))).collect::<Option<_>>()?),
        K::Sum(v) => {
            let v: Vec<_> = v.iter().filter(|(_, c)| !matches!(&c.layout, LR::In(l) if matches!(l.k, K::Never))).collect();
            if v.is_empty() {
                return None;
            }
            K::Sum(v.into_iter().map(|(n, c)| Some((n.clone(), comp(c)?))).collect::<Option<_>>()?)
        }
        K::Set(c) => K::Set(comp(c)?),
        K::List(h, t, c) => {
            if !iri_or_var(h) || !iri_or_var(t) {
                return None;
            }
            K::List(h.clone(), t.clone(), comp(c)?)
        }
        K::Tuple(v) => K::Tuple(v.iter().map(comp).collect::<Option<_>>()?),
    };
    Some(L { id: l.id.clone(), h: l.h.clone(), k })
}

/// A Rust type contains itself only through a `Vec`.
fn finite(l: &L, s: &Sys, seen: &mut Vec<String>) -> bool {
    let by_value: Vec<&Comp> = match &l.k {
        K::Record(_) | K::Sum(_) | K::Tuple(_) => l.comps(),
        _ => vec![],
    };
    by_value.into_iter().all(|c| match &c.layout {
        LR::In(l) => finite(l, s, seen),
        LR::Named(n) => {
            if seen.contains(n) {
                return false;
            }
            seen.push(n.clone());
            let ok = finite(&s.named[n], s, seen);
            seen.pop();
            ok
        }
    })
}

pub fn rust_sys(s: &Sys, st: Style) -> Option<Sys> {
    let mut named = BTreeMap::new();
    for (n, l) in &s.named {
        named.insert(n.clone(), rust_l(l, s, st)?);
    }
    let main = rust_l(&s.main, s, st)?;
    let out = Sys { name: format!("{}~{st:?}", s.name), main, named };
    let mut seen: Vec<String> = out.main.id.iter().cloned().collect();
    finite(&out.main, &out, &mut seen).then_some(out)
}

/// The family.
pub fn systems() -> Vec<DSys> {
    let mut all: Vec<(Sys, usize)> = vec![];
    for s in faithful(1) {
        all.push((s, 2));
    }
    // a few of the nested ones, every layout of the first level in two of them
    let l2 = faithful(2);
    for (i, s) in l2[faithful(1).len() - 1..].iter().enumerate() {
        if i % 4 == 1 {
            all.push((s.clone(), i / 4 % 2));
        }
    }
    for s in adversarial() {
        all.push((s, 2));
    }
    for (i, s) in graphs::systems(false).into_iter().enumerate() {
        if i % 3 == 0 || s.name.contains("list") {
            all.push((s, 1 - i % 2));
        }
    }
    for (i, (s, _, _)) in pats::pattern_systems(false).into_iter().enumerate() {
        if i % 17 == 0 {
            all.push((s, 1));
        }
    }
    let lib = sums::library();
    for (i, (a, x)) in lib.iter().enumerate() {
        for (b, y) in &lib[i + 1..] {
            if (a.len() + b.len() + i) % 4 == 0 {
                all.push((sys(&format!("sum({a},{b})"), sum(vec![("a", x.clone()), ("b", y.clone())])), 0));
            }
        }
    }
    // recursion through a collection
    let me = "http://e/layout/Kids".to_owned();
    let kids = L { id: Some(me.clone()), ..leaf(K::Set(prop(1, "p", record(vec![("v", prop(1, "q", l_str()), false), ("kids", Comp { layout: LR::Named(me.clone()), ..on_self(l_str()) }, true)])))) };
    all.push((Sys { name: "recursive:kids".into(), main: kids.clone(), named: [(me, kids)].into_iter().collect() }, 2));
    // names Rust reserves
    all.push((sys("keywords", record(vec![("type", prop(1, "p", l_str()), true), ("match", prop(1, "q", l_id()), false)])), 2));
    all.push((sys("keywords:sum", sum(vec![("box", prop(1, "p", l_str())), ("move", prop(1, "q", l_id()))])), 2));
    let mut out: Vec<DSys> = vec![];
    for (s, w) in all {
        for (i, style) in [Style::Short, Style::Long].into_iter().enumerate() {
            if w == 2 || w == i {
                if let Some(sys) = rust_sys(&s, style) {
                    if !out.iter().any(|o| o.sys.main == sys.main && o.sys.named == sys.named && o.style == style) {
                        out.push(DSys { sys, style });
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------- emission

struct Emit {
    out: String,
    memo: Vec<(String, String)>,
    count: usize,
}

fn var(i: usize, l: &L, st: Style) -> String {
    if st == Style::Short && i == 0 && l.h.inputs == 1 {
        "self".into()
    } else {
        format!("v{i}")
    }
}
fn short_iri(t: &str, st: Style) -> String {
    match t.strip_prefix("http://e/") {
        Some(x) if st == Style::Short => format!("ex:{x}"),
        _ => t.to_owned(),
    }
}
fn pat(p: &Pat, l: &L, st: Style) -> String {
    match p {
        V(i) => format!("\"_:{}\"", var(*i, l, st)),
        C(Term::Id(Id::Iri(i))) => format!("{:?}", short_iri(i.as_str(), st)),
        C(_) => unreachable!(),
    }
}
fn quads(ds: &[PQ], l: &L, st: Style) -> String {
    let q: Vec<String> = ds
        .iter()
        .map(|q| {
            let mut v = vec![pat(&q.0, l, st), pat(&q.1, l, st), pat(&q.2, l, st)];
            v.extend(q.3.as_ref().map(|g| pat(g, l, st)));
            format!("({})", v.join(", "))
        })
        .collect();
    format!("dataset({})", q.join(", "))
}
fn names(from: usize, n: usize, l: &L, st: Style) -> String {
    (from..from + n).map(|i| format!("{:?}", var(i, l, st))).collect::<Vec<_>>().join(", ")
}

fn keyword(n: &str) -> bool {
    ["type", "match", "box", "move"].contains(&n)
}
pub fn ident(n: &str) -> String {
    if keyword(n) {
        format!("r#{n}")
    } else {
        n.to_owned()
    }
}

impl Emit {
    fn lr(&mut self, l: &LR, s: &Sys, st: Style) -> String {
        match l {
            LR::In(l) => self.ty(l, None, s, st),
            LR::Named(n) => self.ty(&s.named[n], Some(n), s, st),
        }
    }

    /// Attributes of a component.
    fn comp(&self, c: &Comp, l: &L, st: Style) -> String {
        let base = l.scope() + if matches!(l.k, K::List(..)) { 2 } else { 0 };
        let sum = matches!(l.k, K::Sum(_));
        if st == Style::Short && c.graph == G::Inherit && c.intro == 1 && c.input == [V(base)] {
            match (&l.k, &c.ds[..]) {
                (K::List(..), [PQ(V(a), C(f), V(b), None), PQ(V(a2), C(r), V(d), None)])
                    if *f == first() && *r == rest() && [*a, *b, *a2, *d] == [base - 2, base, base - 2, base - 1] =>
                {
                    return String::new();
                }
                (K::List(..), _) => {}
                (_, [PQ(V(0), C(Term::Id(Id::Iri(p))), V(o), None)]) if *o == base && l.h.inputs == 1 && !sum => {
                    return format!("#[tldr({:?})] ", short_iri(p.as_str(), st));
                }
                _ => {}
            }
        }
        let mut a = vec![];
        if matches!(l.k, K::List(..)) {
            a.push(format!("head({:?})", var(base - 2, l, st)));
            a.push(format!("rest({:?})", var(base - 1, l, st)));
        }
        a.push(format!("intro({})", names(base, c.intro, l, st)));
        if st == Style::Long || !c.ds.is_empty() || matches!(l.k, K::List(..)) {
            a.push(quads(&c.ds, l, st));
        }
        a.push(format!("input({})", c.input.iter().map(|p| pat(p, l, st)).collect::<Vec<_>>().join(", ")));
        match &c.graph {
            G::Inherit if st == Style::Long => a.push("graph(_)".into()),
            G::Inherit => {}
            G::Default => a.push("graph(None)".into()),
            G::P(p) => a.push(format!("graph(Some({}))", pat(p, l, st))),
        }
        format!("#[tldr({})] ", a.join(", "))
    }

    /// The Rust type of a layout.
    fn ty(&mut self, l: &L, name: Option<&str>, s: &Sys, st: Style) -> String {
        if st == Style::Short && plain(l) && name.is_none() {
            match &l.k {
                K::Id(_) => return "treeldr::rdf_types::Id".into(),
                K::Str(_, d) if *d == format!("{XSD}string") => return "String".into(),
                K::Num(_, d) if *d == format!("{XSD}int") => return "i32".into(),
                K::Num(_, d) if *d == format!("{XSD}unsignedByte") => return "u8".into(),
                _ => {}
            }
        }
        let key = match name {
            // what the name refers to depends on the system
            Some(n) => format!("{}|{n}", s.name),
            None if s.named.is_empty() => format!("{st:?}|{}", l.json()),
            None => format!("{st:?}|{}|{}", s.name, l.json()),
        };
        if let Some((_, t)) = self.memo.iter().find(|(k, _)| *k == key) {
            return t.clone();
        }
        let t = format!("T{}", self.count);
        self.count += 1;
        self.memo.push((key, t.clone()));

        let mut a: Vec<String> = vec![];
        let kind = match &l.k {
            K::Id(_) => "id",
            K::Unit(_) => "unit",
            K::Bool(..) => "boolean",
            K::Num(..) => "number",
            K::Str(..) => "string",
            K::Record(_) => "record",
            K::Sum(_) => "sum",
            K::Set(_) => "set",
            K::List(..) => "list",
            K::Tuple(_) => "tuple",
            _ => unreachable!(),
        };
        let implied = matches!(l.k, K::Unit(_) | K::Record(_) | K::Sum(_) | K::Tuple(_));
        if st == Style::Long || !implied {
            a.push(kind.into());
        }
        if st == Style::Short {
            a.push("prefix(\"ex\" = \"http://e/\")".into());
        }
        if st == Style::Long || l.h.inputs != 1 {
            a.push(format!("input({})", names(0, l.h.inputs, l, st)));
        }
        if st == Style::Long || l.h.intro != 0 {
            a.push(format!("intro({})", names(l.h.inputs, l.h.intro, l, st)));
        }
        if st == Style::Long || !l.h.ds.is_empty() {
            a.push(quads(&l.h.ds, l, st));
        }
        match &l.k {
            K::Id(p) => {
                if st == Style::Long || *p != V(0) {
                    a.push(format!("resource({})", pat(p, l, st)));
                }
            }
            K::Bool(p, d) | K::Str(p, d) | K::Num(p, d) => {
                if st == Style::Long || *p != V(0) || l.h.inputs != 1 {
                    a.push(format!("resource({})", pat(p, l, st)));
                }
                if st == Style::Long || matches!(l.k, K::Num(..)) || matches!(&l.k, K::Str(_, d) if *d != format!("{XSD}string")) {
                    a.push(format!("datatype({d:?})"));
                }
            }
            K::List(h, tl, _) => {
                if st == Style::Long || *h != V(0) {
                    a.push(format!("head({})", pat(h, l, st)));
                }
                if st == Style::Long || *tl != C(nil()) {
                    a.push(format!("tail({})", pat(tl, l, st)));
                }
            }
            _ => {}
        }
        let mut body = String::new();
        let glue;
        match &l.k {
            K::Id(_) => {
                body = format!("pub struct {t}(treeldr::rdf_types::Id);\nimpl treeldr::AsId for {t} {{ fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> {{ self.0.as_id() }} }}");
                glue = format!("leaf!({t});");
            }
            K::Unit(_) => {
                write!(body, "pub struct {t};").unwrap();
                glue = format!("unit!({t});");
            }
            K::Bool(..) | K::Str(..) | K::Num(..) => {
                let inner = match &l.k {
                    K::Bool(..) => "bool",
                    K::Str(..) => "String",
                    K::Num(_, d) => match d.strip_prefix(XSD).unwrap() {
                        "unsignedByte" => "u8",
                        "int" => "i32",
                        _ => "i64",
                    },
                    _ => unreachable!(),
                };
                write!(body, "pub struct {t}({inner});").unwrap();
                glue = format!("leaf!({t});");
            }
            K::Record(f) => {
                write!(body, "pub struct {t} {{").unwrap();
                let mut g = vec![];
                for (n, (c, r)) in f {
                    let ty = self.lr(&c.layout, s, st);
                    let ty = if *r { ty } else { format!("Option<{ty}>") };
                    write!(body, "\n\t{}{}: {ty},", self.comp(c, l, st), ident(n)).unwrap();
                    g.push(format!("{} {:?} {}", ident(n), n, if *r { "req" } else { "opt" }));
                }
                write!(body, "\n}}").unwrap();
                glue = format!("record!({t} {});", g.join(", "));
            }
            K::Sum(vs) => {
                write!(body, "pub enum {t} {{").unwrap();
                let mut g = vec![];
                for (i, (n, c)) in vs.iter().enumerate() {
                    let ty = self.lr(&c.layout, s, st);
                    write!(body, "\n\t{}{}({ty}),", self.comp(c, l, st), ident(n)).unwrap();
                    g.push(format!("{i} {}", ident(n)));
                }
                write!(body, "\n}}").unwrap();
                glue = format!("sum!({t} {});", g.join(", "));
            }
            K::Set(c) | K::List(_, _, c) => {
                let ty = self.lr(&c.layout, s, st);
                write!(body, "pub struct {t}({}Vec<{ty}>);", self.comp(c, l, st)).unwrap();
                glue = format!("items!({t});");
            }
            K::Tuple(cs) => {
                write!(body, "pub struct {t}(").unwrap();
                let mut g = vec![];
                for (i, c) in cs.iter().enumerate() {
                    let ty = self.lr(&c.layout, s, st);
                    write!(body, "{}{}{ty}", if i > 0 { ", " } else { "" }, self.comp(c, l, st)).unwrap();
                    g.push(i.to_string());
                }
                write!(body, ");").unwrap();
                glue = format!("tuple!({t} {} {});", cs.len(), g.join(" "));
            }
            _ => unreachable!(),
        }
        let attr = if a.is_empty() { String::new() } else { format!("#[tldr({})]\n", a.join(", ")) };
        writeln!(self.out, "#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]\n{attr}{body}\n{glue}").unwrap();
        t
    }
}

/// The source of the types of the family.
pub fn emit() -> String {
    let mut e = Emit { out: String::new(), memo: vec![], count: 0 };
    let mut table = String::new();
    for d in systems() {
        let t = match &d.sys.main.id {
            Some(id) if d.sys.named.contains_key(id) => {
                let l = d.sys.named[id].clone();
                e.ty(&l, Some(id), &d.sys, d.style)
            }
            _ => e.ty(&d.sys.main, None, &d.sys, d.style),
        };
        writeln!(table, "    ({:?}, ops::<{t}, {}>()),", d.sys.name, d.sys.main.h.inputs).unwrap();
    }
    format!(
        "// Written by `derive-mc --emit`; do not edit.\n#![allow(dead_code, non_camel_case_types, unused_variables, unused_mut, unused_must_use)]\nuse typed::*;\n\n{}\npub const ALL: &[(&str, Ops)] = &[\n{table}];\n",
        e.out
    )
}
