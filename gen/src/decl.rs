//! What is declared, under which name, and what is refused.
use mc::{
    dfam::Style,
    fam::*,
    gfam::{self, ident_of},
    graphs,
    model::*,
    pats,
    real::*,
    rt::Ctx,
    vocab::World,
};
use rdf_types::{Id, Term};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use treeldr_gen_rust::{Error, Options};
use treeldr_layouts::{
    abs,
    distill::RdfContext,
    layout::{Layout, LayoutType},
    Layouts, Literal, Ref, Value,
};

type Out = Result<String, Kind>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    MissingName,
    Field,
    Variant,
    NoIri,
    Number,
}

fn kind<R>(e: &Error<R>) -> Kind {
    match e {
        Error::MissingTypeIdentifier(_) => Kind::MissingName,
        Error::InvalidFieldIdent(_) => Kind::Field,
        Error::InvalidVariantIdent(_) => Kind::Variant,
        Error::NoIriRepresentation => Kind::NoIri,
        Error::UnsupportedNumberDatatype(_) => Kind::Number,
    }
}

fn generate(ctx: &Ctx, key: &str, layouts: &Layouts, r: &Ref<LayoutType>, options: &Options) -> Option<Out> {
    let got = ctx.guarded(|| treeldr_gen_rust::generate(RdfContext::default(), layouts, r, options).map(|t| t.to_string()).map_err(|e| kind(&e)));
    ctx.trace();
    got.map_err(|e| ctx.violate(key, "the generator crashed", json!({"layout": r.id().to_string(), "error": e}))).ok()
}

fn build(files: &[serde_json::Value]) -> Result<(Layouts, Vec<Ref<LayoutType>>), String> {
    let mut b = abs::Builder::new();
    let mut refs = vec![];
    for f in files {
        refs.push(parse_layout_serde(f)?.build(&mut b).map_err(|e| e.to_string())?);
    }
    Ok((b.build(), refs))
}

/// Words Rust reserves, whatever the edition.
const RESERVED: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match",
    "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
    "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized",
    "virtual", "yield", "try", "_",
];

fn valid_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_alphabetic() || c == '_') && c.all(|c| c.is_alphanumeric() || c == '_') && !RESERVED.contains(&s)
}

/// The item declared, which must come with nothing but implementations for it.
fn declared(tokens: &str) -> Result<(String, syn::Item), String> {
    let file: syn::File = syn::parse_str(tokens).map_err(|e| e.to_string())?;
    let mut item = None;
    let mut impls = vec![];
    for i in file.items {
        match i {
            syn::Item::Impl(i) => impls.push(match &*i.self_ty {
                syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => return Err("an implementation for something else".into()),
            }),
            i => {
                let (vis, id) = match &i {
                    syn::Item::Struct(s) => (&s.vis, &s.ident),
                    syn::Item::Enum(s) => (&s.vis, &s.ident),
                    syn::Item::Type(s) => (&s.vis, &s.ident),
                    _ => return Err("neither a type nor an implementation".into()),
                };
                if !matches!(vis, syn::Visibility::Public(_)) {
                    return Err("a private type".into());
                }
                if item.is_some() {
                    return Err("several types".into());
                }
                item = Some((id.to_string(), i));
            }
        }
    }
    let (id, item) = item.ok_or("no type")?;
    if impls.iter().any(|i| *i != id) {
        return Err("an implementation for something else".into());
    }
    Ok((id, item))
}

fn flat(t: &impl quote::ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// Components of the declaration: name and type.
fn parts(i: &syn::Item) -> Vec<(String, String)> {
    fn fields(f: &syn::Fields) -> Vec<(String, String)> {
        f.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map_or(i.to_string(), |i| i.to_string()), flat(&f.ty))).collect()
    }
    match i {
        syn::Item::Struct(s) => fields(&s.fields),
        syn::Item::Enum(e) => e
            .variants
            .iter()
            .map(|v| (v.ident.to_string(), fields(&v.fields).into_iter().map(|f| f.1).collect::<Vec<_>>().join(",")))
            .collect(),
        syn::Item::Type(t) => vec![("=".into(), flat(&t.ty))],
        _ => vec![],
    }
}

// ------------------------------------------------------------- systems

/// Every layout of a system, by IRI.
fn all(s: &Sys) -> BTreeMap<String, L> {
    fn go(l: &L, out: &mut BTreeMap<String, L>) {
        if let Some(id) = &l.id {
            out.insert(id.clone(), l.clone());
        }
        for c in l.comps() {
            if let LR::In(l) = &c.layout {
                go(l, out);
            }
        }
    }
    let mut out = BTreeMap::new();
    go(&s.main, &mut out);
    s.named.values().for_each(|l| go(l, &mut out));
    out
}

fn literal(p: &Pat) -> bool {
    matches!(p, C(t) if !matches!(t, Term::Id(Id::Iri(_))))
}
fn literals(d: &[PQ]) -> bool {
    d.iter().any(|q| literal(&q.0) || literal(&q.1) || literal(&q.2) || q.3.as_ref().is_some_and(literal))
}

/// What may be refused in a layout.
fn refusals(l: &L) -> BTreeSet<Kind> {
    let mut out = BTreeSet::new();
    let mut no_iri = literals(&l.h.ds);
    match &l.k {
        K::Never | K::Always | K::Unit(_) | K::Set(_) | K::Tuple(_) => {}
        K::Id(p) | K::Bool(p, _) | K::Str(p, _) | K::Bytes(p, _) => no_iri |= literal(p),
        K::Num(p, d) => {
            no_iri |= literal(p);
            if !gfam::NUMBERS.iter().any(|n| d.strip_prefix(XSD) == Some(n.0)) {
                out.insert(Kind::Number);
            }
        }
        K::List(h, t, _) => no_iri |= literal(h) || literal(t),
        K::Record(f) => {
            if !f.keys().all(|n| valid_ident(n)) {
                out.insert(Kind::Field);
            }
        }
        K::Sum(v) => {
            if !v.iter().all(|(n, _)| valid_ident(n)) {
                out.insert(Kind::Variant);
            }
        }
    }
    for c in l.comps() {
        no_iri |= literals(&c.ds) || c.input.iter().any(literal) || matches!(&c.graph, G::P(p) if literal(p));
        if matches!(&c.layout, LR::In(l) if l.id.is_none()) {
            out.insert(Kind::MissingName);
        }
    }
    if no_iri {
        out.insert(Kind::NoIri);
    }
    out
}

fn expected_parts(l: &L) -> Option<Vec<(String, String)>> {
    let ty = |c: &Comp| match &c.layout {
        LR::In(l) => ident_of(l.id.as_ref().unwrap()),
        LR::Named(n) => ident_of(n),
    };
    Some(match &l.k {
        K::Record(f) => f.iter().map(|(n, (c, r))| (n.clone(), if *r { ty(c) } else { format!("Option<{}>", ty(c)) })).collect(),
        K::Sum(v) => v.iter().map(|(n, c)| (n.clone(), ty(c))).collect(),
        K::Tuple(v) => v.iter().enumerate().map(|(i, c)| (i.to_string(), ty(c))).collect(),
        K::Set(c) | K::List(_, _, c) => vec![("0".into(), format!("Vec<{}>", ty(c)))],
        K::Unit(_) => vec![],
        _ => return None,
    })
}

fn refused(ctx: &Ctx, key: &str, s: &Sys) {
    let mut files: Vec<_> = s.named.values().map(|l| l.json()).collect();
    if !s.main.id.as_ref().is_some_and(|i| s.named.contains_key(i)) {
        files.push(s.main.json());
    }
    let Ok((layouts, refs)) = build(&files) else { return };
    files.reverse();
    let Ok((reversed, _)) = build(&files) else {
        ctx.violate(key, "checker: definitions built in one order only", json!(files));
        return;
    };
    let options = Options::new();
    let main = refs.last().unwrap();
    let mut todo = all(s).into_iter().map(|(id, l)| (Ref::new(iri(&id)), l)).collect::<Vec<_>>();
    if s.main.id.is_none() {
        todo.push((main.clone(), s.main.clone()));
    }
    for (r, l) in todo {
        let (Some(got), Some(again)) = (generate(ctx, key, &layouts, &r, &options), generate(ctx, key, &layouts, &r, &options)) else { return };
        let blank = !matches!(r.id(), Term::Id(Id::Iri(_)));
        let other = if blank { got.clone() } else { generate(ctx, key, &reversed, &r, &options).unwrap_or(Err(Kind::NoIri)) };
        let mut may = refusals(&l);
        if l.id.is_none() {
            may.insert(Kind::MissingName);
        }
        let detail = || json!({"layout": l.json(), "generated": format!("{got:?}"), "refusals": format!("{may:?}")});
        if got != again || may.len() < 2 && got != other {
            ctx.violate(key, "what is generated for a layout varies", detail());
            continue;
        }
        match &got {
            Err(k) if may.contains(k) => ctx.count("refused_layouts", 1),
            Ok(t) if may.is_empty() => {
                let id = ident_of(l.id.as_ref().unwrap());
                match declared(t) {
                    Ok((n, i)) if n == id && expected_parts(&l).is_none_or(|p| p == parts(&i)) => ctx.count("declared_layouts", 1),
                    other => ctx.violate(key, "the declaration of a layout is not the one expected", json!({"layout": l.json(), "generated": t, "expected": id, "parts": expected_parts(&l), "read": format!("{:?}", other.map(|(n, i)| (n, parts(&i))))})),
                }
            }
            _ => ctx.violate(key, "a layout is wrongly refused or accepted", detail()),
        }
    }
}

/// Every layout of every family, then with one name less.
pub fn declarations(ctx: &Ctx) {
    let mut systems = adversarial();
    systems.extend(faithful(if ctx.quick() { 1 } else { 2 }));
    systems.extend(graphs::systems(!ctx.quick()));
    systems.extend(pats::pattern_systems(!ctx.quick()).into_iter().map(|s| s.0));
    ctx.par(&systems, |i, s| {
        let (s, n) = gfam::with_names(s, &format!("d{i}"));
        for missing in std::iter::once(None).chain((0..n).map(Some)) {
            let key = format!("decl|{}|{i}|m{missing:?}", s.name);
            if ctx.begin(&key) {
                ctx.state();
                refused(ctx, &key, &missing.map_or(s.clone(), |m| gfam::without_name(&s, m)));
            }
        }
    });
}

// ------------------------------------------------------------- identifiers

const NAMES: &[&str] = &[
    "", "a", "Ab", "a_b", "_a", "a_", "a__b", "_", "1", "a1", "_1", "a-b", "a.b", "self", "Self", "_self", "type", "\u{e9}", "\u{e9}_a", "a%20b", "~", "\u{df}",
    "\u{65e5}", "a+b", "a:b", "a@b", "aB_cD", "a_1",
];

fn name_of(iri: &str) -> Option<String> {
    let last = match iri.split_once('#') {
        Some((_, f)) => f,
        None => {
            let p = iri.split_once('?').map_or(iri, |p| p.0);
            let p = p.split_once(':').unwrap().1;
            let p = match p.strip_prefix("//") {
                Some(p) => &p[p.find('/')?..],
                None => p,
            };
            p.rsplit('/').next().unwrap()
        }
    };
    let id = ident_of(&format!("/{last}"));
    valid_ident(&id).then_some(id)
}

/// Every name in every place of an IRI.
pub fn identifiers(ctx: &Ctx) {
    let forms: &[&dyn Fn(&str) -> String] = &[
        &|n| format!("http://e/{n}"),
        &|n| format!("http://e/x/{n}"),
        &|n| format!("http://e/{n}/"),
        &|n| format!("http://e#{n}"),
        &|n| format!("http://e/X#{n}"),
        &|n| format!("http://e/{n}?q"),
        &|n| format!("http://e/{n}?q#f"),
        &|n| format!("http://e/{n}#"),
        &|n| format!("http://{n}"),
        &|n| format!("urn:{n}"),
        &|n| format!("urn:x:{n}"),
        &|n| format!("urn:x/{n}"),
    ];
    for (fi, f) in forms.iter().enumerate() {
        for (ni, n) in NAMES.iter().enumerate() {
            let key = format!("ident|{fi}|{ni}");
            let id = f(n);
            if iref_ok(&id) && ctx.begin(&key) {
                ctx.state();
                let Ok((layouts, refs)) = build(&[L { id: Some(id.clone()), ..l_str() }.json()]) else { continue };
                let got = generate(ctx, &key, &layouts, &refs[0], &Options::new());
                let want = name_of(&id);
                let ok = match (&got, &want) {
                    (Some(Ok(t)), Some(w)) => declared(t).is_ok_and(|d| d.0 == *w),
                    (Some(Err(k)), None) => *k == Kind::MissingName,
                    (None, _) => true,
                    _ => false,
                };
                if !ok {
                    ctx.violate(&key, "a type has not the name its IRI gives", json!({"iri": id, "expected": want, "generated": format!("{got:?}")}));
                }
            }
        }
    }
}
fn iref_ok(i: &str) -> bool {
    treeldr::iref::Iri::new(i).is_ok()
}

/// Layouts with any number of IRIs, known in any order.
pub fn several_names(ctx: &Ctx) {
    let pool = ["http://e/b", "http://e/a", "http://e/1", "http://f#aa", "urn:x/C"];
    for m in 1..1usize << pool.len() {
        let iris: Vec<Term> = (0..pool.len()).filter(|i| m & 1 << i != 0).map(|i| iri(pool[i])).collect();
        let names: BTreeSet<String> = iris.iter().filter_map(|t| name_of(&t.as_iri().unwrap().to_string())).collect();
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for (pi, p) in perms(iris.len()).into_iter().enumerate() {
            let key = format!("names|{m}|{pi}");
            if !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            let class: Vec<Term> = p.iter().map(|i| iris[*i].clone()).collect();
            let (mut voc, mut part) = World::start(&[class], pi % 3, false);
            let mut b = abs::Builder::<u32>::default();
            let j = L { id: Some(pool[m.trailing_zeros() as usize].to_owned()), ..l_str() }.json();
            let r = parse_layout_serde(&j).unwrap().build_with_interpretation(&mut voc, &mut part, &mut b).unwrap();
            let layouts = b.build();
            let got = ctx.guarded(|| treeldr_gen_rust::generate(RdfContext::new(&voc, &part), &layouts, &r, &Options::new()).map(|t| t.to_string()).map_err(|e| kind(&e)));
            ctx.trace();
            let ok = match &got {
                Ok(Ok(t)) => declared(t).is_ok_and(|d| {
                    seen.insert(d.0.clone());
                    names.contains(&d.0)
                }),
                Ok(Err(k)) => names.is_empty() && *k == Kind::MissingName,
                Err(_) => false,
            };
            if !ok || seen.len() > 1 {
                ctx.violate(&key, "the name of a layout with several IRIs", json!({"iris": iris.iter().map(|t| t.to_string()).collect::<Vec<_>>(), "expected": names, "seen": seen, "generated": format!("{got:?}")}));
            }
        }
    }
}

// ------------------------------------------------------------- modules

/// Every set of modules, every layout referred to, every kind of component.
pub fn modules(ctx: &Ctx) {
    let prefixes = [("http://e/", "m0"), ("http://e/lib", "self::m1"), ("http://e/lib/", "crate::m2"), ("http://e/lib/deep/", "::m3::sub"), ("https://treeldr.org/", "m4"), ("urn:", "super::super::m5")];
    let refs = [
        "http://e/X", "http://e/lib/X", "http://e/lib/deep/X", "http://e/lib/deep", "http://e/lib2#X", "http://f/X", "urn:z/X", "http://e/", "https://treeldr.org/prelude#string",
        "https://treeldr.org/prelude#id", "https://treeldr.org/prelude#unit", "https://treeldr.org/prelude#boolean", "https://treeldr.org/prelude#u8",
        "https://treeldr.org/prelude#u16", "https://treeldr.org/prelude#u32", "https://treeldr.org/prelude#u64", "https://treeldr.org/prelude#i8",
        "https://treeldr.org/prelude#i16", "https://treeldr.org/prelude#i32", "https://treeldr.org/prelude#i64", "https://treeldr.org/prelude#i128",
    ];
    let sets: Vec<usize> = (0..1 << prefixes.len()).collect();
    ctx.par(&sets, |_, m| {
        let used: Vec<_> = (0..prefixes.len()).filter(|i| m & 1 << i != 0).map(|i| prefixes[i]).collect();
        for (ri, r) in refs.iter().enumerate() {
            let base = match r.strip_prefix(gfam::PRELUDE) {
                Some("string") => Some("String"),
                Some("id") => Some("::treeldr::rdf_types::Id"),
                Some("unit") => Some("()"),
                Some("boolean") => Some("bool"),
                Some("i128") => None,
                x => x,
            };
            let want = match base {
                Some(t) => Some(t.to_owned()),
                None => name_of(r).map(|n| {
                    let best = used.iter().filter(|p| r.starts_with(p.0)).max_by_key(|p| p.0.len());
                    best.map_or(n.clone(), |b| format!("{}::{n}", b.1))
                }),
            };
            let c = |v: usize| Comp { layout: LR::Named(r.to_string()), ..prop(v, "p", l_str()) };
            let mut list = rdf_list(l_str());
            if let K::List(_, _, c) = &mut list.k {
                c.layout = LR::Named(r.to_string());
            }
            let shapes = [record(vec![("f", c(1), true), ("g", c(1), false)]), sum(vec![("a", c(1)), ("b", c(1))]), leaf(K::Set(c(1))), list, tuple(vec![c(1), c(1)])];
            for (si, l) in shapes.into_iter().enumerate() {
                for reverse in [false, true] {
                    let key = format!("mod|{m}|{ri}|{si}|{}", reverse as u8);
                    if !ctx.begin(&key) {
                        continue;
                    }
                    ctx.state();
                    let mut o = Options::new();
                    let mut order = used.clone();
                    if reverse {
                        order.reverse();
                    }
                    for (p, path) in &order {
                        if o.use_module(p.to_string(), syn::parse_str(path).unwrap()).is_err() {
                            ctx.violate(&key, "a module path is refused", json!(path));
                        }
                    }
                    let l = L { id: Some("http://z/Main".into()), ..l.clone() };
                    let (layouts, rs) = build(&[l.json()]).unwrap();
                    let Some(got) = generate(ctx, &key, &layouts, &rs[0], &o) else { continue };
                    let expected: Option<Vec<String>> = want.clone().map(|w| match &l.k {
                        K::Record(_) => vec![w.clone(), format!("Option<{w}>")],
                        K::Set(_) | K::List(..) => vec![format!("Vec<{w}>")],
                        _ => vec![w.clone(), w],
                    });
                    let ok = match (&got, &expected) {
                        (Ok(t), Some(e)) => declared(t).is_ok_and(|(n, i)| n == "Main" && parts(&i).into_iter().map(|p| p.1).collect::<Vec<_>>() == *e),
                        (Err(k), None) => *k == Kind::MissingName,
                        _ => false,
                    };
                    if !ok {
                        ctx.violate(&key, "a layout is not referred to where it is", json!({"modules": order, "layout": r, "expected": expected, "generated": format!("{got:?}")}));
                    }
                }
            }
        }
    });
    for (i, (p, ok)) in [("a::b", true), ("::a::b", true), ("crate::a", true), ("a<T>", false), ("a::b<T>::c", false), ("a::<u8>::b", false)].iter().enumerate() {
        let key = format!("path|{i}");
        if ctx.begin(&key) {
            ctx.state();
            ctx.trace();
            if Options::<Term>::new().use_module("http://e/".into(), syn::parse_str(p).unwrap()).is_ok() != *ok {
                ctx.violate(&key, "a module path is wrongly refused or accepted", json!(p));
            }
        }
    }
}

// ------------------------------------------------------------- names of components

/// Every name, and values that are no names, for fields and variants.
pub fn components(ctx: &Ctx) {
    let mut names: Vec<String> = ["a", "a_b", "_a", "A", "\u{e9}", "a1", "\u{65e5}", "", "1", "a-b", "a b", "a.b", "a::b", "'a", "a!", "__", "union", "auto", "a<b", "a,b", "#", "a#", "\"a\""].map(String::from).to_vec();
    names.extend(RESERVED.iter().map(|s| s.to_string()));
    for (i, n) in names.iter().enumerate() {
        for k in 0..2 {
            for other in ["aa", "zz"] {
                let key = format!("name|{i}|{k}|{other}");
                if !ctx.begin(&key) {
                    continue;
                }
                ctx.state();
                let c = || Comp { layout: LR::Named("http://e/X".into()), ..prop(1, "p", l_str()) };
                let l = if k == 0 { record(vec![(n, c(), true), (other, c(), true)]) } else { sum(vec![(n, c()), (other, c())]) };
                let l = L { id: Some("http://z/Main".into()), ..l };
                let (layouts, rs) = build(&[l.json()]).unwrap();
                let Some(got) = generate(ctx, &key, &layouts, &rs[0], &Options::new()) else { continue };
                let mut want = vec![n.clone(), other.to_owned()];
                want.sort();
                let ok = match &got {
                    Ok(t) => valid_ident(n) && declared(t).is_ok_and(|(_, i)| parts(&i).into_iter().map(|p| p.0).collect::<Vec<_>>() == want),
                    Err(e) => !valid_ident(n) && *e == if k == 0 { Kind::Field } else { Kind::Variant },
                };
                if !ok {
                    ctx.violate(&key, "a component has not its name", json!({"name": n, "variant": k == 1, "generated": format!("{got:?}")}));
                }
            }
        }
    }
    let l = L { id: Some("http://z/Main".into()), ..record(vec![("a", Comp { layout: LR::Named("http://e/X".into()), ..prop(1, "p", l_str()) }, true)]) };
    for (i, v) in [Value::unit(), Value::Literal(Literal::Boolean(true)), Value::Literal(Literal::ByteString(b"a".to_vec())), Value::List(vec![]), Value::Map(BTreeMap::new()), n(1).to_value()].into_iter().enumerate() {
        for alone in [false, true] {
            let key = format!("key|{i}|{alone}");
            if !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            let (built, rs) = build(&[l.json()]).unwrap();
            let Some(Layout::Product(p)) = built.layout(rs[0].id()) else { unreachable!() };
            let mut p = p.clone();
            let f = p.fields.values().next().unwrap().clone();
            if alone {
                p.fields.clear();
            }
            p.fields.insert(v.clone(), f);
            let mut layouts = Layouts::new();
            layouts.insert(rs[0].id().clone(), Layout::Product(p));
            let got = generate(ctx, &key, &layouts, &rs[0], &Options::new());
            if got.as_ref().is_some_and(|g| *g != Err(Kind::Field)) {
                ctx.violate(&key, "a field whose key is not a name", json!({"key": v.to_string(), "generated": format!("{got:?}")}));
            }
        }
    }
}

/// Layouts that are always or never satisfied.
pub fn trivial(ctx: &Ctx) {
    for (i, (l, want)) in [(Layout::Always, "Always"), (Layout::Never, "Never")].into_iter().enumerate() {
        let key = format!("trivial|{i}");
        if ctx.begin(&key) {
            ctx.state();
            let mut layouts = Layouts::new();
            let (r, _) = layouts.insert(iri("http://e/it"), l);
            let got = generate(ctx, &key, &layouts, &r, &Options::new());
            let ok = matches!(&got, Some(Ok(t)) if declared(t).is_ok_and(|(n, i)| n == "It" && parts(&i)[0].1.trim_start_matches("::") == format!("treeldr::{want}")));
            if got.is_some() && !ok {
                ctx.violate(&key, "the type of a trivial layout", json!({"generated": format!("{got:?}")}));
            }
        }
    }
}

// ------------------------------------------------------------- the tool

/// `tldr-rs` prints what the library generates for the layout asked for.
pub fn binary(ctx: &Ctx) {
    let bin = std::path::Path::new(&std::env::var("MC_VERIF").unwrap_or_else(|_| ".".into())).join("target/debug/main");
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR"));
    let systems: Vec<gfam::GSys> = gfam::systems().into_iter().filter(|s| s.style == Style::Long).enumerate().filter(|(i, _)| i % if ctx.quick() { 11 } else { 2 } == 0).map(|s| s.1).collect();
    ctx.par(&systems, |_, s| {
        let files: Vec<_> = s.files.iter().map(|f| f.1.clone()).collect();
        let (layouts, refs) = build(&files).unwrap();
        let mut asked: Vec<Option<String>> = vec![None, Some("http://e/nothing".into())];
        asked.extend(all(&s.sys).into_keys().map(Some));
        for (ai, a) in asked.iter().enumerate() {
            let key = format!("bin|{}|{ai}", s.sys.name);
            if !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            let mut cmd = std::process::Command::new(&bin);
            cmd.env_remove("MC_CHILD").current_dir(dir).args(s.files.iter().map(|f| format!("layouts/{}", f.0)));
            if let Some(a) = a {
                cmd.args(["--layout", a]);
            }
            let out = cmd.output().expect("run tldr-rs");
            ctx.trace();
            let r = match a {
                Some(a) => Some(Ref::new(iri(a))).filter(|r: &Ref<LayoutType>| layouts.layout(r.id()).is_some()),
                None => (refs.len() == 1).then(|| refs[0].clone()),
            };
            let want = r.and_then(|r| generate(ctx, &key, &layouts, &r, &Options::new())).and_then(|g| g.ok());
            let said = String::from_utf8_lossy(&out.stdout).trim().to_owned();
            let ok = match &want {
                Some(w) => out.status.success() && said == *w,
                None => !out.status.success() && out.status.code().is_some() && said.is_empty(),
            };
            if !ok {
                ctx.violate(&key, "tldr-rs does not print what is generated", json!({"files": s.files.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), "layout": a, "status": out.status.to_string(), "stdout": said, "stderr": String::from_utf8_lossy(&out.stderr), "expected": want}));
            }
        }
    });
}

// ------------------------------------------------------------- numbers

/// Numbers of every datatype: declared with the type holding exactly them, or
/// refused.
pub fn numbers(ctx: &Ctx) {
    let native = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "String"];
    let mut datatypes: Vec<String> = gfam::NUMBERS.iter().map(|n| format!("{XSD}{}", n.0)).collect();
    datatypes.extend(
        [
            "decimal", "integer", "nonPositiveInteger", "negativeInteger", "nonNegativeInteger", "positiveInteger", "float", "double", "string", "boolean",
            "dateTime", "duration", "hexBinary", "anyURI", "Byte", "unsignedByt", "unsignedByte8", "bytes", "u8", "i64", "",
        ]
        .map(|n| format!("{XSD}{n}")),
    );
    for (a, _) in gfam::NUMBERS {
        datatypes.push(format!("http://e/{a}"));
        datatypes.push(format!("http://www.w3.org/2001/XMLSchema/{a}"));
    }
    for (i, d) in datatypes.iter().enumerate() {
        let want = d.strip_prefix(XSD).and_then(|d| gfam::NUMBERS.iter().find(|n| n.0 == d)).map(|n| n.1);
        let plain = leaf(K::Num(V(0), d.clone()));
        let mut fixed = leaf(K::Num(C(ex("x")), d.clone()));
        fixed.h.ds = vec![PQ(C(ex("x")), C(ex("p")), V(0), None)];
        for (j, l) in [plain, fixed].into_iter().enumerate() {
            let key = format!("num|{i}|{j}");
            if !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            let Ok((layouts, refs)) = build(&[L { id: Some("http://e/Num".into()), ..l }.json()]) else { continue };
            let Some(got) = generate(ctx, &key, &layouts, &refs[0], &Options::new()) else { continue };
            let ok = match (&got, want) {
                (Ok(t), Some(w)) => declared(t).is_ok_and(|(n, i)| n == "Num" && parts(&i) == [("0".to_owned(), w.to_owned())]),
                (Err(k), None) => *k == Kind::Number,
                // a type for all these numbers
                (Ok(t), None) => declared(t).is_ok_and(|(_, i)| parts(&i).iter().all(|p| !native.contains(&p.1.as_str()))),
                (Err(_), Some(_)) => false,
            };
            if !ok {
                ctx.violate(&key, "numbers are declared with the wrong type", json!({"datatype": d, "expected": want, "generated": format!("{got:?}")}));
            }
        }
    }
}
