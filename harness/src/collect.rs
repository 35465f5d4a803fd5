//! C12: collections of layouts — sequences of definitions built into one
//! builder, registries and their unions, the prelude, dependencies.
use crate::compile::{kind, reference, Dec, E};
use crate::real::parse_layout_serde;
use crate::rt::Ctx;
use iref::{Iri, IriBuf};
use rdf_types::{
    interpretation::{IriInterpretationMut, LiteralInterpretationMut},
    BlankIdBuf, Id, Interpretation, InterpretationMut, Literal, Term,
};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use tl::layout::{LayoutType, ListLayout};
use tl::{Layout, LayoutRegistry, Layouts, Prelude, PresetLayout, Ref};
use treeldr_layouts as tl;

const A: &str = "http://e/A";
const A2: &str = "http://e/A2";
const B: &str = "http://e/B";
const C: &str = "http://e/C";

fn iri(s: &str) -> Term {
    Term::iri(IriBuf::new(s.to_owned()).unwrap())
}
fn lref(s: &str) -> Ref<LayoutType> {
    Ref::new(iri(s))
}

/// Definitions, with the names they define.
fn pool() -> Vec<(J, Vec<&'static str>)> {
    vec![
        (json!({"type": "string"}), vec![]),
        (json!({"id": A, "type": "string"}), vec![A]),
        (json!({"id": A, "type": "boolean"}), vec![A]),
        (
            json!({"type": "record", "fields": {"l": {"value": {"type": "set", "item": {"value": A, "property": "http://e/p"}}, "property": "http://e/q"},
                "m": {"value": {"layout": {"type": "string"}, "input": "_:self"}}}}),
            vec![],
        ),
        (
            json!({"id": B, "type": "record", "fields": {"c": {"value": {"id": C, "type": "set", "item": {"value": {"type": "id"}, "property": "http://e/p"}}, "property": "http://e/q"},
                "i": {"value": {"layout": {"type": "id"}, "input": "_:self"}}}}),
            vec![B, C],
        ),
        (json!({"id": C, "type": "tuple", "items": [{"value": B, "property": "http://e/p"}, {"value": {"type": "boolean"}, "property": "http://e/q"}]}), vec![C]),
        (json!(true), vec![]),
        (json!(false), vec![]),
        (json!({"type": "list", "node": {"value": {"layout": {"id": A, "type": "id"}, "input": "_:value"}}}), vec![A]),
        (json!({"type": "tuple", "items": [{"value": {"type": "string"}, "property": "http://e/p"}, {"value": {"layout": {"type": "string"}, "input": "_:undeclared"}}]}), vec![]),
        (json!({"id": A, "type": "union"}), vec![A]),
        (json!({"id": B, "type": "sum", "variants": {"v": {"value": {"layout": {"id": B, "type": "id"}, "input": "_:self"}}}}), vec![B]),
        (json!({"type": "tuple", "items": [{"value": false}, {"value": true}, {"value": {"type": "unit"}}]}), vec![]),
        (
            json!({"type": "tuple", "base": "http://e/", "prefixes": {"p": "http://e/"}, "items": [{"value": {"id": "p:A", "type": "string"}}, {"value": {"id": "B", "type": "unit"}}, {"value": "p:C"}]}),
            vec![A, B],
        ),
        (json!({"id": A2, "type": "string"}), vec![A2]),
        (json!({"type": "sum", "variants": {"x": {"value": {"layout": A, "input": "_:self"}}, "y": {"value": {"layout": {"type": "id"}, "input": "_:self"}}}}), vec![]),
    ]
}

/// Interpretation of IRIs as themselves, but for `A2`, another name of `A`.
#[derive(Default)]
struct Alias {
    fresh: usize,
}
impl Interpretation for Alias {
    type Resource = Term;
}
impl InterpretationMut<()> for Alias {
    fn new_resource(&mut self, _: &mut ()) -> Term {
        self.fresh += 1;
        Term::Id(Id::Blank(BlankIdBuf::from_suffix(&format!("r{}", self.fresh)).unwrap()))
    }
}
impl IriInterpretationMut<IriBuf> for Alias {
    fn interpret_iri(&mut self, i: IriBuf) -> Term {
        if i.as_str() == A2 {
            iri(A)
        } else {
            Term::iri(i)
        }
    }
}
impl LiteralInterpretationMut<Literal> for Alias {
    fn interpret_literal(&mut self, l: Literal) -> Term {
        Term::Literal(l)
    }
}

struct Entry {
    doc: J,
    def: tl::abs::syntax::Layout,
    names: Vec<&'static str>,
    model: Result<(J, BTreeMap<String, J>), BTreeSet<E>>,
}

fn entries(alias: bool) -> Vec<Entry> {
    pool()
        .into_iter()
        .map(|(doc, names)| {
            let mut model = reference(&doc);
            let mut names = names;
            if alias {
                if let Ok((m, n)) = &mut model {
                    let f = |j: &J| serde_json::from_str::<J>(&j.to_string().replace(A2, A)).unwrap();
                    *m = f(m);
                    *n = n.iter().map(|(k, v)| (k.replace(A2, A), f(v))).collect();
                }
                for n in &mut names {
                    if *n == A2 {
                        *n = A
                    }
                }
            }
            if let Ok((_, n)) = &model {
                // the listed names are the defined ones
                assert_eq!(n.keys().map(|k| k.as_str()).collect::<BTreeSet<_>>(), names.iter().copied().collect());
            }
            Entry { def: parse_layout_serde(&doc).unwrap(), doc, names, model }
        })
        .collect()
}

/// Runs one sequence; returns the first departure from the model.
fn sequence(pool: &[Entry], seq: &[usize], alias: bool) -> Result<(usize, usize), (String, J)> {
    let mut b = tl::abs::Builder::new();
    let mut interp = Alias::default();
    let mut named: BTreeMap<&str, J> = BTreeMap::new();
    let mut tainted: BTreeSet<&str> = BTreeSet::new();
    let mut mains: Vec<(usize, Ref<LayoutType>, J)> = vec![];
    let (mut ok, mut failed) = (0, 0);
    for (step, k) in seq.iter().enumerate() {
        let e = &pool[*k];
        let r = if alias { e.def.build_with_interpretation(&mut (), &mut interp, &mut b) } else { e.def.build(&mut b) };
        let r = r.map_err(|e| kind(&e));
        let dup = e.names.iter().any(|n| named.contains_key(n));
        let open = e.names.iter().any(|n| tainted.contains(n));
        let bad = |why: String| Err((why, json!({"step": step})));
        match (&e.model, r) {
            (Ok((m, ns)), Ok(r)) if !dup => {
                ok += 1;
                for (n, j) in ns {
                    let n = e.names.iter().find(|k| *k == n).unwrap();
                    named.insert(n, j.clone());
                }
                for n in &e.names {
                    // what a failed definition left there is replaced
                    if open && tainted.contains(n) {
                        named.remove(n);
                    }
                }
                mains.push((*k, r, m.clone()));
            }
            (Ok(_), Ok(_)) => return bad("a redefinition is not reported".into()),
            (Err(s), Err(k)) if s.contains(&k) || (dup || open) && k == E::Redefined => {
                failed += 1;
                for n in &e.names {
                    named.remove(n);
                    tainted.insert(n);
                }
            }
            (Err(_), Ok(_)) => return bad("an invalid definition is accepted".into()),
            (Ok(_), Err(E::Redefined)) if dup || open => {
                failed += 1;
                for n in &e.names {
                    named.remove(n);
                    tainted.insert(n);
                }
            }
            (_, Err(k)) => return bad(format!("unexpected error {k:?}")),
        }
        // the collection, as of now
        let layouts = b.build();
        let mut d = Dec { layouts: &layouts, seen: BTreeSet::new(), bad: vec![] };
        for (n, j) in &named {
            match layouts.get(&lref(n)) {
                None => return Err((format!("{n} is not found"), json!({"step": step}))),
                Some(l) => {
                    let got = d.layout(l);
                    if got != *j {
                        return Err((format!("{n} does not mean what its definition says"), json!({"step": step, "found": got, "expected": j})));
                    }
                }
            }
        }
        for (_, r, j) in &mains {
            let named_main = matches!(r.id(), Term::Id(Id::Iri(_)));
            if named_main && tainted.contains(r.id().as_iri().unwrap().as_str()) {
                continue;
            }
            let got = d.reference(r);
            if got != *j {
                return Err(("a layout does not mean what its definition says".into(), json!({"step": step, "found": got, "expected": j})));
            }
        }
        if !d.bad.is_empty() {
            return Err((d.bad.join("; "), json!({"step": step})));
        }
        for n in [A, A2, B, C] {
            if !named.contains_key(n) && !tainted.contains(n) && layouts.contains(&lref(n)) {
                return Err((format!("{n} is defined"), json!({"step": step})));
            }
        }
        if failed == 0 {
            let anon = layouts.iter().filter(|(r, _)| matches!(r.id(), Term::Id(Id::Blank(_)))).count();
            if anon != d.seen.len() || layouts.iter().count() != anon + named.len() {
                return Err((format!("{anon} anonymous layouts, {} expected", d.seen.len()), json!({"step": step})));
            }
        }
    }
    Ok((ok, failed))
}

fn sequences(ctx: &Ctx) {
    for alias in [false, true] {
        let pool = entries(alias);
        let n = pool.len();
        let depth = ctx.bound(4, 5);
        let starts: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
        ctx.par(&starts, |_, (a, b)| {
            let total = n.pow(depth - 2);
            for code in 0..total {
                let mut seq = vec![*a, *b];
                let mut c = code;
                for _ in 2..depth {
                    seq.push(c % n);
                    c /= n;
                }
                let key = format!("seq|{}|{seq:?}", if alias { "alias" } else { "terms" });
                if ctx.saturated() || !ctx.begin(&key) {
                    continue;
                }
                ctx.state();
                ctx.trace();
                let docs = || seq.iter().map(|k| pool[*k].doc.clone()).collect::<Vec<_>>();
                match ctx.guarded(|| sequence(&pool, &seq, alias)) {
                    Err(p) => ctx.violate(&key, "building a sequence of definitions crashes", json!({"why": p, "definitions": docs()})),
                    Ok(Err((w, d))) => ctx.violate(&key, &w, json!({"at": d, "definitions": docs()})),
                    Ok(Ok((ok, failed))) => {
                        ctx.count("definitions_accepted", ok as u64);
                        ctx.count("definitions_rejected", failed as u64);
                        ctx.sample(|| json!({"definitions": docs()}));
                    }
                }
            }
        });
    }
}

/// A layout recognisable by its number.
fn mark(n: u32) -> Layout {
    match n {
        0 => Layout::Always,
        1 => Layout::Never,
        n => Layout::Sum(tl::layout::SumLayout {
            input: n,
            intro: 0,
            variants: vec![],
            dataset: Default::default(),
            extra_properties: Default::default(),
        }),
    }
}

const KINDS: usize = 6;

/// A layout of each kind.
fn kinds(kind: usize, n: u32) -> Layout {
    use tl::layout::*;
    match kind {
        0 => mark(n),
        1 => Layout::Never,
        2 => Layout::Always,
        3 => Layout::Product(ProductLayout {
            input: n,
            intro: 0,
            fields: Default::default(),
            dataset: Default::default(),
            extra_properties: Default::default(),
        }),
        4 => Layout::List(ListLayout::Sized(SizedListLayout {
            input: n,
            intro: 0,
            items: vec![],
            dataset: Default::default(),
            extra_properties: Default::default(),
        })),
        _ => Layout::Literal(LiteralLayout::Data(DataLayout::Unit(UnitLayout {
            input: n,
            intro: 0,
            dataset: Default::default(),
            const_: Default::default(),
            extra_properties: Default::default(),
        }))),
    }
}

/// Collections against a map.
fn maps(ctx: &Ctx) {
    let names = [A, B];
    let ops: Vec<(usize, u32, bool)> = (0..2).flat_map(|n| (0..3).flat_map(move |m| [(n, m, false), (n, m, true)])).collect();
    let depth = ctx.bound(4, 5);
    let total = ops.len().pow(depth);
    let codes: Vec<usize> = (0..total).collect();
    ctx.par(&codes, |_, code| {
        let key = format!("map|{code}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        ctx.trace();
        let r = ctx.guarded(|| {
            let mut l = Layouts::new();
            let mut m: BTreeMap<Term, u32> = BTreeMap::new();
            let mut c = *code;
            for _ in 0..depth {
                let (n, v, with) = ops[c % ops.len()];
                c /= ops.len();
                let (r, old) = if with {
                    let mut seen = None;
                    let out = l.insert_with(iri(names[n]), |r| {
                        seen = Some(r.clone());
                        mark(v)
                    });
                    if seen != Some(lref(names[n])) {
                        return Err("insert_with is given another reference");
                    }
                    out
                } else {
                    l.insert(iri(names[n]), mark(v))
                };
                if r != lref(names[n]) {
                    return Err("another reference is returned");
                }
                if old != m.insert(iri(names[n]), v).map(mark) {
                    return Err("the previous definition is wrong");
                }
                for n in names {
                    let want = m.get(&iri(n)).map(|v| mark(*v));
                    if l.layout(&iri(n)) != want.as_ref() || l.get(&lref(n)) != want.as_ref() {
                        return Err("wrong lookup");
                    }
                    if LayoutRegistry::get(&l, &lref(n)) != want.as_ref() || l.contains(&lref(n)) != want.is_some() {
                        return Err("wrong registry lookup");
                    }
                }
                let it: BTreeMap<Term, Layout> = l.iter().map(|(r, l)| (r.id().clone(), l.clone())).collect();
                let it2: BTreeMap<Term, Layout> = (&l).into_iter().map(|(r, l)| (r.id().clone(), l.clone())).collect();
                let want: BTreeMap<Term, Layout> = m.iter().map(|(k, v)| (k.clone(), mark(*v))).collect();
                if it != want || it2 != want || l.iter().count() != want.len() {
                    return Err("wrong iteration");
                }
            }
            let want: BTreeMap<Term, Layout> = m.iter().map(|(k, v)| (k.clone(), mark(*v))).collect();
            let all: Vec<(Term, Layout)> = l.into_iter().map(|(r, l)| (r.into_id(), l)).collect();
            if all.len() != want.len() || all.into_iter().collect::<BTreeMap<_, _>>() != want {
                return Err("wrong consuming iteration");
            }
            Ok(())
        });
        match r {
            Err(p) => ctx.violate(&key, "a collection operation crashes", json!({"why": p})),
            Ok(Err(w)) => ctx.violate(&key, w, json!({"code": code})),
            Ok(Ok(())) => (),
        }
    });
}

const P_STRING: &str = "https://treeldr.org/prelude#string";

/// Unions of registries.
fn unions(ctx: &Ctx) {
    let names = [A, B, P_STRING];
    let mk = |bits: usize, base: u32, kind: usize| {
        let mut l = Layouts::new();
        for (i, n) in names.iter().enumerate() {
            if bits >> i & 1 == 1 {
                l.insert(iri(n), kinds(kind, base + i as u32));
            }
        }
        l
    };
    // every presence of the three names in three registries, with every kind
    // of layout in the first two
    let codes: Vec<usize> = (0..512 * KINDS * KINDS).collect();
    let prelude = Prelude::build();
    ctx.par(&codes, |_, code| {
        let bits = [code & 7, code >> 3 & 7, code >> 6 & 7];
        let ks = [code / 512 % KINDS, code / 512 / KINDS, 0];
        let rs: Vec<Layouts> = (0..3).map(|i| mk(bits[i], 10 * (i as u32 + 1), ks[i])).collect();
        let find = |order: &[usize], n: usize| order.iter().find(|r| bits[**r] >> n & 1 == 1).map(|r| kinds(ks[*r], 10 * (*r as u32 + 1) + n as u32));
        let pre = |n: usize| if n == 2 { prelude.get(&lref(P_STRING)).cloned() } else { None };
        let none: Option<Layouts> = None;
        let probe = |what: &str, r: &dyn Fn(&Ref<LayoutType>) -> (Option<Layout>, bool), want: &dyn Fn(usize) -> Option<Layout>| {
            let key = format!("union|{code}|{what}");
            if !ctx.begin(&key) {
                return;
            }
            ctx.state();
            ctx.trace();
            for (i, n) in names.iter().enumerate() {
                let w = want(i);
                match ctx.guarded(|| r(&lref(n))) {
                    Err(p) => ctx.violate(&key, "a lookup crashes", json!({"why": p})),
                    Ok((g, c)) => {
                        if g != w {
                            ctx.violate(&key, "wrong lookup in a union of registries", json!({"name": n, "found": format!("{g:?}"), "expected": format!("{w:?}")}))
                        }
                        if c != w.is_some() {
                            ctx.violate(&key, "wrong membership in a union of registries", json!({"name": n, "reported": c}))
                        }
                    }
                }
            }
        };
        macro_rules! probe {
            ($what:literal, $e:expr, $want:expr) => {{
                let u = $e;
                probe($what, &|r| (LayoutRegistry::get(&u, r).cloned(), LayoutRegistry::contains(&u, r)), &$want)
            }};
        }
        let (a, b, c) = (&rs[0], &rs[1], &rs[2]);
        probe!("a", a, |n| find(&[0], n));
        probe!("a+b", a.with(b), |n| find(&[0, 1], n));
        probe!("b+a", b.into_with(a), |n| find(&[1, 0], n));
        probe!("a+b+c", a.with(b).into_with(c), |n| find(&[0, 1, 2], n));
        probe!("a+(b+c)", a.with(b.with(c)), |n| find(&[0, 1, 2], n));
        probe!("union", tl::LayoutRegistryUnion(a, b), |n| find(&[1, 0], n));
        probe!("some", Some(a).into_with(b), |n| find(&[0, 1], n));
        probe!("none", none.as_ref().into_with(b), |n| find(&[1], n));
        probe!("a+none", a.with(none.as_ref()), |n| find(&[0], n));
        probe!("a+prelude", a.with(Prelude), |n| find(&[0], n).or_else(|| pre(n)));
        probe!("prelude+a", Prelude.into_with(a), |n| pre(n).or_else(|| find(&[0], n)));
        probe!("a+b+prelude", a.with(b).into_with(&Prelude), |n| find(&[0, 1], n).or_else(|| pre(n)));
    });
}

fn prelude(ctx: &Ctx) {
    let xsd = |t: &str| format!("http://www.w3.org/2001/XMLSchema#{t}");
    let base = "https://treeldr.org/prelude#";
    let mut docs: BTreeMap<&str, J> = BTreeMap::new();
    for t in ["unit", "boolean", "string", "id"] {
        docs.insert(t, json!({"id": format!("{base}{t}"), "type": t}));
    }
    for (t, d) in [
        ("u8", "unsignedByte"),
        ("u16", "unsignedShort"),
        ("u32", "unsignedInt"),
        ("u64", "unsignedLong"),
        ("i8", "byte"),
        ("i16", "short"),
        ("i32", "int"),
        ("i64", "long"),
    ] {
        docs.insert(t, json!({"id": format!("{base}{t}"), "type": "number", "datatype": xsd(d)}));
    }
    let want: BTreeMap<String, J> = docs.values().flat_map(|d| reference(d).unwrap().1).collect();
    for how in ["build", "build_with"] {
        let key = format!("prelude|{how}");
        if !ctx.begin(&key) {
            continue;
        }
        ctx.state();
        ctx.trace();
        let built = ctx.guarded(|| if how == "build" { Prelude::build() } else { Prelude::build_with(&mut (), &mut Alias::default()) });
        match built {
            Err(p) => ctx.violate(&key, "building the prelude crashes", json!({"why": p})),
            Ok(l) => {
                let mut d = Dec { layouts: &l, seen: BTreeSet::new(), bad: vec![] };
                let got: BTreeMap<String, J> = l.iter().map(|(r, l)| (r.id().to_string().trim_matches(|c| c == '<' || c == '>').to_owned(), d.layout(l))).collect();
                if got != want {
                    ctx.violate(&key, "the prelude does not define its documented layouts", json!({"found": got, "expected": want}))
                }
            }
        }
    }
    // lookups: the twelve names and nothing else
    let chars: Vec<char> = ('a'..='z').chain('0'..='9').collect();
    let mut names: Vec<String> = docs.keys().map(|s| s.to_string()).collect();
    for s in docs.keys() {
        names.extend([format!("{s}x"), s[1..].to_owned(), s.to_uppercase(), format!("{s}/"), format!("{s}#")]);
    }
    names.push(String::new());
    for a in &chars {
        names.push(a.to_string());
        for b in &chars {
            names.push(format!("{a}{b}"));
            for c in &chars {
                names.push(format!("{a}{b}{c}"));
            }
        }
    }
    ctx.par(&names, |_, n| {
        for base in [base, "http://treeldr.org/prelude#", "https://treeldr.org/prelude/"] {
            let key = format!("preset|{base}{n}");
            if !ctx.begin(&key) {
                continue;
            }
            let text = format!("{base}{n}");
            let Ok(i) = Iri::new(&text) else { continue };
            ctx.state();
            ctx.trace();
            let known = base == "https://treeldr.org/prelude#" && docs.contains_key(n.as_str());
            let r = ctx.guarded(|| {
                let p = PresetLayout::from_iri(i).map(|p| match p {
                    PresetLayout::Id => "id",
                    PresetLayout::Unit => "unit",
                    PresetLayout::Boolean => "boolean",
                    PresetLayout::U8 => "u8",
                    PresetLayout::U16 => "u16",
                    PresetLayout::U32 => "u32",
                    PresetLayout::U64 => "u64",
                    PresetLayout::I8 => "i8",
                    PresetLayout::I16 => "i16",
                    PresetLayout::I32 => "i32",
                    PresetLayout::I64 => "i64",
                    PresetLayout::String => "string",
                });
                let r = lref(&text);
                let l = Prelude.get(&r);
                let same = match l {
                    None => false,
                    Some(l) => {
                        let empty = Layouts::new();
                        let mut d = Dec { layouts: &empty, seen: BTreeSet::new(), bad: vec![] };
                        want.get(&text) == Some(&d.layout(l))
                    }
                };
                (p, l.is_some(), same, Prelude.contains(&r))
            });
            match r {
                Err(p) => ctx.violate(&key, "a lookup in the prelude crashes", json!({"why": p})),
                Ok(got) => {
                    let w = if known { (Some(n.as_str()), true, true, true) } else { (None, false, false, false) };
                    if got != w {
                        ctx.violate(&key, "wrong lookup in the prelude", json!({"iri": text, "found": format!("{got:?}")}))
                    }
                }
            }
        }
    });
}

/// The references a layout makes, in no particular order.
fn refs(l: &Layout) -> Vec<&Ref<LayoutType>> {
    match l {
        Layout::Never | Layout::Always | Layout::Literal(_) => vec![],
        Layout::Product(p) => p.fields.values().map(|f| &f.value.layout).collect(),
        Layout::Sum(s) => s.variants.iter().map(|v| &v.value.layout).collect(),
        Layout::List(ListLayout::Ordered(l)) => vec![&l.node.value.layout],
        Layout::List(ListLayout::Unordered(l)) => vec![&l.item.value.layout],
        Layout::List(ListLayout::Sized(l)) => l.items.iter().map(|i| &i.value.layout).collect(),
    }
}

fn dependencies(ctx: &Ctx) {
    // components referring to named and anonymous layouts
    let comps = [json!(A), json!(B), json!({"type": "string"}), json!({"id": C, "type": "set", "item": {"value": A}}), json!(true)];
    let n = comps.len();
    let mut docs = vec![];
    for kind in 0..5 {
        for len in 0..=ctx.bound(4u32, 5) {
            for code in 0..n.pow(len) {
                let mut c = code;
                let mut picked = vec![];
                for _ in 0..len {
                    picked.push(c % n);
                    c /= n;
                }
                // C is defined once at most
                if picked.iter().filter(|p| **p == 3).count() > 1 || (kind > 2 && len != 1) {
                    continue;
                }
                for inputs in 0..3 {
                    let names = ["_:self", "_:other"];
                    let head = json!(names[..inputs]);
                    let comp = |p: usize| json!({"value": {"layout": comps[p], "input": []}});
                    let fields = || picked.iter().enumerate().map(|(i, p)| (format!("f{i}"), comp(*p))).collect::<serde_json::Map<_, _>>();
                    docs.push(match kind {
                        0 => json!({"type": "record", "input": head, "fields": fields()}),
                        1 => json!({"type": "sum", "input": head, "variants": fields()}),
                        2 => json!({"type": "tuple", "input": head, "items": picked.iter().map(|p| comp(*p)).collect::<Vec<_>>()}),
                        3 => json!({"type": "set", "input": head, "item": comp(picked[0])}),
                        _ => json!({"type": "list", "input": head, "node": comp(picked[0]), "head": "http://e/head", "tail": "http://e/nil"}),
                    });
                }
            }
        }
    }
    for t in ["unit", "boolean", "number", "string", "id"] {
        for inputs in 0..3 {
            let names = ["_:self", "_:other"];
            let mut d = json!({"type": t, "input": names[..inputs], "resource": "http://e/r"});
            if t == "number" {
                d["datatype"] = json!("http://www.w3.org/2001/XMLSchema#integer");
            }
            if t == "unit" {
                d.as_object_mut().unwrap().remove("resource");
            }
            docs.push(d);
        }
    }
    docs.extend([json!(true), json!(false)]);
    ctx.par(&docs, |i, doc| {
        let key = format!("dep|{i}");
        if !ctx.begin(&key) {
            return;
        }
        let Ok(def) = parse_layout_serde(doc) else {
            ctx.count("definitions_not_read", 1);
            return;
        };
        let mut b = tl::abs::Builder::new();
        let r = match ctx.guarded(|| def.build(&mut b)) {
            Ok(Ok(r)) => r,
            _ => {
                // C10 decides which definitions compile
                ctx.count("definitions_not_compiled", 1);
                return;
            }
        };
        ctx.state();
        ctx.trace();
        let bad = |w: &str, d: J| ctx.violate(&key, w, json!({"definition": doc, "detail": d}));
        let res = ctx.guarded(|| {
            let layouts = b.build();
            let l = layouts.get(&r).ok_or("not found")?;
            let mut want: Vec<_> = refs(l);
            want.sort();
            let mut visited = vec![];
            l.visit_dependencies(|r| visited.push(r));
            visited.sort();
            if visited != want {
                return Err("the visited dependencies are not the layouts it refers to");
            }
            want.dedup();
            if l.dependencies() != want {
                return Err("the reported dependencies are not the sorted layouts it refers to");
            }
            let inputs = match doc {
                J::Bool(_) => None,
                d => Some(d["input"].as_array().unwrap().len() as u32),
            };
            if l.input_count() != inputs {
                return Err("the reported number of inputs is not the declared one");
            }
            Ok(())
        });
        match res {
            Err(p) => bad("listing the dependencies crashes", json!(p)),
            Ok(Err(w)) => bad(w, J::Null),
            Ok(Ok(())) => (),
        }
    });
}

pub fn c12(ctx: &Ctx) {
    sequences(ctx);
    maps(ctx);
    unions(ctx);
    prelude(ctx);
    dependencies(ctx);
}
