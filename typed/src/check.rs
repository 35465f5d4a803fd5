//! Types with derived implementations behave as the layouts they stand for.
use crate::Ops;
use mc::{core::*, fam::*, model::*, real::*, roundtrip::*, rt::Ctx, vocab::*};
use rdf_types::{
    dataset::BTreeDataset,
    interpretation::ReverseIriInterpretation,
    vocabulary::{BlankIdVocabulary, IriVocabulary},
    BlankIdBuf, Id, InterpretationMut, Quad, Term,
};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use treeldr::{DeserializeLd, RdfContext, RdfContextMut, SerializeLd};

const G_IRI: &str = "g";

pub fn constants(s: &Sys) -> BTreeSet<Term> {
    fn pat(p: &Pat, out: &mut BTreeSet<Term>) {
        if let C(t) = p {
            out.insert(t.clone());
        }
    }
    fn ds(d: &[PQ], out: &mut BTreeSet<Term>) {
        for q in d {
            pat(&q.0, out);
            pat(&q.1, out);
            pat(&q.2, out);
            if let Some(g) = &q.3 {
                pat(g, out);
            }
        }
    }
    fn go(l: &L, out: &mut BTreeSet<Term>) {
        ds(&l.h.ds, out);
        match &l.k {
            K::Id(p) => pat(p, out),
            K::Bool(p, d) | K::Num(p, d) | K::Str(p, d) | K::Bytes(p, d) => {
                pat(p, out);
                out.insert(iri(d));
            }
            K::List(h, t, _) => {
                pat(h, out);
                pat(t, out);
            }
            _ => {}
        }
        for c in l.comps() {
            ds(&c.ds, out);
            c.input.iter().for_each(|p| pat(p, out));
            if let G::P(p) = &c.graph {
                pat(p, out);
            }
            if let LR::In(l) = &c.layout {
                go(l, out);
            }
        }
    }
    let mut out = BTreeSet::new();
    go(&s.main, &mut out);
    s.named.values().for_each(|l| go(l, &mut out));
    out
}

/// Constants other than those of quads.
fn needed(s: &Sys) -> BTreeSet<Term> {
    let mut t = s.clone();
    fn go(l: &mut L) {
        l.h.ds.clear();
        let comps: Vec<&mut Comp> = match &mut l.k {
            K::Record(f) => f.values_mut().map(|(c, _)| c).collect(),
            K::Sum(v) => v.iter_mut().map(|(_, c)| c).collect(),
            K::Set(c) | K::List(_, _, c) => vec![c],
            K::Tuple(v) => v.iter_mut().collect(),
            _ => vec![],
        };
        for c in comps {
            c.ds.clear();
            if let LR::In(l) = &mut c.layout {
                go(l);
            }
        }
    }
    go(&mut t.main);
    t.named.values_mut().for_each(go);
    constants(&t)
}

/// Values of the Rust type.
fn tvals(l: &L, s: &Sys, w: usize, depth: usize) -> Vec<Tree> {
    let lr = |c: &Comp, w: usize| -> Vec<Tree> {
        match &c.layout {
            LR::In(l) => tvals(l, s, w, depth + 1),
            LR::Named(n) => tvals(&s.named[n], s, w, depth + 1),
        }
    };
    let take = |mut v: Vec<Tree>| {
        if depth > 0 {
            v.truncate(w.max(1));
        }
        v
    };
    // sequences of one value of each component
    let product = |parts: Vec<Vec<Option<Tree>>>| -> Vec<Vec<Option<Tree>>> {
        let mut out: Vec<Vec<Option<Tree>>> = vec![vec![]];
        for p in parts {
            out = out.iter().flat_map(|o| p.iter().map(move |x| { let mut o = o.clone(); o.push(x.clone()); o })).collect();
        }
        out
    };
    match &l.k {
        K::Id(_) => take(vec![mc::model::s("http://e/a"), mc::model::s("http://e/b"), mc::model::s("urn:c")]),
        K::Unit(_) | K::Always => vec![Tree::Unit],
        K::Bool(..) => take(vec![Tree::Bool(true), Tree::Bool(false)]),
        K::Str(..) => take(vec![mc::model::s("s"), mc::model::s(""), mc::model::s("http://e/a"), mc::model::s("\u{e9}\n\""), mc::model::s(" s\t")]),
        K::Num(_, d) => take(match d.strip_prefix(XSD) {
            Some("unsignedByte") => vec![n(1), n(255), n(0)],
            Some("unsignedShort") => vec![n(1), n(65535), n(0)],
            Some("unsignedInt") => vec![n(1), n(u32::MAX as i64), n(0)],
            Some("unsignedLong") => vec![n(1), Tree::Num(num_rational::BigRational::from_integer(u64::MAX.into())), n(0)],
            Some("byte") => vec![n(-1), n(127), n(0), n(-128)],
            Some("short") => vec![n(-1), n(32767), n(0), n(-32768)],
            Some("int") => vec![n(-1), n(i32::MAX as i64), n(0), n(i32::MIN as i64)],
            _ => vec![n(-1), n(i64::MAX), n(0), n(i64::MIN)],
        }),
        K::Record(f) => {
            let parts = f.values().map(|(c, r)| {
                let mut v: Vec<Option<Tree>> = lr(c, w).into_iter().map(Some).collect();
                if !r {
                    v.push(None);
                }
                v
            });
            product(parts.collect())
                .into_iter()
                .map(|vs| Tree::Map(f.keys().zip(vs).filter_map(|(k, v)| Some((mc::model::s(k), v?))).collect()))
                .collect()
        }
        K::Tuple(cs) => product(cs.iter().map(|c| lr(c, w).into_iter().map(Some).collect()).collect()).into_iter().map(|v| Tree::List(v.into_iter().flatten().collect())).collect(),
        K::Sum(vs) => vs.iter().enumerate().flat_map(|(i, (_, c))| lr(c, w).into_iter().map(move |v| Tree::Var(i as u32, Box::new(v)))).collect(),
        K::Set(c) | K::List(_, _, c) => {
            let mut out = vec![Tree::List(vec![])];
            if depth > 6 {
                return out;
            }
            let mut items = lr(c, if depth > 0 { 1 } else { w });
            items.truncate(if depth > 2 { 1 } else { 6 });
            out.extend(items.iter().map(|x| Tree::List(vec![x.clone()])));
            if depth < 3 {
                for a in &items {
                    for b in items.iter().take(3) {
                        out.push(Tree::List(vec![a.clone(), b.clone()]));
                    }
                }
                out.push(Tree::List(items.iter().take(3).cloned().collect()));
            }
            let leaf = matches!(&c.layout, LR::In(l) if l.comps().is_empty());
            if depth == 0 && leaf && !items.is_empty() {
                for n in [4, 5] {
                    out.insert(1, Tree::List(items.iter().cycle().take(n).cloned().collect()));
                }
            }
            out
        }
        _ => vec![],
    }
}

/// Spellings to try for a leaf type, and their datatype.
fn spellings(ctx: &Ctx, s: &Sys) -> Option<(String, Vec<String>)> {
    if s.main.h != h1() {
        return None;
    }
    match &s.main.k {
        K::Str(V(0), d) => Some((d.clone(), mc::lits::texts(ctx.bound(2, 3)))),
        K::Bool(V(0), d) => Some((d.clone(), mc::lits::booleans(ctx.bound(3, 4)))),
        // `1.0` is no integer, and refused, whereas layouts read it as 1; `-0`
        // is refused as unsigned (by the library parsing it).
        K::Num(V(0), d) => {
            let odd = |w: &String| parse_decimal(w).is_some_and(|x| w.contains('.') || w.starts_with('-') && x == parse_decimal("0").unwrap());
            Some((d.clone(), mc::lits::numerals(ctx.bound(3, 5)).into_iter().filter(|w| !odd(w)).collect()))
        }
        _ => None,
    }
}

struct Case<'a> {
    ctx: &'a Ctx,
    s: &'a Sys,
    ops: &'a Ops,
    consts: BTreeSet<Term>,
    needed: BTreeSet<Term>,
    /// recursive types overflow the stack on cyclic data
    overflow: bool,
}

fn rep_of(classes: &[Vec<Term>]) -> impl Fn(&Term) -> Term + '_ {
    move |t| classes.iter().find(|c| c.contains(t)).map(|c| c[0].clone()).unwrap_or_else(|| t.clone())
}

impl Case<'_> {
    /// `bare`: the vocabulary knows nothing but the data.
    fn read(&self, key: &str, ds: &Ds, g: Option<&Term>, inputs: &[Term], classes: &[Vec<Term>], shift: usize, bare: bool) -> Option<Result<Tree, String>> {
        let ctx = self.ctx;
        let rep = rep_of(classes);
        let qs = quotient(self.s, &rep);
        let qd: Ds = ds.iter().map(|q| (rep(&q.0), rep(&q.1), rep(&q.2), q.3.as_ref().map(&rep))).collect();
        let qi: Vec<Term> = inputs.iter().map(&rep).collect();
        let qg = g.map(&rep);
        let mut hy = Hy::new(&qs.named, &qd);
        hy.narrow = true;
        let want = with_members(classes, || hydrate_main(&mut hy, &qs, qg.as_ref(), &qi));
        if hy.endless && self.overflow {
            // reported once, by `cyclic`
            ctx.count("cyclic_data_for_recursive_types", 1);
            return None;
        }
        let (mut voc, mut part) = World::start(classes, shift, false);
        for c in if bare { &self.needed } else { &self.consts } {
            World::res_in(&mut voc, &mut part, c);
        }
        let mut res = |t: &Term| World::res_in(&mut voc, &mut part, t);
        let mut d = vec![];
        for q in ds {
            let q = Quad(res(&q.0), res(&q.1), res(&q.2), q.3.as_ref().map(&mut res));
            if !d.contains(&q) {
                d.push(q);
            }
        }
        let ins: Vec<u32> = inputs.iter().map(&mut res).collect();
        let g = g.map(&mut res);
        let d = FlatDs(d);
        let got = ctx.guarded(|| (self.ops.de)(&voc, &part, &d, g.as_ref(), &ins));
        ctx.trace();
        let detail = || {
            json!({"layout": self.s.main.json(), "dataset": show_ds(ds), "graph": g.map(|g| g.to_string()), "inputs": show_terms(inputs),
                "synonyms": show_classes(classes), "derived": format!("{got:?}"), "reference": show_m(&want)})
        };
        match (&got, &want) {
            (Err(_), _) => ctx.violate(key, "a derived deserializer crashed", detail()),
            (Ok(Ok(a)), Ok(b)) if agree(a, b) => {
                ctx.count("read", 1);
                if !ds.is_empty() {
                    ctx.sample(detail);
                }
            }
            (Ok(Err(_)), Err(_)) => ctx.count("refused", 1),
            _ => ctx.violate(key, "a derived deserializer differs from the layout it stands for", detail()),
        }
        got.ok()
    }

    fn write(&self, key: &str, v: &Tree, inputs: &[In], g: Option<&Term>, classes: &[Vec<Term>], shift: usize, bare: bool) -> Option<(Ds, Vec<Term>)> {
        let ctx = self.ctx;
        let (mut voc, mut part) = World::start(classes, shift, false);
        for c in if bare { &self.needed } else { &self.consts } {
            World::res_in(&mut voc, &mut part, c);
        }
        let ins: Vec<u32> = inputs
            .iter()
            .map(|i| match i {
                In::Fresh => part.new_resource(&mut voc),
                In::T(t) => World::res_in(&mut voc, &mut part, t),
            })
            .collect();
        let gr = g.map(|g| World::res_in(&mut voc, &mut part, g));
        part.assigned.clear();
        let mut ds = BTreeDataset::new();
        let got = ctx.guarded(|| (self.ops.ser)(v, &mut voc, &mut part, &ins, gr.as_ref(), &mut ds));
        let got = match got {
            Ok(None) => {
                ctx.violate(key, "checker: not a value of the type", json!({"layout": self.s.main.json(), "value": v.show()}));
                return None;
            }
            Ok(Some(r)) => Ok(r),
            Err(e) => Err(e),
        };
        let rep = rep_of(classes);
        let qs = quotient(self.s, &rep);
        let rin: Vec<R> = inputs.iter().enumerate().map(|(i, x)| match x { In::Fresh => R::In(i), In::T(t) => R::T(rep(t)) }).collect();
        let rg = g.map(|g| R::T(rep(g)));
        let mut m = Out::default();
        let want = with_members(classes, || d_layout(&qs.named, &qs.main, v, rg.as_ref(), &rin, &mut m));
        ctx.trace();
        let name = |r: u32| term_of(&voc, &part, r).unwrap_or_else(|| blank(&format!("r{r}")));
        let raw: Ds = ds.iter().map(|q| (name(*q.0), name(*q.1), name(*q.2), q.3.map(|g| name(*g)))).collect();
        let mut full = raw.clone();
        let mut assigned: BTreeMap<u32, BTreeSet<Term>> = BTreeMap::new();
        for (r, t) in &part.assigned {
            let t = match t {
                Ok(i) => Term::iri(voc.iri(i).unwrap().to_owned()),
                Err(l) => lit_of(&voc, l),
            };
            full.insert((name(*r), ex("assigned"), t.clone(), Some(ex("assigned"))));
            assigned.entry(*r).or_default().insert(t);
        }
        let show = |r: &R| match r {
            R::In(i) => blank(&format!("in{i}")),
            R::Fresh(i) => blank(&format!("f{i}")),
            R::T(t) => t.clone(),
        };
        let mut mds: Ds = m.quads.iter().map(|q| (show(&q.0), show(&q.1), show(&q.2), q.3.as_ref().map(show))).collect();
        for (r, ts) in &m.assign {
            for t in ts {
                mds.insert((show(r), ex("assigned"), t.clone(), Some(ex("assigned"))));
            }
        }
        let shown: Vec<Term> = ins.iter().map(|r| name(*r)).collect();
        let ok = match (&got, &want) {
            (Ok(Ok(())), Ok(())) => iso(&full, &shown, &mds, &rin.iter().map(show).collect::<Vec<_>>(), false),
            (Ok(Err(_)), Err(_)) => true,
            _ => false,
        };
        if !ok {
            let what = if got.is_err() { "a derived serializer crashed" } else { "a derived serializer differs from the layout it stands for" };
            ctx.violate(key, what, json!({"layout": self.s.main.json(), "value": v.show(), "inputs": format!("{inputs:?}"), "graph": g.map(|g| g.to_string()),
                "synonyms": show_classes(classes), "derived": format!("{got:?}"), "statements": show_ds(&full),
                "reference": format!("{want:?}"), "expected": show_ds(&mds)}));
            return None;
        }
        if want.is_err() {
            ctx.count("not_written", 1);
            return None;
        }
        ctx.count("written", 1);
        // every resource named by the term it was given
        let mut names: BTreeMap<Term, Term> = BTreeMap::new();
        for (r, ts) in assigned {
            let t = ts.first().unwrap().clone();
            if ts.len() > 1 || term_of(&voc, &part, r).is_some_and(|u| norm_term(&u) != norm_term(&t)) {
                return None;
            }
            names.insert(name(r), t);
        }
        let sub = |t: &Term| names.get(t).cloned().unwrap_or_else(|| t.clone());
        Some((raw.iter().map(|q| (sub(&q.0), sub(&q.1), sub(&q.2), q.3.as_ref().map(sub))).collect(), shown.iter().map(sub).collect()))
    }
}

/// Explores every type of the family.
///
/// `overflow`: recursive types overflow the stack on cyclic data.
pub fn explore(ctx: &Ctx, fam: &[(Sys, &Ops)], faithful: &BTreeSet<String>, overflow: bool) {
    let plain: Vec<Vec<Term>> = vec![];
    ctx.par(fam, |_, (s, ops)| {
        let name = &s.name;
        let case = Case { ctx, s, ops, consts: constants(s), needed: needed(s), overflow };
        // ---- reading
        let mut pools = vec![quad_pool(s, false), quad_pool(s, true)];
        pools.dedup();
        let mut ins = input_choices(s).into_iter().filter(|i| i.len() == inputs_of(s).len()).collect::<Vec<_>>();
        if ctx.quick() {
            ins.truncate(12);
        }
        for (pi, pool) in pools.iter().enumerate() {
            each_ds(ctx, pool, ctx.bound(300, 4_000), 5, |ds, dk| {
                for (ii, inputs) in ins.iter().enumerate() {
                    if ii > 0 && ds.len() > 2 {
                        break;
                    }
                    for gi in 0..3 {
                        let g = (gi > 0).then(|| ex(G_IRI));
                        let moved: Ds = match gi {
                            1 => ds.iter().map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), Some(q.3.clone().unwrap_or_else(|| ex(G_IRI))))).collect(),
                            _ => ds.clone(),
                        };
                        for bare in [false, true] {
                            if gi == 2 && (bare || ds.len() > 2) {
                                continue;
                            }
                            let key = format!("{name}|r{pi}|d{dk}|i{ii}|g{gi}|b{}", bare as u8);
                            if ctx.begin(&key) {
                                ctx.state();
                                case.read(&key, &moved, g.as_ref(), inputs, &plain, ii % 3, bare);
                            }
                        }
                    }
                }
            });
        }
        each_ds(ctx, &pools[pools.len() - 1], ctx.bound(12, 200), 3, |ds, dk| {
            for (ii, inputs) in ins.iter().enumerate() {
                if ii > 0 && ds.len() > 1 {
                    break;
                }
                for (ci, classes) in interpretations(ds, inputs, ctx.bound(4, 5)).iter().enumerate() {
                    // datatypes are told by their IRI
                    let datatype = |t: &Term| matches!(t, Term::Id(Id::Iri(i)) if i.as_str().starts_with(XSD));
                    if classes.iter().any(|c| c.len() > 1 && c.iter().any(datatype)) || classes.iter().all(|c| c.len() == 1) {
                        continue;
                    }
                    for bare in [false, true] {
                        let key = format!("{name}|s|d{dk}|i{ii}|c{ci}|b{}", bare as u8);
                        if ctx.begin(&key) {
                            ctx.state();
                            case.read(&key, ds, None, inputs, classes, ci % 3, bare);
                        }
                    }
                }
            }
        });
        // ---- spellings
        if let Some((dt, words)) = spellings(ctx, s) {
            for (i, w) in words.into_iter().enumerate() {
                let key = format!("{name}|l{i}");
                if ctx.begin(&key) {
                    ctx.state();
                    ctx.count("spellings", 1);
                    case.read(&key, &Ds::new(), None, &[lit(&w, &dt)], &plain, i % 3, false);
                }
            }
        }
        // ---- writing, then reading back
        let worlds: Vec<Vec<Vec<Term>>> = vec![
            vec![],
            vec![vec![ex("q"), ex("r")]],
            vec![vec![ex("a"), ex("c")], vec![ex("p"), ex("r")]],
            vec![vec![ex("T"), ex("a"), s_lit("s")]],
            vec![vec![nil(), ex("b")]],
        ];
        let mut vals = tvals(&s.main, s, ctx.bound(2, 3), 0);
        vals.truncate(ctx.bound(120, 1200));
        for (vi, v) in vals.iter().enumerate() {
            for (wi, classes) in worlds.iter().enumerate() {
                for ini in 0..3 {
                    for gi in 0..2 {
                        let bare = (vi + wi + gi) % 2 == 1;
                        let key = format!("{name}|w|v{vi}|w{wi}|i{ini}|g{gi}");
                        if ini == 2 && s.main.h.inputs < 2 || !ctx.begin(&key) {
                            continue;
                        }
                        ctx.state();
                        let inputs: Vec<In> = (0..s.main.h.inputs)
                            .map(|i| match (ini, i) {
                                (0, _) | (2, 1) => In::Fresh,
                                (_, i) => In::T(ex(["a", "b", "c"][i.min(2)])),
                            })
                            .collect();
                        let g = (gi == 1).then(|| ex(G_IRI));
                        let Some((ds, ins)) = case.write(&key, v, &inputs, g.as_ref(), classes, wi % 3, bare) else { continue };
                        if wi > 0 {
                            continue;
                        }
                        let back = case.read(&key, &ds, g.as_ref(), &ins, &plain, 0, bare);
                        if ini == 0 && faithful.contains(&s.name) && !repeated_identity(v) {
                            ctx.count("round_trips", 1);
                            let same = matches!(&back, Some(Ok(b)) if back_same(&s.main, &s.named, &v.untyped(), &b.untyped()));
                            if !same {
                                ctx.violate(&key, "the value of a derived type read back differs", json!({"layout": s.main.json(), "value": v.show(), "dataset": show_ds(&ds), "back": format!("{back:?}")}));
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Resources named by any number of IRIs and blank node identifiers, read and
/// written as `Id`s.
/// `blanks`: blank node identifiers are read.
pub fn ids<T>(ctx: &Ctx, name: &str, blanks: bool, of: fn(Id) -> T, to: fn(&T) -> String)
where
    T: DeserializeLd<1, Voc, Part> + SerializeLd<1, Voc, Part>,
{
    let pool = [ex("a"), ex("b"), blank("x"), blank("y"), s_lit("s")];
    for m in 0..1usize << pool.len() {
        let class: Vec<Term> = (0..pool.len()).filter(|i| m & 1 << i != 0).map(|i| pool[i].clone()).collect();
        let key = format!("{name}|r{m}");
        if !class.is_empty() && ctx.begin(&key) {
            ctx.state();
            let (mut voc, mut part) = World::start(std::slice::from_ref(&class), m % 3, true);
            let r = World::res_in(&mut voc, &mut part, &class[0]);
            let got = ctx.guarded(|| T::deserialize_ld_with(RdfContext::new(&voc, &part), &FlatDs(vec![]), None, &[r]).ok().map(|i| to(&i)));
            let of = |iri: bool| class.iter().filter(|t| matches!(t, Term::Id(i) if i.is_iri() == iri)).collect::<Vec<_>>();
            let names = if of(true).is_empty() && blanks { of(false) } else { of(true) };
            let want = (names.len() == 1).then(|| names[0].to_string());
            ctx.trace();
            let strip = |s: &Option<String>| s.as_ref().map(|s| s.trim_matches(|c| c == '<' || c == '>').to_owned());
            if got.as_ref().map(strip) != Ok(strip(&want)) {
                ctx.violate(&key, "the identifier of a resource is misread", json!({"terms": show_terms(&class), "read": format!("{got:?}"), "expected": want}));
            }
        }
    }
    for (i, id) in [Id::Iri(iref::IriBuf::new("http://e/a".into()).unwrap()), Id::Blank(BlankIdBuf::new("_:x".into()).unwrap())].into_iter().enumerate() {
        for (ci, class) in [vec![], vec![ex("a")], vec![ex("b")], vec![blank("x")], vec![s_lit("s")]].into_iter().enumerate() {
            let key = format!("{name}|w{i}|{ci}");
            if !ctx.begin(&key) {
                continue;
            }
            ctx.state();
            let (mut voc, mut part) = World::start(&[class.clone()].into_iter().filter(|c| !c.is_empty()).collect::<Vec<_>>(), ci, true);
            let r = match class.first() {
                Some(t) => World::res_in(&mut voc, &mut part, t),
                None => part.new_resource(&mut voc),
            };
            let mut out = BTreeDataset::new();
            let got = ctx.guarded(|| of(id.clone()).serialize_ld_with(&mut RdfContextMut::new(&mut voc, &mut part), &[r], None, &mut out).is_ok());
            ctx.trace();
            let given: Vec<String> = part
                .assigned
                .iter()
                .filter_map(|(x, t)| t.as_ref().ok().map(|i| (x, voc.iri(i).unwrap().to_string())))
                .chain(part.assigned_blanks.iter().map(|(x, b)| (x, voc.blank_id(b).unwrap().to_string())))
                .map(|(x, t)| { assert_eq!(*x, r); t })
                .collect();
            let want = match &id {
                Id::Iri(i) => i.to_string(),
                Id::Blank(b) => b.to_string(),
            };
            if got != Ok(true) || given != [want.clone()] || out.iter().next().is_some() || part.iris_of(&r).len() > 1 {
                ctx.violate(&key, "an identifier is not given to its resource", json!({"id": want, "terms": show_terms(&class), "given": given, "outcome": format!("{got:?}")}));
            }
        }
    }
}

