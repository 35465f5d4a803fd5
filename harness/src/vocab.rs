//! C09: caller-provided vocabularies and interpretations.
//!
//! Resources are numbers. Every partition of the terms at hand into resources
//! is one interpretation; terms live in an `IndexVocabulary`.
use crate::{core::*, fam::*, model::*, pats, real::*, roundtrip::show_terms, rt::Ctx};
use rdf_types::{
    interpretation::{BlankIdInterpretation, BlankIdInterpretationMut, IriInterpretation, IriInterpretationMut, LiteralInterpretation, LiteralInterpretationMut, ReverseBlankIdInterpretation, ReverseBlankIdInterpretationMut, ReverseIriInterpretation, ReverseIriInterpretationMut, ReverseLiteralInterpretation, ReverseLiteralInterpretationMut},
    vocabulary::{BlankIdIndex, BlankIdVocabulary, BlankIdVocabularyMut, IndexVocabulary, IriIndex, IriVocabulary, IriVocabularyMut, LiteralIndex, LiteralVocabulary, LiteralVocabularyMut},
    Id, Interpretation, InterpretationMut, Literal, LiteralType, Quad, Term,
};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts as tl;
use treeldr_layouts::{layout::LayoutType, Layouts, Ref};

pub type Voc = IndexVocabulary<IriIndex, BlankIdIndex, LiteralIndex>;

/// Resources as numbers, each with any number of terms.
#[derive(Default, Clone)]
pub struct Part {
    count: u32,
    pub by_iri: BTreeMap<IriIndex, u32>,
    by_lit: BTreeMap<LiteralIndex, u32>,
    by_blank: BTreeMap<Term, u32>,
    /// whether blank nodes have an identifier one may look up
    pub name_blanks: bool,
    by_bid: BTreeMap<BlankIdIndex, u32>,
    bids: BTreeMap<u32, Vec<BlankIdIndex>>,
    iris: BTreeMap<u32, Vec<IriIndex>>,
    lits: BTreeMap<u32, Vec<LiteralIndex>>,
    /// terms given by the code under test
    pub assigned: Vec<(u32, Result<IriIndex, LiteralIndex>)>,
    pub assigned_blanks: Vec<(u32, BlankIdIndex)>,
}

impl Interpretation for Part {
    type Resource = u32;
}
impl InterpretationMut<Voc> for Part {
    fn new_resource(&mut self, _: &mut Voc) -> u32 {
        self.count += 1;
        self.count - 1
    }
}
impl IriInterpretationMut<IriIndex> for Part {
    fn interpret_iri(&mut self, i: IriIndex) -> u32 {
        if let Some(r) = self.by_iri.get(&i) {
            return *r;
        }
        let r = self.count;
        self.count += 1;
        self.by_iri.insert(i, r);
        self.iris.entry(r).or_default().push(i);
        r
    }
}
impl LiteralInterpretationMut<LiteralIndex> for Part {
    fn interpret_literal(&mut self, i: LiteralIndex) -> u32 {
        if let Some(r) = self.by_lit.get(&i) {
            return *r;
        }
        let r = self.count;
        self.count += 1;
        self.by_lit.insert(i, r);
        self.lits.entry(r).or_default().push(i);
        r
    }
}
impl ReverseIriInterpretation for Part {
    type Iri = IriIndex;
    type Iris<'a> = std::slice::Iter<'a, IriIndex>;
    fn iris_of<'a>(&'a self, id: &'a u32) -> Self::Iris<'a> {
        self.iris.get(id).map(|v| v.as_slice()).unwrap_or_default().iter()
    }
}
impl ReverseIriInterpretationMut for Part {
    fn assign_iri(&mut self, id: &u32, iri: IriIndex) -> bool {
        self.assigned.push((*id, Ok(iri)));
        true
    }
}
impl ReverseLiteralInterpretation for Part {
    type Literal = LiteralIndex;
    type Literals<'a> = std::slice::Iter<'a, LiteralIndex>;
    fn literals_of<'a>(&'a self, id: &'a u32) -> Self::Literals<'a> {
        self.lits.get(id).map(|v| v.as_slice()).unwrap_or_default().iter()
    }
}
impl ReverseLiteralInterpretationMut for Part {
    fn assign_literal(&mut self, id: &u32, l: LiteralIndex) -> bool {
        self.assigned.push((*id, Err(l)));
        true
    }
}

impl IriInterpretation<IriIndex> for Part {
    fn iri_interpretation(&self, i: &IriIndex) -> Option<u32> {
        self.by_iri.get(i).copied()
    }
}
impl LiteralInterpretation<LiteralIndex> for Part {
    fn literal_interpretation(&self, i: &LiteralIndex) -> Option<u32> {
        self.by_lit.get(i).copied()
    }
}
impl BlankIdInterpretation<BlankIdIndex> for Part {
    fn blank_id_interpretation(&self, i: &BlankIdIndex) -> Option<u32> {
        self.by_bid.get(i).copied()
    }
}
impl BlankIdInterpretationMut<BlankIdIndex> for Part {
    fn interpret_blank_id(&mut self, i: BlankIdIndex) -> u32 {
        if let Some(r) = self.by_bid.get(&i) {
            return *r;
        }
        let r = self.count;
        self.count += 1;
        self.by_bid.insert(i, r);
        self.bids.entry(r).or_default().push(i);
        r
    }
}
impl ReverseBlankIdInterpretation for Part {
    type BlankId = BlankIdIndex;
    type BlankIds<'a> = std::slice::Iter<'a, BlankIdIndex>;
    fn blank_ids_of<'a>(&'a self, id: &'a u32) -> Self::BlankIds<'a> {
        self.bids.get(id).map(|v| v.as_slice()).unwrap_or_default().iter()
    }
}
impl ReverseBlankIdInterpretationMut for Part {
    fn assign_blank_id(&mut self, id: &u32, b: BlankIdIndex) -> bool {
        self.assigned_blanks.push((*id, b));
        true
    }
}

impl Part {
    /// The resource is also this term.
    pub fn attach(&mut self, voc: &mut Voc, r: u32, t: &Term) {
        match t {
            Term::Id(Id::Iri(i)) => {
                let i = voc.insert(i);
                self.by_iri.insert(i, r);
                self.iris.entry(r).or_default().push(i);
            }
            Term::Id(Id::Blank(b)) => {
                self.by_blank.insert(t.clone(), r);
                if self.name_blanks {
                    let b = voc.insert_blank_id(b);
                    self.by_bid.insert(b, r);
                    self.bids.entry(r).or_default().push(b);
                }
            }
            Term::Literal(l) => {
                let i = World::intern_lit(voc, l);
                self.by_lit.insert(i, r);
                self.lits.entry(r).or_default().push(i);
            }
        }
    }
}

pub struct World {
    voc: Voc,
    part: Part,
    layouts: Layouts<u32>,
    main: Ref<LayoutType, u32>,
}

impl World {
    fn intern_lit(voc: &mut Voc, l: &Literal) -> LiteralIndex {
        let ty = match &l.type_ {
            LiteralType::Any(i) => LiteralType::Any(voc.insert(i)),
            LiteralType::LangString(t) => LiteralType::LangString(t.clone()),
        };
        voc.insert_owned_literal(Literal::new(l.value.clone(), ty))
    }
    /// The resource of a term.
    fn res(&mut self, t: &Term) -> u32 {
        Self::res_in(&mut self.voc, &mut self.part, t)
    }
    pub fn res_in(voc: &mut Voc, part: &mut Part, t: &Term) -> u32 {
        match t {
            Term::Id(Id::Iri(i)) => {
                let i = voc.insert(i);
                part.interpret_iri(i)
            }
            Term::Id(Id::Blank(b)) => match part.by_blank.get(t) {
                Some(r) => *r,
                None => {
                    let r = if part.name_blanks {
                        part.interpret_blank_id(voc.insert_blank_id(b))
                    } else {
                        part.count += 1;
                        part.count - 1
                    };
                    part.by_blank.insert(t.clone(), r);
                    r
                }
            },
            Term::Literal(l) => {
                let i = Self::intern_lit(voc, l);
                part.interpret_literal(i)
            }
        }
    }
    /// Interprets the terms of each class as one resource.
    pub fn start(classes: &[Vec<Term>], shift: usize, name_blanks: bool) -> (Voc, Part) {
        let mut voc = Voc::default();
        let mut part = Part::default();
        part.name_blanks = name_blanks;
        for i in 0..shift {
            Self::res_in(&mut voc, &mut part, &ex(&format!("shift{i}")));
            Self::res_in(&mut voc, &mut part, &s_lit(&format!("shift{i}")));
            part.count += 3;
        }
        for c in classes {
            let r = part.count;
            part.count += 1;
            for t in c {
                part.attach(&mut voc, r, t);
            }
        }
        (voc, part)
    }
    /// Interprets the terms of each class as one resource, then compiles the
    /// layouts through this interpretation. `shift` terms are interned first.
    pub fn new(s: &Sys, classes: &[Vec<Term>], shift: usize) -> Result<World, String> {
        let (mut voc, mut part) = Self::start(classes, shift, false);
        let mut builder = tl::abs::Builder::<u32>::default();
        let mut main_named = None;
        for (n, l) in &s.named {
            let r = parse_layout_serde(&l.json())?.build_with_interpretation(&mut voc, &mut part, &mut builder).map_err(|e| e.to_string())?;
            if s.main.id.as_deref() == Some(n) {
                main_named = Some(r);
            }
        }
        let main = match main_named {
            Some(r) => r,
            None => parse_layout_serde(&s.main.json())?.build_with_interpretation(&mut voc, &mut part, &mut builder).map_err(|e| e.to_string())?,
        };
        Ok(World { layouts: builder.build(), main, voc, part })
    }

    fn hydrate(&mut self, ds: &Ds, g: Option<&Term>, inputs: &[Term]) -> Result<Tree, HErr> {
        let mut d = vec![];
        for q in ds {
            let q = Quad(self.res(&q.0), self.res(&q.1), self.res(&q.2), q.3.as_ref().map(|g| self.res(g)));
            if !d.contains(&q) {
                d.push(q);
            }
        }
        let ins: Vec<u32> = inputs.iter().map(|t| self.res(t)).collect();
        let g = g.map(|g| self.res(g));
        tl::distill::hydrate_with(&self.voc, &self.part, &self.layouts, &FlatDs(d), g.as_ref(), &self.main, &ins)
            .map(|v| Tree::of_typed(&v))
            .map_err(|e| herr(&e))
    }

    fn term_of(&self, r: u32) -> Option<Term> {
        term_of(&self.voc, &self.part, r)
    }
    fn lit(&self, i: &LiteralIndex) -> Term {
        lit_of(&self.voc, i)
    }

    /// Statements and assignments, resources shown as a representative term or
    /// a blank node; inputs likewise.
    fn dehydrate(&mut self, v: &tl::Value, inputs: &[In], g: Option<&Term>) -> Result<(Ds, Vec<Term>), String> {
        let mut ins = vec![];
        for i in inputs {
            ins.push(match i {
                In::Fresh => self.part.new_resource(&mut self.voc),
                In::T(t) => self.res(t),
            });
        }
        let g = g.map(|g| self.res(g));
        self.part.assigned.clear();
        let mut ds: rdf_types::dataset::BTreeDataset<u32> = Default::default();
        let mut rdf = tl::distill::RdfContextMut { vocabulary: &mut self.voc, interpretation: &mut self.part };
        tl::distill::dehydrate_with(&mut rdf, &self.layouts, v, g.as_ref(), &self.main, &ins, &mut ds).map_err(|e| e.to_string())?;
        let show = |r: u32| self.term_of(r).unwrap_or_else(|| blank(&format!("r{r}")));
        let mut out: Ds = ds.iter().map(|q| (show(*q.0), show(*q.1), show(*q.2), q.3.map(|g| show(*g)))).collect();
        for (r, t) in &self.part.assigned {
            let t = match t {
                Ok(i) => Term::iri(self.voc.iri(i).unwrap().to_owned()),
                Err(l) => self.lit(l),
            };
            out.insert((show(*r), ex("assigned"), t, Some(ex("assigned"))));
        }
        Ok((out, ins.into_iter().map(show).collect()))
    }
}

/// Some term of the resource.
pub fn term_of(voc: &Voc, part: &Part, r: u32) -> Option<Term> {
    if let Some(i) = part.iris.get(&r).and_then(|v| v.first()) {
        return Some(Term::iri(voc.iri(i).unwrap().to_owned()));
    }
    if let Some(i) = part.lits.get(&r).and_then(|v| v.first()) {
        return Some(lit_of(voc, i));
    }
    if let Some(i) = part.bids.get(&r).and_then(|v| v.first()) {
        return Some(Term::blank(voc.blank_id(i).unwrap().to_owned()));
    }
    None
}
pub fn lit_of(voc: &Voc, i: &LiteralIndex) -> Term {
    let l = voc.literal(i).unwrap();
    let ty = match l.type_ {
        rdf_types::LiteralTypeRef::Any(i) => LiteralType::Any(voc.iri(i).unwrap().to_owned()),
        rdf_types::LiteralTypeRef::LangString(t) => LiteralType::LangString(t.to_owned()),
    };
    Term::Literal(Literal::new(l.value.to_owned(), ty))
}

#[derive(Clone, Debug)]
pub enum In {
    Fresh,
    T(Term),
}

/// Every partition of `t`.
pub fn partitions(t: &[Term]) -> Vec<Vec<Vec<Term>>> {
    match t.split_last() {
        None => vec![vec![]],
        Some((x, rest)) => {
            let mut out = vec![];
            for p in partitions(rest) {
                for i in 0..p.len() {
                    let mut q = p.clone();
                    q[i].push(x.clone());
                    out.push(q);
                }
                let mut q = p;
                q.push(vec![x.clone()]);
                out.push(q);
            }
            out
        }
    }
}

/// The layouts with every constant replaced by the representative of its class.
pub fn quotient(s: &Sys, rep: &dyn Fn(&Term) -> Term) -> Sys {
    fn pat(p: &mut Pat, rep: &dyn Fn(&Term) -> Term) {
        if let C(t) = p {
            *t = rep(t)
        }
    }
    fn ds(d: &mut [PQ], rep: &dyn Fn(&Term) -> Term) {
        for q in d {
            pat(&mut q.0, rep);
            pat(&mut q.1, rep);
            pat(&mut q.2, rep);
            if let Some(g) = &mut q.3 {
                pat(g, rep)
            }
        }
    }
    fn comp(c: &mut Comp, rep: &dyn Fn(&Term) -> Term) {
        ds(&mut c.ds, rep);
        c.input.iter_mut().for_each(|p| pat(p, rep));
        if let G::P(p) = &mut c.graph {
            pat(p, rep)
        }
        if let LR::In(l) = &mut c.layout {
            go(l, rep)
        }
    }
    fn go(l: &mut L, rep: &dyn Fn(&Term) -> Term) {
        ds(&mut l.h.ds, rep);
        match &mut l.k {
            K::Id(p) | K::Bool(p, _) | K::Num(p, _) | K::Str(p, _) | K::Bytes(p, _) => pat(p, rep),
            K::Record(f) => f.values_mut().for_each(|(c, _)| comp(c, rep)),
            K::Sum(v) => v.iter_mut().for_each(|(_, c)| comp(c, rep)),
            K::Set(c) => comp(c, rep),
            K::List(h, t, c) => {
                pat(h, rep);
                pat(t, rep);
                comp(c, rep)
            }
            K::Tuple(v) => v.iter_mut().for_each(|c| comp(c, rep)),
            K::Never | K::Always | K::Unit(_) => {}
        }
    }
    let mut s = s.clone();
    go(&mut s.main, rep);
    s.named.values_mut().for_each(|l| go(l, rep));
    s
}

pub fn with_members<T>(classes: &[Vec<Term>], f: impl FnOnce() -> T) -> T {
    MEMBERS.with(|m| {
        let mut m = m.borrow_mut();
        m.clear();
        for c in classes {
            // datatypes are looked up under any of their names
            for t in c {
                m.insert(t.clone(), c.clone());
            }
        }
    });
    let r = f();
    MEMBERS.with(|m| m.borrow_mut().clear());
    r
}

pub fn show_classes(c: &[Vec<Term>]) -> serde_json::Value {
    json!(c.iter().filter(|c| c.len() > 1).map(|c| show_terms(c)).collect::<Vec<_>>())
}

pub fn interpretations(ds: &Ds, inputs: &[Term], max: usize) -> Vec<Vec<Vec<Term>>> {
    let mut t: BTreeSet<Term> = inputs.iter().cloned().collect();
    for q in ds {
        t.insert(q.0.clone());
        t.insert(q.2.clone());
    }
    // terms the data does not mention
    let mut t: Vec<Term> = t.into_iter().collect();
    for extra in [ex("c"), s_lit("u"), xsd("7", "integer"), xsd("true", "boolean")] {
        if t.len() < max && !t.contains(&extra) {
            t.push(extra);
        }
    }
    t.truncate(max);
    let mut out = partitions(&t);
    // synonyms among properties and datatypes
    out.push(vec![vec![ex("q"), ex("r")]]);
    out.push(vec![vec![ex("p"), ex("q")], vec![ex("type"), ex("p2")]]);
    out.push(vec![vec![iri(&format!("{XSD}integer")), iri(&format!("{XSD}decimal"))], vec![iri(&format!("{XSD}string")), ex("dt")]]);
    out.push(vec![vec![iri(&format!("{XSD}integer")), iri(&format!("{XSD}string"))]]);
    out.push(vec![vec![nil(), ex("b")]]);
    out.push(vec![vec![nil(), ex("a")], vec![first(), rest()]]);
    out
}

/// Datatypes going by several names, in both orders.
fn datatype_synonyms() -> Vec<Vec<Vec<Term>>> {
    let x = |d: &str| iri(&format!("{XSD}{d}"));
    let mut out = vec![];
    for c in [
        vec![x("boolean"), ex("dt")],
        vec![x("boolean"), x("string"), x("integer")],
        vec![x("integer"), x("double")],
        vec![x("decimal"), ex("dt"), x("byte")],
        vec![x("double"), x("decimal"), x("integer")],
        vec![x("string"), ex("dt")],
        vec![x("string"), x("integer")],
        vec![x("hexBinary"), x("string")],
    ] {
        let mut r = c.clone();
        r.reverse();
        out.extend([vec![c], vec![r]]);
    }
    out
}

/// Literals of a resource under several names of the layout's datatype.
fn named_datatypes() -> Vec<(Sys, Vec<Term>)> {
    let x = |v: &str| ["boolean", "string", "integer", "decimal", "double", "byte", "hexBinary"].map(|d| xsd(v, d)).to_vec();
    let mut out = vec![];
    for (nm, l, words) in [
        ("bool", l_bool(), vec!["true", "0", "no"]),
        ("bool:custom", leaf(K::Bool(V(0), "http://e/dt".into())), vec!["true"]),
        ("str", l_str(), vec!["s", "1"]),
        ("str:custom", leaf(K::Str(V(0), "http://e/dt".into())), vec!["s"]),
        ("int", l_num("integer"), vec!["1", "1.5", "x"]),
        ("dec", l_num("decimal"), vec!["1", "1.5", "1e5"]),
        ("double", l_num("double"), vec!["1", "1e5"]),
        ("byte", l_num("byte"), vec!["1", "1000"]),
        ("bytes", leaf(K::Bytes(V(0), format!("{XSD}hexBinary"))), vec!["ff"]),
    ] {
        let mut ts: Vec<Term> = words.iter().flat_map(|w| x(w)).collect();
        ts.extend(words.iter().map(|w| lit(w, "http://e/dt")));
        ts.push(lang("s", "en"));
        out.push((sys(&format!("names:{nm}"), l), ts));
    }
    out
}

fn datatypes(ctx: &Ctx) {
    let all = named_datatypes();
    ctx.par(&all, |_, (s, terms)| {
        let none = Ds::new();
        for (ai, a) in terms.iter().enumerate() {
            for (bi, b) in terms.iter().enumerate() {
                for (pi, mut classes) in datatype_synonyms().into_iter().enumerate() {
                    let key = format!("{}|t{ai}.{bi}|p{pi}", s.name);
                    if !ctx.begin(&key) {
                        continue;
                    }
                    ctx.state();
                    if a != b {
                        classes.push(vec![a.clone(), b.clone()]);
                    }
                    let mut world = match ctx.guarded(|| World::new(s, &classes, pi % 3)) {
                        Ok(Ok(w)) => w,
                        Ok(Err(e)) | Err(e) => {
                            ctx.violate(&key, "a layout does not compile through the interpretation", json!({"layout": s.main.json(), "error": e}));
                            continue;
                        }
                    };
                    let got = ctx.guarded(|| world.hydrate(&none, None, &[a.clone()]));
                    let want = with_members(&classes, || m_hydrate(s, &none, None, &[a.clone()]));
                    ctx.trace();
                    if want.is_ok() {
                        ctx.count("accepted_with_synonyms", 1);
                    }
                    if !got.as_ref().is_ok_and(|r| same_h(r, &want)) {
                        ctx.violate(&key, "a literal of a datatype with several names is not read as the reference does",
                            json!({"layout": s.main.json(), "literals": [a.to_string(), b.to_string()], "synonyms": show_classes(&classes), "interpreted": format!("{got:?}"), "expected": show_m(&want)}));
                    }
                }
            }
        }
    });
}

pub fn c09(ctx: &Ctx) {
    datatypes(ctx);
    let mut systems: Vec<(Sys, u64)> = vec![];
    for s in faithful(ctx.bound(1, 2)) {
        systems.push((s, ctx.bound(60, 600)));
    }
    for s in faithful(1).iter().map(pats::share) {
        systems.push((s, ctx.bound(20, 200)));
    }
    for s in adversarial() {
        // references to layouts under names that may be merged are left out
        systems.push((s, ctx.bound(60, 600)));
    }
    for (i, (s, _, _)) in pats::pattern_systems(false).into_iter().enumerate() {
        if !ctx.quick() || i % 5 == 0 {
            systems.push((s, ctx.bound(24, 300)));
        }
    }
    let max = ctx.bound(4, 5);
    ctx.par(&systems, |_, (s, budget)| {
        let Some(real) = load_or_report(ctx, s) else { return };
        let pool = quad_pool(s, true);
        let leafy = s.name.starts_with("leaf:") || s.name.starts_with("rec!(");
        let mut ins = input_choices(s);
        if ctx.quick() {
            ins.truncate(6);
        }
        each_ds(ctx, &pool, *budget, 3, |ds, dk| {
            for (ii, inputs) in ins.iter().enumerate() {
                if ii > 0 && ds.len() > 1 {
                    break;
                }
                let mut all = interpretations(ds, inputs, max);
                if leafy {
                    all.extend(datatype_synonyms());
                }
                for (pi, classes) in all.iter().enumerate() {
                    let key = format!("{}|h|d{}|i{}|p{}", s.name, dk, ii, pi);
                    if !ctx.begin(&key) {
                        continue;
                    }
                    ctx.state();
                    let rep = |t: &Term| classes.iter().find(|c| c.contains(t)).map(|c| c[0].clone()).unwrap_or_else(|| t.clone());
                    let mut world = match ctx.guarded(|| World::new(s, classes, pi % 3)) {
                        Ok(Ok(w)) => w,
                        Ok(Err(e)) | Err(e) => {
                            ctx.violate(&key, "a layout does not compile through the interpretation", json!({"layout": s.main.json(), "synonyms": show_classes(classes), "error": e}));
                            continue;
                        }
                    };
                    let got = ctx.guarded(|| world.hydrate(ds, None, inputs));
                    let qs = quotient(s, &rep);
                    let qd: Ds = ds.iter().map(|q| (rep(&q.0), rep(&q.1), rep(&q.2), q.3.as_ref().map(&rep))).collect();
                    let qi: Vec<Term> = inputs.iter().map(&rep).collect();
                    let want = with_members(classes, || m_hydrate(&qs, &qd, None, &qi));
                    ctx.trace();
                    let detail = |x: serde_json::Value| json!({"layout": s.main.json(), "dataset": show_ds(ds), "inputs": show_terms(inputs), "synonyms": show_classes(classes), "interpreted": format!("{got:?}"), "expected": x});
                    match &got {
                        Err(_) => ctx.violate(&key, "hydration through an interpretation crashed", detail(json!(null))),
                        Ok(r) => {
                            if !same_h(r, &want) {
                                ctx.violate(&key, "hydration through an interpretation differs from the reference", detail(json!(show_m(&want))));
                                continue;
                            }
                            if r.is_ok() && classes.iter().any(|c| c.len() > 1) {
                                ctx.count("accepted_with_synonyms", 1);
                                ctx.sample(|| detail(json!(show_m(&want))));
                            }
                            // one term per resource: exactly the plain entry point
                            if classes.iter().all(|c| c.len() == 1) {
                                let plain = ctx.guarded(|| real.hydrate(ds, None, inputs).map(|v| Tree::of_typed(&v)));
                                if plain != got {
                                    ctx.violate(&key, "an interned vocabulary changes the outcome of hydration", detail(json!(format!("{plain:?}"))));
                                }
                            }
                        }
                    }
                }
            }
        });
        // ---- writing
        let worlds: Vec<Vec<Vec<Term>>> = vec![
            vec![],
            vec![vec![ex("q"), ex("r")]],
            vec![vec![ex("a"), ex("c")], vec![ex("p"), ex("r")]],
            vec![vec![ex("T"), ex("a"), s_lit("s")]],
        ];
        let mut worlds = worlds;
        if leafy {
            worlds.extend(datatype_synonyms());
        }
        for (vi, v) in values(s, !ctx.quick()).iter().enumerate() {
            for (wi, classes) in worlds.iter().enumerate() {
                for ini in 0..2 {
                    for gi in 0..2 {
                        let key = format!("{}|d|v{}|w{}|i{}|g{}", s.name, vi, wi, ini, gi);
                        if !ctx.begin(&key) {
                            continue;
                        }
                        ctx.state();
                        let rep = |t: &Term| classes.iter().find(|c| c.contains(t)).map(|c| c[0].clone()).unwrap_or_else(|| t.clone());
                        let mut world = match ctx.guarded(|| World::new(s, classes, wi % 2)) {
                            Ok(Ok(w)) => w,
                            Ok(Err(e)) | Err(e) => {
                                ctx.violate(&key, "a layout does not compile through the interpretation", json!({"layout": s.main.json(), "synonyms": show_classes(classes), "error": e}));
                                continue;
                            }
                        };
                        let val = v.to_value();
                        let inputs: Vec<In> = (0..s.main.h.inputs).map(|i| if ini == 0 { In::Fresh } else { In::T(ex(["a", "b", "c"][i.min(2)])) }).collect();
                        let g = if gi == 0 { None } else { Some(ex("g")) };
                        let got = ctx.guarded(|| world.dehydrate(&val, &inputs, g.as_ref()));
                        let qs = quotient(s, &rep);
                        let rin: Vec<R> = inputs.iter().enumerate().map(|(i, x)| match x { In::Fresh => R::In(i), In::T(t) => R::T(rep(t)) }).collect();
                        let mut m = Out::default();
                        let rg = g.as_ref().map(|g| R::T(rep(g)));
                        let want = with_members(classes, || d_layout(&qs.named, &qs.main, v, rg.as_ref(), &rin, &mut m)).map(|_| {
                            let show = |r: &R| match r {
                                R::In(i) => blank(&format!("in{i}")),
                                R::Fresh(i) => blank(&format!("f{i}")),
                                R::T(t) => t.clone(),
                            };
                            let mut ds: Ds = m.quads.iter().map(|q| (show(&q.0), show(&q.1), show(&q.2), q.3.as_ref().map(show))).collect();
                            for (r, ts) in &m.assign {
                                for t in ts {
                                    ds.insert((show(r), ex("assigned"), t.clone(), Some(ex("assigned"))));
                                }
                            }
                            (ds, rin.iter().map(show).collect::<Vec<_>>())
                        });
                        ctx.trace();
                        let ok = match (&got, &want) {
                            (Ok(Ok(a)), Ok(b)) => iso(&a.0, &a.1, &b.0, &b.1, false),
                            (Ok(Err(_)), Err(_)) => true,
                            _ => false,
                        };
                        if !ok {
                            ctx.violate(&key, "dehydration through an interpretation differs from the reference",
                                json!({"layout": s.main.json(), "value": v.show(), "synonyms": show_classes(classes), "inputs": format!("{inputs:?}"),
                                    "real": match &got { Ok(Ok(a)) => json!(show_ds(&a.0)), o => json!(format!("{o:?}")) },
                                    "reference": match &want { Ok(a) => json!(show_ds(&a.0)), o => json!(format!("{o:?}")) }}));
                        }
                    }
                }
            }
        }
    });
}
