//! Reference semantics of layouts, written independently of the
//! implementation: brute-force matching, symbolic instantiation.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use rdf_types::{Id, LiteralType, Term};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts as tl;

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

// ---------------------------------------------------------------- terms

pub fn iri(s: &str) -> Term {
    Term::iri(iref::IriBuf::new(s.to_owned()).unwrap())
}
/// `http://e/x`
pub fn ex(s: &str) -> Term {
    iri(&format!("http://e/{s}"))
}
pub fn blank(s: &str) -> Term {
    Term::blank(rdf_types::BlankIdBuf::new(format!("_:{s}")).unwrap())
}
pub fn lit(v: &str, ty: &str) -> Term {
    Term::Literal(rdf_types::Literal::new(
        v.to_owned(),
        LiteralType::Any(iref::IriBuf::new(ty.to_owned()).unwrap()),
    ))
}
pub fn xsd(v: &str, ty: &str) -> Term {
    lit(v, &format!("{XSD}{ty}"))
}
pub fn s_lit(v: &str) -> Term {
    xsd(v, "string")
}
pub fn lang(v: &str, tag: &str) -> Term {
    Term::Literal(rdf_types::Literal::new(
        v.to_owned(),
        LiteralType::LangString(langtag::LangTagBuf::new(tag.to_owned()).unwrap()),
    ))
}
pub fn nil() -> Term {
    iri(&format!("{RDF}nil"))
}
pub fn first() -> Term {
    iri(&format!("{RDF}first"))
}
pub fn rest() -> Term {
    iri(&format!("{RDF}rest"))
}

pub type Q4 = (Term, Term, Term, Option<Term>);
pub type Ds = BTreeSet<Q4>;

pub fn show_ds<'a>(ds: impl IntoIterator<Item = &'a Q4>) -> Vec<String> {
    ds.into_iter()
        .map(|q| match &q.3 {
            Some(g) => format!("{} {} {} {}", q.0, q.1, q.2, g),
            None => format!("{} {} {}", q.0, q.1, q.2),
        })
        .collect()
}

pub fn to_indexed<'a>(ds: impl IntoIterator<Item = &'a Q4>) -> rdf_types::dataset::IndexedBTreeDataset {
    ds.into_iter()
        .map(|q| rdf_types::Quad(q.0.clone(), q.1.clone(), q.2.clone(), q.3.clone()))
        .collect()
}

pub fn from_btree(ds: &rdf_types::dataset::BTreeDataset) -> Ds {
    ds.into_iter()
        .map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), q.3.cloned()))
        .collect()
}

// ---------------------------------------------------------------- trees

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tree {
    Unit,
    Bool(bool),
    Num(BigRational),
    Bytes(Vec<u8>),
    Str(String),
    Map(BTreeMap<Tree, Tree>),
    List(Vec<Tree>),
    /// typed only: selected variant index
    Var(u32, Box<Tree>),
    /// reference only: items of an unordered list, order left open
    Bag(Vec<Tree>),
}

/// Agreement of an observed tree with a reference tree.
pub fn agree(real: &Tree, model: &Tree) -> bool {
    match (real, model) {
        (Tree::List(a), Tree::Bag(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let mut left: Vec<&Tree> = b.iter().collect();
            a.iter().all(|x| match left.iter().position(|y| agree(x, y)) {
                Some(i) => {
                    left.remove(i);
                    true
                }
                None => false,
            })
        }
        (Tree::List(a), Tree::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agree(x, y)),
        (Tree::Map(a), Tree::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && agree(x, y))
        }
        (Tree::Var(i, a), Tree::Var(j, b)) => i == j && agree(a, b),
        (a, b) => a == b,
    }
}

pub fn s(v: &str) -> Tree {
    Tree::Str(v.into())
}
pub fn n(v: i64) -> Tree {
    Tree::Num(BigRational::from_integer(v.into()))
}
pub fn dec(num: i64, den: i64) -> Tree {
    Tree::Num(BigRational::new(num.into(), den.into()))
}
pub fn map<const N: usize>(e: [(&str, Tree); N]) -> Tree {
    Tree::Map(e.into_iter().map(|(k, v)| (s(k), v)).collect())
}
pub fn list(e: impl IntoIterator<Item = Tree>) -> Tree {
    Tree::List(e.into_iter().collect())
}

impl Tree {
    pub fn untyped(&self) -> Tree {
        match self {
            Tree::Var(_, v) => v.untyped(),
            Tree::Map(m) => Tree::Map(m.iter().map(|(k, v)| (k.untyped(), v.untyped())).collect()),
            Tree::List(l) => Tree::List(l.iter().map(|v| v.untyped()).collect()),
            Tree::Bag(l) => Tree::Bag(l.iter().map(|v| v.untyped()).collect()),
            o => o.clone(),
        }
    }
    pub fn to_value(&self) -> tl::Value {
        match self {
            Tree::Unit => tl::Value::Literal(tl::Literal::Unit),
            Tree::Bool(b) => tl::Value::Literal(tl::Literal::Boolean(*b)),
            Tree::Num(r) => tl::Value::Literal(tl::Literal::Number(r.clone().into())),
            Tree::Bytes(b) => tl::Value::Literal(tl::Literal::ByteString(b.clone())),
            Tree::Str(t) => tl::Value::Literal(tl::Literal::TextString(t.clone())),
            Tree::Map(m) => tl::Value::Map(m.iter().map(|(k, v)| (k.to_value(), v.to_value())).collect()),
            Tree::List(l) | Tree::Bag(l) => tl::Value::List(l.iter().map(|v| v.to_value()).collect()),
            Tree::Var(_, v) => v.to_value(),
        }
    }
    pub fn of_value(v: &tl::Value) -> Tree {
        match v {
            tl::Value::Literal(l) => match l {
                tl::Literal::Unit => Tree::Unit,
                tl::Literal::Boolean(b) => Tree::Bool(*b),
                tl::Literal::Number(r) => Tree::Num(r.as_big_rational().clone()),
                tl::Literal::ByteString(b) => Tree::Bytes(b.clone()),
                tl::Literal::TextString(t) => Tree::Str(t.clone()),
            },
            tl::Value::Map(m) => {
                Tree::Map(m.iter().map(|(k, v)| (Tree::of_value(k), Tree::of_value(v))).collect())
            }
            tl::Value::List(l) => Tree::List(l.iter().map(Tree::of_value).collect()),
        }
    }
    pub fn of_typed<R>(v: &tl::TypedValue<R>) -> Tree {
        match v {
            tl::TypedValue::Literal(l) => match l {
                tl::TypedLiteral::Unit(c, _) => Tree::of_value(c),
                tl::TypedLiteral::Boolean(b, _) => Tree::Bool(*b),
                tl::TypedLiteral::Number(r, _) => Tree::Num(r.as_big_rational().clone()),
                tl::TypedLiteral::ByteString(b, _) => Tree::Bytes(b.clone()),
                tl::TypedLiteral::TextString(t, _) => Tree::Str(t.clone()),
                tl::TypedLiteral::Id(t, _) => Tree::Str(t.clone()),
            },
            tl::TypedValue::Variant(v, _, i) => Tree::Var(*i, Box::new(Tree::of_typed(v))),
            tl::TypedValue::Map(m, _) => {
                Tree::Map(m.iter().map(|(k, v)| (Tree::of_value(k), Tree::of_typed(v))).collect())
            }
            tl::TypedValue::List(l, _) => Tree::List(l.iter().map(Tree::of_typed).collect()),
            tl::TypedValue::Always(v) => Tree::of_value(v),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Tree::Unit => "()".into(),
            Tree::Bool(b) => b.to_string(),
            Tree::Num(r) => r.to_string(),
            Tree::Bytes(b) => format!("h{b:02x?}"),
            Tree::Str(t) => format!("{t:?}"),
            Tree::Map(m) => format!(
                "{{{}}}",
                m.iter().map(|(k, v)| format!("{}: {}", k.show(), v.show())).collect::<Vec<_>>().join(", ")
            ),
            Tree::List(l) | Tree::Bag(l) => format!("[{}]", l.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
            Tree::Var(i, v) => format!("#{i}({})", v.show()),
        }
    }
}

// ---------------------------------------------------------------- layouts

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Pat {
    V(usize),
    C(Term),
}
pub use Pat::{C, V};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct PQ(pub Pat, pub Pat, pub Pat, pub Option<Pat>);

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub inputs: usize,
    pub intro: usize,
    pub ds: Vec<PQ>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Inherit,
    Default,
    P(Pat),
}

#[derive(Clone, Debug, PartialEq)]
pub enum LR {
    In(Box<L>),
    Named(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Comp {
    pub intro: usize,
    pub ds: Vec<PQ>,
    pub layout: LR,
    pub input: Vec<Pat>,
    pub graph: G,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Never,
    Always,
    Id(Pat),
    Unit(Tree),
    Bool(Pat, String),
    Num(Pat, String),
    Str(Pat, String),
    Bytes(Pat, String),
    Record(BTreeMap<String, (Comp, bool)>),
    /// in name order
    Sum(Vec<(String, Comp)>),
    Set(Comp),
    List(Pat, Pat, Comp),
    Tuple(Vec<Comp>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub id: Option<String>,
    pub h: Hdr,
    pub k: K,
}

/// A main layout with the named layouts it may refer to.
#[derive(Clone, Debug)]
pub struct Sys {
    pub name: String,
    pub main: L,
    pub named: BTreeMap<String, L>,
}

pub fn h1() -> Hdr {
    Hdr { inputs: 1, intro: 0, ds: vec![] }
}
pub fn leaf(k: K) -> L {
    L { id: None, h: h1(), k }
}
pub fn l_id() -> L {
    leaf(K::Id(V(0)))
}
pub fn l_str() -> L {
    leaf(K::Str(V(0), format!("{XSD}string")))
}
pub fn l_bool() -> L {
    leaf(K::Bool(V(0), format!("{XSD}boolean")))
}
pub fn l_num(dt: &str) -> L {
    leaf(K::Num(V(0), format!("{XSD}{dt}")))
}
pub fn l_unit(c: Tree) -> L {
    leaf(K::Unit(c))
}
pub fn with_ds(mut l: L, intro: usize, ds: Vec<PQ>) -> L {
    l.h.intro = intro;
    l.h.ds = ds;
    l
}
/// Component `?self prop ?value` in a layout with `base` variables in scope.
pub fn prop(base: usize, p: &str, l: L) -> Comp {
    Comp {
        intro: 1,
        ds: vec![PQ(V(0), C(ex(p)), V(base), None)],
        layout: LR::In(Box::new(l)),
        input: vec![V(base)],
        graph: G::Inherit,
    }
}
/// Component applied to the subject itself, without any pattern.
pub fn on_self(l: L) -> Comp {
    Comp { intro: 0, ds: vec![], layout: LR::In(Box::new(l)), input: vec![V(0)], graph: G::Inherit }
}
pub fn record(fields: Vec<(&str, Comp, bool)>) -> L {
    leaf(K::Record(fields.into_iter().map(|(n, c, r)| (n.to_owned(), (c, r))).collect()))
}
pub fn sum(vs: Vec<(&str, Comp)>) -> L {
    let mut vs: Vec<(String, Comp)> = vs.into_iter().map(|(n, c)| (n.to_owned(), c)).collect();
    vs.sort_by(|a, b| a.0.cmp(&b.0));
    leaf(K::Sum(vs))
}
pub fn set(p: &str, item: L) -> L {
    leaf(K::Set(prop(1, p, item)))
}
/// Standard RDF list.
pub fn rdf_list(item: L) -> L {
    leaf(K::List(
        V(0),
        C(nil()),
        Comp {
            intro: 1,
            ds: vec![PQ(V(1), C(first()), V(3), None), PQ(V(1), C(rest()), V(2), None)],
            layout: LR::In(Box::new(item)),
            input: vec![V(3)],
            graph: G::Inherit,
        },
    ))
}
pub fn tuple(items: Vec<Comp>) -> L {
    leaf(K::Tuple(items))
}
pub fn sys(name: &str, main: L) -> Sys {
    Sys { name: name.into(), main, named: BTreeMap::new() }
}

// ------------------------------------------------- explicit JSON rendering

fn j_pat(p: &Pat) -> J {
    match p {
        V(i) => json!(format!("_:v{i}")),
        C(Term::Id(Id::Iri(i))) => json!(i.as_str()),
        C(Term::Id(Id::Blank(_))) => unreachable!("blank constants cannot be written"),
        C(Term::Literal(l)) => match &l.type_ {
            LiteralType::Any(t) => json!({"value": l.value.as_str(), "type": t.as_str()}),
            LiteralType::LangString(t) => json!({"value": l.value.as_str(), "language": t.as_str()}),
        },
    }
}
fn j_ds(ds: &[PQ]) -> J {
    J::Array(
        ds.iter()
            .map(|q| {
                let mut v = vec![j_pat(&q.0), j_pat(&q.1), j_pat(&q.2)];
                if let Some(g) = &q.3 {
                    v.push(j_pat(g));
                }
                J::Array(v)
            })
            .collect(),
    )
}
fn names(from: usize, n: usize) -> J {
    J::Array((from..from + n).map(|i| json!(format!("v{i}"))).collect())
}
fn j_lr(l: &LR) -> J {
    match l {
        LR::In(l) => l.json(),
        LR::Named(n) => json!(n),
    }
}
fn j_comp(c: &Comp, base: usize) -> serde_json::Map<String, J> {
    let mut m = serde_json::Map::new();
    m.insert("intro".into(), names(base, c.intro));
    m.insert("dataset".into(), j_ds(&c.ds));
    let mut v = serde_json::Map::new();
    v.insert("layout".into(), j_lr(&c.layout));
    v.insert("input".into(), J::Array(c.input.iter().map(j_pat).collect()));
    match &c.graph {
        G::Inherit => {}
        G::Default => {
            v.insert("graph".into(), J::Null);
        }
        G::P(p) => {
            v.insert("graph".into(), j_pat(p));
        }
    }
    m.insert("value".into(), J::Object(v));
    m
}
pub fn j_tree(t: &Tree) -> J {
    match t {
        Tree::Unit => J::Null,
        Tree::Bool(b) => json!(b),
        Tree::Num(r) => serde_json::from_str(&decimal(r).unwrap()).unwrap(),
        Tree::Bytes(_) => unreachable!(),
        Tree::Str(s) => json!(s),
        Tree::Map(m) => J::Object(
            m.iter()
                .map(|(k, v)| match k {
                    Tree::Str(k) => (k.clone(), j_tree(v)),
                    _ => unreachable!(),
                })
                .collect(),
        ),
        Tree::List(l) | Tree::Bag(l) => J::Array(l.iter().map(j_tree).collect()),
        Tree::Var(_, v) => j_tree(v),
    }
}

impl L {
    pub fn scope(&self) -> usize {
        self.h.inputs + self.h.intro
    }
    pub fn json(&self) -> J {
        let mut m = serde_json::Map::new();
        match &self.k {
            K::Never => return json!(false),
            K::Always => return json!(true),
            _ => {}
        }
        let ty = match &self.k {
            K::Id(_) => "id",
            K::Unit(_) => "unit",
            K::Bool(..) => "boolean",
            K::Num(..) => "number",
            K::Str(..) => "string",
            K::Bytes(..) => "bytes",
            K::Record(_) => "record",
            K::Sum(_) => "sum",
            K::Set(_) => "set",
            K::List(..) => "list",
            K::Tuple(_) => "tuple",
            K::Never | K::Always => unreachable!(),
        };
        m.insert("type".into(), json!(ty));
        if let Some(id) = &self.id {
            m.insert("id".into(), json!(id));
        }
        m.insert("input".into(), names(0, self.h.inputs));
        m.insert("intro".into(), names(self.h.inputs, self.h.intro));
        m.insert("dataset".into(), j_ds(&self.h.ds));
        let base = self.scope();
        match &self.k {
            K::Id(p) => {
                m.insert("resource".into(), j_pat(p));
            }
            K::Unit(c) => {
                if *c != Tree::Unit {
                    m.insert("const".into(), j_tree(c));
                }
            }
            K::Bool(p, d) | K::Num(p, d) | K::Str(p, d) | K::Bytes(p, d) => {
                m.insert("resource".into(), j_pat(p));
                m.insert("datatype".into(), json!(d));
            }
            K::Record(f) => {
                let fields: serde_json::Map<String, J> = f
                    .iter()
                    .map(|(n, (c, r))| {
                        let mut o = j_comp(c, base);
                        if *r {
                            o.insert("required".into(), json!(true));
                        }
                        (n.clone(), J::Object(o))
                    })
                    .collect();
                m.insert("fields".into(), J::Object(fields));
            }
            K::Sum(v) => {
                m.insert(
                    "variants".into(),
                    J::Object(v.iter().map(|(n, c)| (n.clone(), J::Object(j_comp(c, base)))).collect()),
                );
            }
            K::Set(c) => {
                m.insert("item".into(), J::Object(j_comp(c, base)));
            }
            K::List(h, t, c) => {
                m.insert("head".into(), j_pat(h));
                m.insert("tail".into(), j_pat(t));
                let mut o = j_comp(c, base + 2);
                o.insert("head".into(), json!(format!("v{base}")));
                o.insert("rest".into(), json!(format!("v{}", base + 1)));
                m.insert("node".into(), J::Object(o));
            }
            K::Tuple(cs) => {
                m.insert("items".into(), J::Array(cs.iter().map(|c| J::Object(j_comp(c, base))).collect()));
            }
            K::Never | K::Always => unreachable!(),
        }
        J::Object(m)
    }
    pub fn comps(&self) -> Vec<&Comp> {
        match &self.k {
            K::Record(f) => f.values().map(|(c, _)| c).collect(),
            K::Sum(v) => v.iter().map(|(_, c)| c).collect(),
            K::Set(c) => vec![c],
            K::List(_, _, c) => vec![c],
            K::Tuple(c) => c.iter().collect(),
            _ => vec![],
        }
    }
}

// ---------------------------------------------------------------- matching

pub type Bind = Vec<Option<Term>>;

fn inst(p: &Pat, b: &Bind) -> Option<Term> {
    match p {
        C(t) => Some(t.clone()),
        V(i) => b.get(*i).cloned().flatten(),
    }
}

/// All bindings of the unbound variables that occur in `pats`, by trying every
/// term of the dataset for every variable.
pub fn matches(ds: &Ds, graph: Option<&Term>, bind: &Bind, pats: &[PQ]) -> Vec<Bind> {
    let mut vars = BTreeSet::new();
    for q in pats {
        for p in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten() {
            if let V(i) = p {
                if bind[*i].is_none() {
                    vars.insert(*i);
                }
            }
        }
    }
    let vars: Vec<usize> = vars.into_iter().collect();
    let mut uni: BTreeSet<&Term> = BTreeSet::new();
    for q in ds {
        uni.insert(&q.0);
        uni.insert(&q.1);
        uni.insert(&q.2);
        if let Some(g) = &q.3 {
            uni.insert(g);
        }
    }
    let uni: Vec<&Term> = uni.into_iter().collect();
    let mut out = vec![];
    let mut b = bind.clone();
    // a pattern is checked as soon as its last variable is assigned
    let last = |q: &PQ| -> usize {
        [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()]
            .into_iter()
            .flatten()
            .filter_map(|p| match p {
                V(i) => vars.iter().position(|v| v == i).map(|x| x + 1),
                _ => None,
            })
            .max()
            .unwrap_or(0)
    };
    let stage: Vec<usize> = pats.iter().map(last).collect();
    fn go(
        k: usize,
        vars: &[usize],
        uni: &[&Term],
        ds: &Ds,
        graph: Option<&Term>,
        pats: &[PQ],
        stage: &[usize],
        b: &mut Bind,
        out: &mut Vec<Bind>,
    ) {
        for (q, st) in pats.iter().zip(stage) {
            if *st == k {
                let g = match &q.3 {
                    Some(p) => inst(p, b),
                    None => graph.cloned(),
                };
                let quad = (inst(&q.0, b).unwrap(), inst(&q.1, b).unwrap(), inst(&q.2, b).unwrap(), g);
                if !ds.contains(&quad) {
                    return;
                }
            }
        }
        if k == vars.len() {
            out.push(b.clone());
            return;
        }
        for t in uni {
            b[vars[k]] = Some((*t).clone());
            go(k + 1, vars, uni, ds, graph, pats, stage, b, out);
        }
        b[vars[k]] = None;
    }
    go(0, &vars, &uni, ds, graph, pats, &stage, &mut b, &mut out);
    out
}

// ---------------------------------------------------------------- hydration

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum HErr {
    Missing,
    Ambiguous,
    NoLiteral,
    Incompatible,
    InputCount,
    NotFound,
    /// an error of any kind
    Any,
}
pub type HErrs = BTreeSet<HErr>;
fn he(e: HErr) -> HErrs {
    [e].into_iter().collect()
}

pub fn is_decimal_datatype(dt: &str) -> bool {
    dt.strip_prefix(XSD).is_some_and(|d| {
        [
            "decimal", "integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte",
            "nonNegativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "positiveInteger",
        ]
        .contains(&d)
    })
}

/// Whether the Rust type used for the datatype has the value.
pub fn fits(x: &BigRational, dt: &str) -> bool {
    let (lo, hi): (i128, i128) = match dt.strip_prefix(XSD) {
        Some("byte") => (i8::MIN as i128, i8::MAX as i128),
        Some("short") => (i16::MIN as i128, i16::MAX as i128),
        Some("int") => (i32::MIN as i128, i32::MAX as i128),
        Some("unsignedByte") => (0, u8::MAX as i128),
        Some("unsignedShort") => (0, u16::MAX as i128),
        Some("unsignedInt") => (0, u32::MAX as i128),
        Some("unsignedLong") => (0, u64::MAX as i128),
        _ => (i64::MIN as i128, i64::MAX as i128),
    };
    x.is_integer() && *x >= BigRational::from_integer(lo.into()) && *x <= BigRational::from_integer(hi.into())
}

/// XSD decimal lexical form to value.
pub fn parse_decimal(t: &str) -> Option<BigRational> {
    let (neg, body) = match t.as_bytes().first()? {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    let (int, frac) = match body.split_once('.') {
        Some((i, f)) => (i, f),
        None => (body, ""),
    };
    if (int.is_empty() && frac.is_empty())
        || !int.bytes().all(|c| c.is_ascii_digit())
        || !frac.bytes().all(|c| c.is_ascii_digit())
    {
        return None;
    }
    let mut num = BigInt::zero();
    let mut den = BigInt::one();
    for c in int.bytes() {
        num = num * 10 + (c - b'0');
    }
    for c in frac.bytes() {
        num = num * 10 + (c - b'0');
        den *= 10;
    }
    let r = BigRational::new(num, den);
    Some(if neg { -r } else { r })
}

/// Finite decimal expansion, if any.
pub fn decimal(r: &BigRational) -> Option<String> {
    let mut d = r.denom().clone();
    let (mut twos, mut fives) = (0usize, 0usize);
    while (&d % 2u8).is_zero() {
        d /= 2;
        twos += 1;
    }
    while (&d % 5u8).is_zero() {
        d /= 5;
        fives += 1;
    }
    if !d.is_one() {
        return None;
    }
    let k = twos.max(fives);
    let scaled = (r * BigRational::from_integer(BigInt::from(10u8).pow(k as u32))).to_integer();
    let digits = scaled.abs().to_string();
    let mut out = String::new();
    if r.is_negative() {
        out.push('-');
    }
    if k == 0 {
        out.push_str(&digits);
    } else {
        let pad = format!("{:0>width$}", digits, width = k + 1);
        let (i, f) = pad.split_at(pad.len() - k);
        out.push_str(i);
        out.push('.');
        out.push_str(f);
    }
    Some(out)
}

pub struct Hy<'a> {
    pub named: &'a BTreeMap<String, L>,
    pub ds: &'a Ds,
    stack: Vec<(String, Option<Term>, Vec<Term>)>,
    /// numbers out of the range of the Rust type are not read
    pub narrow: bool,
    /// set when a layout is applied to its own inputs again
    pub endless: bool,
}

impl<'a> Hy<'a> {
    pub fn new(named: &'a BTreeMap<String, L>, ds: &'a Ds) -> Self {
        Self { named, ds, stack: vec![], narrow: false, endless: false }
    }

    fn unique(&self, g: Option<&Term>, b: &Bind, pats: &[PQ]) -> Result<Bind, HErr> {
        let mut m = matches(self.ds, g, b, pats);
        match m.len() {
            0 => Err(HErr::Missing),
            1 => Ok(m.pop().unwrap()),
            _ => Err(HErr::Ambiguous),
        }
    }

    fn comp(&mut self, c: &Comp, b: &Bind, g: Option<&Term>) -> Result<Tree, HErrs> {
        let mut inputs = vec![];
        for p in &c.input {
            inputs.push(inst(p, b).ok_or_else(|| he(HErr::Any))?);
        }
        let graph = match &c.graph {
            G::Inherit => g.cloned(),
            G::Default => None,
            G::P(p) => Some(inst(p, b).ok_or_else(|| he(HErr::Any))?),
        };
        self.lr(&c.layout, graph.as_ref(), &inputs)
    }

    pub fn lr(&mut self, l: &LR, g: Option<&Term>, inputs: &[Term]) -> Result<Tree, HErrs> {
        match l {
            LR::In(l) => self.layout(l, g, inputs),
            LR::Named(n) => {
                let Some(l) = self.named.get(n) else { return Err(he(HErr::NotFound)) };
                let key = (n.clone(), g.cloned(), inputs.to_vec());
                if self.stack.contains(&key) {
                    self.endless = true;
                    return Err(he(HErr::Any)); // no finite tree
                }
                self.stack.push(key);
                let r = self.layout(l, g, inputs);
                self.stack.pop();
                r
            }
        }
    }

    pub fn layout(&mut self, l: &L, g: Option<&Term>, inputs: &[Term]) -> Result<Tree, HErrs> {
        match l.k {
            K::Never => return Err(he(HErr::Incompatible)),
            K::Always => return Ok(Tree::Unit),
            _ => {}
        }
        if l.h.inputs != inputs.len() {
            return Err(he(HErr::InputCount));
        }
        let mut b: Bind = inputs.iter().cloned().map(Some).collect();
        b.resize(l.scope(), None);
        let b = self.unique(g, &b, &l.h.ds).map_err(he)?;
        let res = |p: &Pat| inst(p, &b).ok_or_else(|| he(HErr::Any));
        match &l.k {
            K::Never | K::Always => unreachable!(),
            K::Id(p) => {
                let mut iris = iris_of(&res(p)?);
                match iris.len() {
                    0 => Err(he(HErr::NoLiteral)),
                    1 => Ok(Tree::Str(iris.pop().unwrap())),
                    _ => Err(he(HErr::Ambiguous)),
                }
            }
            K::Unit(c) => Ok(c.clone()),
            K::Bool(p, dt) => match typed(&res(p)?, dt, false)? {
                (_, dt) if dt != format!("{XSD}boolean") => Err(he(HErr::Any)),
                (v, _) => match v.as_str() {
                    "true" | "1" => Ok(Tree::Bool(true)),
                    "false" | "0" => Ok(Tree::Bool(false)),
                    _ => Err(he(HErr::Any)),
                },
            },
            K::Num(p, dt) => match typed(&res(p)?, dt, true)? {
                (_, dt) if !is_decimal_datatype(&dt) => Err(he(HErr::Any)),
                (v, dt) => parse_decimal(&v)
                    .filter(|x| !self.narrow || fits(x, &dt))
                    .map(Tree::Num)
                    .ok_or_else(|| he(HErr::Any)),
            },
            K::Str(p, dt) => typed(&res(p)?, dt, false).map(|(v, _)| Tree::Str(v)),
            K::Bytes(p, dt) => match typed(&res(p)?, dt, false) {
                Err(e) => Err(e),
                Ok(_) => Err(he(HErr::Any)),
            },
            K::Record(fields) => {
                let mut m = BTreeMap::new();
                let mut errs = HErrs::new();
                for (name, (c, req)) in fields {
                    let mut fb = b.clone();
                    fb.resize(b.len() + c.intro, None);
                    match self.unique(g, &fb, &c.ds) {
                        Ok(fb) => match self.comp(c, &fb, g) {
                            Ok(v) => {
                                m.insert(s(name), v);
                            }
                            Err(e) => errs.extend(e),
                        },
                        Err(HErr::Missing) => {
                            if *req {
                                errs.insert(HErr::Missing);
                            }
                        }
                        Err(e) => {
                            errs.insert(e);
                        }
                    }
                }
                if errs.is_empty() {
                    Ok(Tree::Map(m))
                } else {
                    Err(errs)
                }
            }
            K::Sum(vs) => {
                let mut ok = vec![];
                let mut amb = false;
                for (i, (_, c)) in vs.iter().enumerate() {
                    let mut vb = b.clone();
                    vb.resize(b.len() + c.intro, None);
                    match self.unique(g, &vb, &c.ds) {
                        Ok(vb) => {
                            if let Ok(v) = self.comp(c, &vb, g) {
                                ok.push((i, v))
                            }
                        }
                        Err(HErr::Ambiguous) => amb = true,
                        Err(_) => {}
                    }
                }
                if amb {
                    // the other variants may make it ambiguous as well
                    return Err(he(HErr::Ambiguous));
                }
                match ok.len() {
                    1 => {
                        let (i, v) = ok.pop().unwrap();
                        Ok(Tree::Var(i as u32, Box::new(v)))
                    }
                    // the kind of the error is left open
                    _ => Err(he(HErr::Any)),
                }
            }
            K::Set(c) => {
                let mut ib = b.clone();
                ib.resize(b.len() + c.intro, None);
                let mut items = vec![];
                let mut errs = HErrs::new();
                for ib in matches(self.ds, g, &ib, &c.ds) {
                    match self.comp(c, &ib, g) {
                        Ok(v) => items.push(v),
                        Err(e) => errs.extend(e),
                    }
                }
                if !errs.is_empty() {
                    return Err(errs);
                }
                Ok(Tree::Bag(items))
            }
            K::List(h, t, c) => {
                let mut head = res(h)?;
                let tail = res(t)?;
                let mut items = vec![];
                let mut seen = BTreeSet::new();
                let mut errs = HErrs::new();
                while head != tail {
                    if !seen.insert(head.clone()) {
                        errs.insert(HErr::Any); // endless chain
                        break;
                    }
                    let mut nb = b.clone();
                    nb.push(Some(head.clone()));
                    let r = nb.len();
                    nb.resize(nb.len() + 1 + c.intro, None);
                    match self.unique(g, &nb, &c.ds) {
                        Ok(nb) => {
                            match self.comp(c, &nb, g) {
                                Ok(v) => items.push(v),
                                Err(e) => errs.extend(e),
                            }
                            match &nb[r] {
                                Some(t) => head = t.clone(),
                                None => {
                                    errs.insert(HErr::Any);
                                    break;
                                }
                            }
                        }
                        Err(e) => {
                            errs.insert(e);
                            break;
                        }
                    }
                }
                if errs.is_empty() {
                    Ok(Tree::List(items))
                } else {
                    Err(errs)
                }
            }
            K::Tuple(cs) => {
                let mut items = vec![];
                let mut errs = HErrs::new();
                for c in cs {
                    let mut ib = b.clone();
                    ib.resize(b.len() + c.intro, None);
                    match self.unique(g, &ib, &c.ds) {
                        Ok(ib) => match self.comp(c, &ib, g) {
                            Ok(v) => items.push(v),
                            Err(e) => errs.extend(e),
                        },
                        Err(e) => {
                            errs.insert(e);
                        }
                    }
                }
                if errs.is_empty() {
                    Ok(Tree::List(items))
                } else {
                    Err(errs)
                }
            }
        }
    }
}

thread_local! {
    /// Terms of the resources that have several (by representative).
    pub static MEMBERS: std::cell::RefCell<BTreeMap<Term, Vec<Term>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}

/// All the terms of a resource.
pub fn members(t: &Term) -> Vec<Term> {
    MEMBERS.with(|m| m.borrow().get(t).cloned().unwrap_or_else(|| vec![t.clone()]))
}

fn iris_of(t: &Term) -> Vec<String> {
    members(t)
        .iter()
        .filter_map(|t| match t {
            Term::Id(Id::Iri(i)) => Some(i.as_str().to_owned()),
            _ => None,
        })
        .collect()
}

/// The literal of the resource having the datatype, with its own datatype IRI.
fn typed(t: &Term, dt: &str, number: bool) -> Result<(String, String), HErrs> {
    let dts = iris_of(&iri(dt));
    let mut found: Vec<(String, String)> = members(t)
        .iter()
        .filter_map(|t| match t {
            Term::Literal(l) => match &l.type_ {
                LiteralType::Any(i) if dts.iter().any(|d| d == i.as_str()) => Some((l.value.as_str().to_owned(), i.as_str().to_owned())),
                _ => None,
            },
            _ => None,
        })
        .collect();
    match found.len() {
        0 => Err(he(HErr::NoLiteral)),
        1 => Ok(found.pop().unwrap()),
        // one of them may be of an unknown datatype, or not well formed
        _ if number && found.iter().any(|(_, d)| !is_decimal_datatype(d)) => Err(he(HErr::Any)),
        _ => Err([HErr::Ambiguous, HErr::NoLiteral].into_iter().collect()),
    }
}

pub fn m_hydrate(s: &Sys, ds: &Ds, g: Option<&Term>, inputs: &[Term]) -> Result<Tree, HErrs> {
    hydrate_main(&mut Hy::new(&s.named, ds), s, g, inputs)
}
pub fn hydrate_main(hy: &mut Hy, s: &Sys, g: Option<&Term>, inputs: &[Term]) -> Result<Tree, HErrs> {
    match &s.main.id {
        Some(id) if s.named.contains_key(id) => hy.lr(&LR::Named(id.clone()), g, inputs),
        _ => hy.layout(&s.main, g, inputs),
    }
}

// -------------------------------------------------------------- dehydration

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum R {
    In(usize),
    Fresh(usize),
    T(Term),
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub quads: BTreeSet<(R, R, R, Option<R>)>,
    pub assign: BTreeMap<R, BTreeSet<Term>>,
    pub fresh: usize,
    /// named sum layouts being tried on the current value
    pub sums: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum DErr {
    Incompatible,
    InputCount,
    NotFound,
    MissingKey,
    Ambiguous,
    TermAmbiguity,
    Undeclared,
}

fn r_inst(p: &Pat, env: &[R]) -> Result<R, DErr> {
    match p {
        C(t) => Ok(R::T(t.clone())),
        V(i) => env.get(*i).cloned().ok_or(DErr::Undeclared),
    }
}

impl Out {
    fn env(&mut self, env: &[R], intro: usize) -> Vec<R> {
        let mut e = env.to_vec();
        for _ in 0..intro {
            e.push(R::Fresh(self.fresh));
            self.fresh += 1;
        }
        e
    }
    fn emit(&mut self, env: &[R], g: Option<&R>, ds: &[PQ]) -> Result<(), DErr> {
        for q in ds {
            let graph = match &q.3 {
                Some(p) => Some(r_inst(p, env)?),
                None => g.cloned(),
            };
            self.quads.insert((r_inst(&q.0, env)?, r_inst(&q.1, env)?, r_inst(&q.2, env)?, graph));
        }
        Ok(())
    }
    fn put(&mut self, r: R, t: Term) {
        self.assign.entry(r).or_default().insert(t);
    }
}

fn d_comp(
    named: &BTreeMap<String, L>,
    c: &Comp,
    v: &Tree,
    g: Option<&R>,
    env: &[R],
    out: &mut Out,
) -> Result<(), DErr> {
    let mut inputs = vec![];
    for p in &c.input {
        inputs.push(r_inst(p, env)?);
    }
    let graph = match &c.graph {
        G::Inherit => g.cloned(),
        G::Default => None,
        G::P(p) => Some(r_inst(p, env)?),
    };
    d_lr(named, &c.layout, v, graph.as_ref(), &inputs, out)
}

fn d_lr(
    named: &BTreeMap<String, L>,
    l: &LR,
    v: &Tree,
    g: Option<&R>,
    inputs: &[R],
    out: &mut Out,
) -> Result<(), DErr> {
    match l {
        LR::In(l) => d_layout(named, l, v, g, inputs, out),
        LR::Named(n) => match named.get(n) {
            Some(l) => d_layout(named, l, v, g, inputs, out),
            None => Err(DErr::NotFound),
        },
    }
}

pub fn d_layout(
    named: &BTreeMap<String, L>,
    l: &L,
    v: &Tree,
    g: Option<&R>,
    inputs: &[R],
    out: &mut Out,
) -> Result<(), DErr> {
    let outer = out.sums.clone();
    if matches!(l.k, K::Sum(_)) {
        if let Some(id) = &l.id {
            if out.sums.contains(id) {
                return Err(DErr::Incompatible);
            }
            out.sums.push(id.clone());
        }
    } else {
        out.sums.clear();
    }
    let r = d_layout_(named, l, v, g, inputs, out);
    out.sums = outer;
    r
}

fn d_layout_(
    named: &BTreeMap<String, L>,
    l: &L,
    v: &Tree,
    g: Option<&R>,
    inputs: &[R],
    out: &mut Out,
) -> Result<(), DErr> {
    match l.k {
        K::Never => return Err(DErr::Incompatible),
        K::Always => return Ok(()),
        _ => {}
    }
    if l.h.inputs != inputs.len() {
        return Err(DErr::InputCount);
    }
    let env = out.env(inputs, l.h.intro);
    out.emit(&env, g, &l.h.ds)?;
    match (&l.k, v) {
        (K::Unit(c), v) => {
            if c == v {
                Ok(())
            } else {
                Err(DErr::Incompatible)
            }
        }
        (K::Bool(p, dt), Tree::Bool(b)) => {
            // a datatype may go by several names: the first supported one is used
            let dt = iris_of(&iri(dt)).into_iter().find(|d| *d == format!("{XSD}boolean")).ok_or(DErr::Incompatible)?;
            let r = r_inst(p, &env)?;
            out.put(r, lit(if *b { "true" } else { "false" }, &dt));
            Ok(())
        }
        (K::Num(p, dt), Tree::Num(x)) => {
            let dt = iris_of(&iri(dt)).into_iter().find(|d| is_decimal_datatype(d)).ok_or(DErr::Incompatible)?;
            let d = decimal(x).ok_or(DErr::Incompatible)?;
            let r = r_inst(p, &env)?;
            out.put(r, lit(&d, &dt));
            Ok(())
        }
        (K::Str(p, dt), Tree::Str(x)) => {
            let r = r_inst(p, &env)?;
            let dt = iris_of(&iri(dt)).into_iter().next().ok_or(DErr::Incompatible)?;
            out.put(r, lit(x, &dt));
            Ok(())
        }
        (K::Bytes(..), Tree::Bytes(_)) => Err(DErr::Incompatible),
        (K::Id(p), Tree::Str(x)) => {
            let i = iref::IriBuf::new(x.clone()).map_err(|_| DErr::Incompatible)?;
            let r = r_inst(p, &env)?;
            out.put(r, Term::iri(i));
            Ok(())
        }
        (K::Record(fields), Tree::Map(m)) => {
            for (k, v) in m {
                let f = match k {
                    Tree::Str(k) => fields.get(k),
                    _ => None,
                };
                match f {
                    Some((c, _)) => {
                        let env = out.env(&env, c.intro);
                        out.emit(&env, g, &c.ds)?;
                        d_comp(named, c, v, g, &env, out)?;
                    }
                    None => return Err(DErr::Incompatible),
                }
            }
            for (k, (_, req)) in fields {
                if *req && !m.contains_key(&s(k)) {
                    return Err(DErr::MissingKey);
                }
            }
            Ok(())
        }
        // the variant is known
        (K::Sum(vs), Tree::Var(i, v)) => {
            let (_, c) = vs.get(*i as usize).ok_or(DErr::Incompatible)?;
            let env = out.env(&env, c.intro);
            out.emit(&env, g, &c.ds)?;
            d_comp(named, c, v, g, &env, out)
        }
        (K::Sum(vs), v) => {
            let mut sel = vec![];
            for (_, c) in vs {
                let mut trial = out.clone();
                let env = trial.env(&env, c.intro);
                trial.emit(&env, g, &c.ds)?;
                if d_comp(named, c, v, g, &env, &mut trial).is_ok() {
                    sel.push(trial);
                }
            }
            match sel.len() {
                0 => Err(DErr::Incompatible),
                1 => {
                    *out = sel.pop().unwrap();
                    Ok(())
                }
                _ => Err(DErr::Ambiguous),
            }
        }
        (K::Set(c), Tree::List(items) | Tree::Bag(items)) => {
            for it in items {
                let env = out.env(&env, c.intro);
                out.emit(&env, g, &c.ds)?;
                d_comp(named, c, it, g, &env, out)?;
            }
            Ok(())
        }
        (K::Tuple(cs), Tree::List(items)) => {
            if cs.len() != items.len() {
                return Err(DErr::Incompatible);
            }
            for (c, it) in cs.iter().zip(items) {
                let env = out.env(&env, c.intro);
                out.emit(&env, g, &c.ds)?;
                d_comp(named, c, it, g, &env, out)?;
            }
            Ok(())
        }
        (K::List(h, t, c), Tree::List(items)) => {
            let mut head = r_inst(h, &env)?;
            let tail = r_inst(t, &env)?;
            if items.is_empty() && head != tail {
                let iris = match &tail {
                    R::T(t) => iris_of(t),
                    _ => vec![],
                };
                if iris.is_empty() {
                    return Err(DErr::Incompatible);
                }
                for i in iris {
                    out.put(head.clone(), iri(&i));
                }
                return Ok(());
            }
            for (i, it) in items.iter().enumerate() {
                let rest = if i + 1 == items.len() {
                    tail.clone()
                } else {
                    let r = R::Fresh(out.fresh);
                    out.fresh += 1;
                    r
                };
                let mut env = env.clone();
                env.push(head);
                env.push(rest.clone());
                let env = out.env(&env, c.intro);
                out.emit(&env, g, &c.ds)?;
                d_comp(named, c, it, g, &env, out)?;
                head = rest;
            }
            Ok(())
        }
        _ => Err(DErr::Incompatible),
    }
}

/// Resolves resources to terms: assigned term if any, blank node otherwise.
pub fn resolve(out: &Out, inputs: usize) -> Result<(Ds, Vec<Term>), DErr> {
    for (r, ts) in &out.assign {
        match r {
            R::T(t) => {
                if ts.iter().any(|u| u != t) {
                    return Err(DErr::TermAmbiguity);
                }
            }
            _ => {
                if ts.len() > 1 {
                    return Err(DErr::TermAmbiguity);
                }
            }
        }
    }
    let f = |r: &R| -> Term {
        match r {
            R::T(t) => t.clone(),
            r => match out.assign.get(r).and_then(|s| s.first()) {
                Some(t) => t.clone(),
                None => match r {
                    R::In(i) => blank(&format!("input{i}")),
                    R::Fresh(i) => blank(&format!("f{i}")),
                    R::T(_) => unreachable!(),
                },
            },
        }
    };
    let ds = out.quads.iter().map(|q| (f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect();
    Ok((ds, (0..inputs).map(|i| f(&R::In(i))).collect()))
}

pub fn m_dehydrate(s: &Sys, v: &Tree) -> Result<(Ds, Vec<Term>), DErr> {
    let inputs = match s.main.k {
        K::Never | K::Always => 1,
        _ => s.main.h.inputs,
    };
    let ins: Vec<R> = (0..inputs).map(R::In).collect();
    let mut out = Out::default();
    d_layout(&s.named, &s.main, v, None, &ins, &mut out)?;
    resolve(&out, inputs)
}

// ------------------------------------------------------------- isomorphism

/// Numeric literals are compared by value (their spelling is free).
pub fn norm_term(t: &Term) -> Term {
    if let Term::Literal(l) = t {
        if let LiteralType::Any(ty) = &l.type_ {
            if is_decimal_datatype(ty.as_str()) {
                if let Some(r) = parse_decimal(&l.value) {
                    return lit(&decimal(&r).unwrap(), ty.as_str());
                }
            }
        }
    }
    t.clone()
}
pub fn norm_ds(ds: &Ds) -> Ds {
    ds.iter()
        .map(|q| (norm_term(&q.0), norm_term(&q.1), norm_term(&q.2), q.3.as_ref().map(norm_term)))
        .collect()
}

fn blanks(ds: &Ds, v: &[Term]) -> Vec<Term> {
    let mut b = BTreeSet::new();
    for q in ds {
        for t in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten() {
            if t.is_blank() {
                b.insert(t.clone());
            }
        }
    }
    for t in v {
        if t.is_blank() {
            b.insert(t.clone());
        }
    }
    b.into_iter().collect()
}

fn rename(ds: &Ds, m: &BTreeMap<Term, Term>) -> Ds {
    let f = |t: &Term| m.get(t).cloned().unwrap_or_else(|| t.clone());
    ds.iter().map(|q| (f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect()
}

/// Equality of `(a, va)` and `(b, vb)` up to a bijective renaming of blank
/// nodes; with `sub`, inclusion of the renamed `a` in `b`.
pub fn iso(a: &Ds, va: &[Term], b: &Ds, vb: &[Term], sub: bool) -> bool {
    let (a, b) = (norm_ds(a), norm_ds(b));
    if va.len() != vb.len() || (!sub && a.len() != b.len()) || a.len() > b.len() {
        return false;
    }
    let ba = blanks(&a, va);
    let bb = blanks(&b, vb);
    if !sub && ba.len() != bb.len() {
        return false;
    }
    let mut m: BTreeMap<Term, Term> = BTreeMap::new();
    // inputs are mapped to inputs
    for (x, y) in va.iter().zip(vb) {
        if x.is_blank() != y.is_blank() {
            return false;
        }
        if x.is_blank() {
            if let Some(z) = m.get(x) {
                if z != y {
                    return false;
                }
            } else {
                if m.values().any(|z| z == y) {
                    return false;
                }
                m.insert(x.clone(), y.clone());
            }
        } else if norm_term(x) != norm_term(y) {
            return false;
        }
    }
    let todo: Vec<Term> = ba.into_iter().filter(|t| !m.contains_key(t)).collect();
    let quads: Vec<&Q4> = a.iter().collect();
    fn ok(quads: &[&Q4], m: &BTreeMap<Term, Term>, b: &Ds) -> bool {
        // every fully mapped quad must be present
        for q in quads {
            let f = |t: &Term| if t.is_blank() { m.get(t).cloned() } else { Some(t.clone()) };
            let g = match &q.3 {
                Some(g) => match f(g) {
                    Some(g) => Some(g),
                    None => continue,
                },
                None => None,
            };
            if let (Some(x), Some(y), Some(z)) = (f(&q.0), f(&q.1), f(&q.2)) {
                if !b.contains(&(x, y, z, g)) {
                    return false;
                }
            }
        }
        true
    }
    fn go(
        i: usize,
        todo: &[Term],
        bb: &[Term],
        quads: &[&Q4],
        m: &mut BTreeMap<Term, Term>,
        a: &Ds,
        b: &Ds,
        sub: bool,
    ) -> bool {
        if !ok(quads, m, b) {
            return false;
        }
        if i == todo.len() {
            return sub || rename(a, m) == *b;
        }
        for y in bb {
            if m.values().any(|z| z == y) {
                continue;
            }
            m.insert(todo[i].clone(), y.clone());
            if go(i + 1, todo, bb, quads, m, a, b, sub) {
                return true;
            }
            m.remove(&todo[i]);
        }
        false
    }
    go(0, &todo, &bb, &quads, &mut m, &a, &b, sub)
}
