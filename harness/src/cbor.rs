//! C16: CBOR conversion and layout tags.
//!
//! Values are converted, encoded with the CBOR library and decoded by the
//! reader written here; tagged conversions are checked on every assignment of
//! declared tags to the nodes of small typed values, through the plain terms
//! and through an interned vocabulary.
use crate::real::parse_layout_serde;
use crate::rt::Ctx;
use crate::values::*;
use crate::vocab::{Part, Voc, World};
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{BlankIdBuf, Id, Term};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use tl::layout::LayoutType;
use tl::value::{Literal, Number, TypedLiteral, TypedValue, Value};
use tl::{Layouts, Ref};
use treeldr_layouts as tl;

/// Decoded CBOR.
#[derive(Debug, Clone)]
pub enum C {
    Int(BigInt),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    List(Vec<C>),
    Map(Vec<(C, C)>),
    Tag(u64, Box<C>),
    Bool(bool),
    Null,
}

pub fn decode(b: &[u8]) -> Option<C> {
    let mut i = 0;
    let c = item(b, &mut i)?;
    (i == b.len()).then_some(c)
}
fn take<'a>(b: &'a [u8], i: &mut usize, n: usize) -> Option<&'a [u8]> {
    let s = b.get(*i..i.checked_add(n)?)?;
    *i += n;
    Some(s)
}
fn item(b: &[u8], i: &mut usize) -> Option<C> {
    let h = *b.get(*i)?;
    *i += 1;
    let (major, low) = (h >> 5, h & 31);
    let n: u64 = match low {
        0..=23 => low as u64,
        24..=27 => take(b, i, 1 << (low - 24))?.iter().fold(0u64, |a, x| a << 8 | *x as u64),
        // (the library writes definite lengths only)
        _ => return None,
    };
    Some(match major {
        0 => C::Int(n.into()),
        1 => C::Int(-BigInt::from(1) - n),
        2 => C::Bytes(take(b, i, n as usize)?.to_vec()),
        3 => C::Text(String::from_utf8(take(b, i, n as usize)?.to_vec()).ok()?),
        4 => C::List((0..n).map(|_| item(b, i)).collect::<Option<_>>()?),
        5 => C::Map((0..n).map(|_| Some((item(b, i)?, item(b, i)?))).collect::<Option<_>>()?),
        6 => C::Tag(n, Box::new(item(b, i)?)),
        _ => match low {
            20 => C::Bool(false),
            21 => C::Bool(true),
            22 => C::Null,
            25 => C::Float(f16(n as u16)),
            26 => C::Float(f32::from_bits(n as u32) as f64),
            27 => C::Float(f64::from_bits(n)),
            _ => return None,
        },
    })
}
fn f16(h: u16) -> f64 {
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    let v = match e {
        0 => m * 2f64.powi(-24),
        31 if m == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        _ => (m + 1024.0) * 2f64.powi(e - 25),
    };
    if h >> 15 == 1 {
        -v
    } else {
        v
    }
}

/// The integer a decoded item stands for, bignums included.
fn integer(c: &C) -> Option<BigInt> {
    match c {
        C::Int(i) => Some(i.clone()),
        C::Tag(t @ (2 | 3), b) => match &**b {
            C::Bytes(b) => {
                let n = BigInt::from_bytes_be(num_bigint::Sign::Plus, b);
                Some(if *t == 2 { n } else { -BigInt::from(1) - n })
            }
            _ => None,
        },
        _ => None,
    }
}

/// The tagged tree a conversion must give.
#[derive(Debug, Clone)]
pub enum X {
    Plain(Value),
    Tag(u64, Box<X>),
    List(Vec<X>),
    Map(Vec<(Value, X)>),
}

/// Integers of at most 64 bits take no bignum.
fn native(n: &BigInt, c: &C) -> bool {
    n.bits() > 64 || matches!(c, C::Int(_))
}

fn is_number(r: &BigRational, c: &C) -> bool {
    if r.is_integer() {
        native(r.numer(), c) && integer(c).is_some_and(|i| i == *r.numer())
    } else {
        match c {
            C::Float(f) => near(r, *f, (f.abs() < f64::MIN_POSITIVE) as i64),
            _ => false,
        }
    }
}

pub fn is_plain(v: &Value, c: &C) -> bool {
    match (v, c) {
        (Value::Literal(Literal::Unit), C::Null) => true,
        (Value::Literal(Literal::Boolean(a)), C::Bool(b)) => a == b,
        (Value::Literal(Literal::Number(n)), c) => is_number(n.as_big_rational(), c),
        (Value::Literal(Literal::ByteString(a)), C::Bytes(b)) => a == b,
        (Value::Literal(Literal::TextString(a)), C::Text(b)) => a == b,
        (Value::List(a), C::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| is_plain(a, b)),
        (Value::Map(a), C::Map(b)) => {
            a.len() == b.len()
                && a.iter().all(|(k, v)| b.iter().filter(|(l, w)| is_plain(k, l) && is_plain(v, w)).count() == 1)
        }
        _ => false,
    }
}

fn is_expected(x: &X, c: &C) -> bool {
    match (x, c) {
        (X::Plain(v), c) => is_plain(v, c),
        (X::Tag(t, x), C::Tag(u, c)) => t == u && is_expected(x, c),
        (X::List(a), C::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| is_expected(a, b)),
        (X::Map(a), C::Map(b)) => {
            a.len() == b.len()
                && a.iter().all(|(k, v)| b.iter().filter(|(l, w)| is_plain(k, l) && is_expected(v, w)).count() == 1)
        }
        _ => false,
    }
}

/// Keys that are the same once fractions are doubles.
fn colliding(v: &Value) -> bool {
    fn eq(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Literal(Literal::Number(a)), Value::Literal(Literal::Number(b))) => {
                let (a, b) = (a.as_big_rational(), b.as_big_rational());
                a == b || (!a.is_integer() && !b.is_integer() && double_of(a) == double_of(b))
            }
            (Value::List(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
            (Value::Map(a), Value::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a.0, b.0) && eq(a.1, b.1)),
            (a, b) => a == b,
        }
    }
    any(v, |v| match v {
        Value::Map(m) => {
            let ks: Vec<&Value> = m.keys().collect();
            (0..ks.len()).any(|i| (0..i).any(|j| eq(ks[i], ks[j])))
        }
        _ => false,
    })
}

pub fn c16(ctx: &Ctx) {
    plain(ctx);
    untagged(ctx);
    tagged(ctx);
}

fn encode(c: &serde_cbor::Value) -> Result<Vec<u8>, String> {
    serde_cbor::to_vec(c).map_err(|e| e.to_string())
}

fn plain(ctx: &Ctx) {
    let vs = universe(ctx, true);
    ctx.count("values", vs.len() as u64);
    ctx.par(&vs, |i, v| {
        let key = format!("value/{i}");
        if !ctx.begin(&key) || colliding(v) {
            return;
        }
        ctx.state();
        let bad = |what: &str, got: String| {
            ctx.violate(&key, what, json!({"value": v.to_string().chars().take(300).collect::<String>(), "got": got.chars().take(400).collect::<String>()}))
        };
        let res = ctx.guarded(|| {
            let mut forms = vec![serde_cbor::Value::from(v.clone()), serde_cbor::Value::from(TypedValue::<u32>::Always(v.clone()))];
            if let Value::Literal(Literal::Number(n)) = v {
                forms.push(n.clone().into());
            }
            for c in forms {
                match encode(&c) {
                    Err(e) => bad("the CBOR value is not encoded", e),
                    Ok(b) => {
                        ctx.step();
                        match decode(&b) {
                            None => bad("the bytes are not CBOR", hex(&b)),
                            Some(c) => {
                                if !is_plain(v, &c) {
                                    bad("the CBOR value differs", hex(&b))
                                }
                            }
                        }
                    }
                }
            }
            ctx.trace();
        });
        if let Err(e) = res {
            bad("a conversion crashed", e);
        }
    });
    // integers around every power of two, and runs of bytes of bignums
    let top = ctx.bound(160u32, 600);
    let exps: Vec<u32> = (0..top).collect();
    ctx.par(&exps, |_, e| {
        let key = format!("integer/{e}");
        if !ctx.begin(&key) {
            return;
        }
        for d in -3i32..=3 {
            for m in [1u32, 3, 255, 257] {
                for s in [1i32, -1] {
                    ctx.state();
                    let n = (pow(2, *e) * m + d) * s;
                    let res = ctx.guarded(|| encode(&num(int(n.clone())).into()).map(|b| (decode(&b), hex(&b))));
                    match res {
                        Ok(Ok((Some(c), h))) => {
                            if integer(&c).as_ref() != Some(&n) || !native(&n, &c) {
                                ctx.violate(&key, "the CBOR integer differs", json!({"integer": n.to_string(), "got": h}))
                            }
                        }
                        r => ctx.violate(&key, "the integer is not encoded", json!({"integer": n.to_string(), "got": format!("{r:?}")})),
                    }
                    ctx.trace();
                }
            }
        }
    });
}

fn untagged(ctx: &Ctx) {
    let all = typed(!ctx.quick());
    ctx.count("typed_values", all.len() as u64);
    ctx.par(&all, |i, (t, v)| {
        let key = format!("typed/{i}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        match ctx.guarded(|| encode(&t.clone().into())) {
            Ok(Ok(b)) => {
                if !decode(&b).is_some_and(|c| is_plain(v, &c)) {
                    ctx.violate(&key, "the CBOR of the typed value differs from its untyped value", json!({"typed": format!("{t:?}"), "got": hex(&b)}));
                }
            }
            r => ctx.violate(&key, "the typed value is not encoded", json!({"typed": format!("{t:?}"), "got": format!("{r:?}")})),
        }
        ctx.trace();
    });
}

/// A layout shape with the data of one value of it.
#[derive(Debug, Clone)]
enum Sh {
    Unit(bool),
    Bool,
    Num,
    Half,
    Bytes,
    Str,
    Id,
    Record(Vec<Sh>),
    Tuple(Vec<Sh>),
    Set(Box<Sh>, bool),
    List(Box<Sh>, usize),
    /// selected variant; the other one has the layout given second
    Sum(Box<Sh>, Box<Sh>),
}
impl Sh {
    fn bytes(&self) -> bool {
        match self {
            Sh::Bytes => true,
            Sh::Record(c) | Sh::Tuple(c) => c.iter().any(Sh::bytes),
            Sh::Set(c, _) | Sh::List(c, _) => c.bytes(),
            Sh::Sum(a, _) => a.bytes(),
            _ => false,
        }
    }
    fn nodes(&self) -> usize {
        1 + match self {
            Sh::Record(c) | Sh::Tuple(c) => c.iter().map(Sh::nodes).sum(),
            Sh::Set(c, _) | Sh::List(c, _) => c.nodes(),
            Sh::Sum(a, b) => a.nodes() + b.nodes(),
            _ => 0,
        }
    }
}

/// A tag declaration: its JSON, and the tag it declares when it is one.
fn declarations() -> Vec<(J, Result<Option<u64>, ()>)> {
    let xsd = |t: &str| format!("http://www.w3.org/2001/XMLSchema#{t}");
    vec![
        (J::Null, Ok(None)),
        (json!(42), Ok(Some(42))),
        (json!(0), Ok(Some(0))),
        (json!(2), Ok(Some(2))),
        (json!(255), Ok(Some(255))),
        (json!(65536), Ok(Some(65536))),
        (json!(4294967296i64), Ok(Some(4294967296))),
        (json!(i64::MAX), Ok(Some(i64::MAX as u64))),
        (json!({"value": "18446744073709551615", "type": xsd("unsignedLong")}), Ok(Some(u64::MAX))),
        (json!({"value": "23", "type": xsd("unsignedByte")}), Ok(Some(23))),
        (json!({"value": "18446744073709551616", "type": xsd("unsignedLong")}), Err(())),
        (json!({"value": "a", "type": xsd("unsignedLong")}), Err(())),
        (json!({"value": "", "type": xsd("unsignedLong")}), Err(())),
        (json!({"value": "42", "type": "http://e/type"}), Err(())),
        (json!(-1), Err(())),
        (json!("42"), Err(())),
        (json!("x"), Err(())),
        (json!(true), Err(())),
    ]
}

fn layout(s: &Sh, tags: &[J], next: &mut usize) -> J {
    let me = *next;
    *next += 1;
    let comp = |c: &Sh, p: &str, next: &mut usize| json!({"value": layout(c, tags, next), "property": format!("http://e/{p}")});
    let xsd = |t: &str| format!("http://www.w3.org/2001/XMLSchema#{t}");
    let mut j = match s {
        Sh::Unit(false) => json!({"type": "unit"}),
        Sh::Unit(true) => json!({"type": "unit", "const": "c"}),
        Sh::Bool => json!({"type": "boolean"}),
        Sh::Num => json!({"type": "number", "datatype": xsd("integer")}),
        Sh::Half => json!({"type": "number", "datatype": xsd("decimal")}),
        Sh::Bytes => json!({"type": "bytes", "datatype": xsd("hexBinary")}),
        Sh::Str => json!({"type": "string"}),
        Sh::Id => json!({"type": "id"}),
        Sh::Record(c) => {
            let f: serde_json::Map<String, J> = c.iter().enumerate().map(|(i, c)| (format!("k{i}"), comp(c, &format!("p{i}"), next))).collect();
            json!({"type": "record", "fields": f})
        }
        Sh::Tuple(c) => {
            let f: Vec<J> = c.iter().enumerate().map(|(i, c)| comp(c, &format!("p{i}"), next)).collect();
            json!({"type": "tuple", "items": f})
        }
        Sh::Set(c, _) => json!({"type": "set", "item": comp(c, "p", next)}),
        Sh::List(c, _) => json!({"type": "list", "node": {"value": {"layout": layout(c, tags, next), "input": "_:value"}}}),
        Sh::Sum(a, b) => {
            let mut var = |c: &Sh, p: &str| {
                json!({"intro": "x", "dataset": [["_:self", format!("http://e/{p}"), "_:x"]],
                    "value": {"layout": layout(c, tags, next), "input": "_:x"}})
            };
            let a = var(a, "p");
            let b = var(b, "q");
            json!({"type": "sum", "variants": {"a": b, "b": a}})
        }
    };
    let o = j.as_object_mut().unwrap();
    o.insert("id".into(), json!(format!("http://e/n{me}")));
    let mut extra = json!({"http://e/other": 7});
    if !tags[me].is_null() {
        extra["cbor:tag"] = tags[me].clone();
    }
    o.insert("extra".into(), extra);
    if me == 0 {
        o.insert("prefixes".into(), json!({"cbor": "https://schema.treeldr.org/cbor#"}));
    }
    j
}

/// The value of a shape: typed by layout references, untyped, and tagged.
/// `item` tells apart the items of a list.
fn value<R: Clone + Ord>(s: &Sh, tags: &[Result<Option<u64>, ()>], refs: &[R], next: &mut usize, item: usize) -> (TypedValue<R>, Value, Result<X, ()>) {
    let me = *next;
    *next += 1;
    fn rf<T, R: Clone>(r: &R) -> Ref<T, R> {
        Ref::new(r.clone())
    }
    let r = &refs[me];
    let lit = TypedValue::Literal;
    let leaf = |t, v: Value| (t, v.clone(), Ok(X::Plain(v)));
    let n = Number::new(int(7 + item as i32));
    let half = Number::new(ratio(1 + 2 * item as i64, 2));
    let text = format!("s{item}");
    let id = format!("http://e/id{item}");
    let (t, v, x) = match s {
        Sh::Unit(false) => leaf(lit(TypedLiteral::Unit(Value::unit(), rf(r))), Value::unit()),
        Sh::Unit(true) => leaf(lit(TypedLiteral::Unit(st("c"), rf(r))), st("c")),
        Sh::Bool => leaf(lit(TypedLiteral::Boolean(item == 0, rf(r))), bo(item == 0)),
        Sh::Num => leaf(lit(TypedLiteral::Number(n.clone(), rf(r))), num(n.into_big_rational())),
        Sh::Half => leaf(lit(TypedLiteral::Number(half.clone(), rf(r))), num(half.into_big_rational())),
        Sh::Bytes => leaf(lit(TypedLiteral::ByteString(vec![item as u8, 255], rf(r))), by(&[item as u8, 255])),
        Sh::Str => leaf(lit(TypedLiteral::TextString(text.clone(), rf(r))), st(&text)),
        Sh::Id => leaf(lit(TypedLiteral::Id(id.clone(), rf(r))), st(&id)),
        Sh::Record(c) => {
            let mut t = BTreeMap::new();
            let mut v = BTreeMap::new();
            let mut x = Ok(Vec::new());
            for (i, c) in c.iter().enumerate() {
                let k = st(&format!("k{i}"));
                let (a, b, y) = value(c, tags, refs, next, item);
                t.insert(k.clone(), a);
                v.insert(k.clone(), b);
                x = x.and_then(|mut x: Vec<_>| {
                    x.push((k, y?));
                    Ok(x)
                });
            }
            (TypedValue::Map(t, rf(r)), Value::Map(v), x.map(X::Map))
        }
        Sh::Tuple(_) | Sh::Set(..) | Sh::List(..) => {
            let items: Vec<(&Sh, usize)> = match s {
                Sh::Tuple(c) => c.iter().map(|c| (c, item)).collect(),
                Sh::Set(c, two) => (0..1 + *two as usize).map(|i| (&**c, i)).collect(),
                Sh::List(c, n) => (0..*n).map(|i| (&**c, i)).collect(),
                _ => unreachable!(),
            };
            let mut t = Vec::new();
            let mut v = Vec::new();
            let mut x = Ok(Vec::new());
            let start = *next;
            if let Sh::List(c, 0) = s {
                *next += c.nodes();
            }
            for (c, i) in items {
                if !matches!(s, Sh::Tuple(_)) {
                    *next = start;
                }
                let (a, b, y) = value(c, tags, refs, next, i);
                t.push(a);
                v.push(b);
                x = x.and_then(|mut x: Vec<_>| {
                    x.push(y?);
                    Ok(x)
                });
            }
            if let Sh::Set(..) = s {
                // canonical order
                let mut all: Vec<_> = t.into_iter().zip(v).zip(x.clone().map(|x| x.into_iter().map(Some).collect()).unwrap_or(vec![None; 2])).collect();
                all.sort_by(|a, b| a.0 .0.cmp(&b.0 .0));
                t = all.iter().map(|a| a.0 .0.clone()).collect();
                v = all.iter().map(|a| a.0 .1.clone()).collect();
                x = x.map(|_| all.into_iter().map(|a| a.1.unwrap()).collect());
            }
            (TypedValue::List(t, rf(r)), Value::List(v), x.map(X::List))
        }
        Sh::Sum(a, b) => {
            let (t, v, x) = value(a, tags, refs, next, item);
            *next += b.nodes();
            (TypedValue::Variant(Box::new(t), rf(r), 1), v, x)
        }
    };
    let x = match (tags[me], x) {
        (Ok(Some(t)), Ok(x)) => Ok(X::Tag(t, Box::new(x))),
        (Ok(None), x) => x,
        _ => Err(()),
    };
    (t, v, x)
}

fn shapes(deep: bool) -> Vec<Sh> {
    let leaves = vec![Sh::Unit(false), Sh::Unit(true), Sh::Bool, Sh::Num, Sh::Half, Sh::Bytes, Sh::Str, Sh::Id];
    let b = |s: &Sh| Box::new(s.clone());
    let mut out = leaves.clone();
    let around = |s: &Sh, multi: bool| {
        let mut v = vec![
            Sh::Record(vec![s.clone()]),
            Sh::Tuple(vec![s.clone()]),
            Sh::Set(b(s), false),
            Sh::List(b(s), 1),
            Sh::Sum(b(s), Box::new(Sh::Bytes)),
        ];
        if multi {
            v.push(Sh::List(b(s), 0));
            v.push(Sh::List(b(s), 2));
        }
        v
    };
    for l in &leaves {
        out.extend(around(l, true));
        if !matches!(l, Sh::Unit(_)) {
            out.push(Sh::Set(b(l), true));
        }
        out.push(Sh::Record(vec![l.clone(), Sh::Str]));
        out.push(Sh::Tuple(vec![Sh::Num, l.clone()]));
    }
    for l in if deep { &leaves[..] } else { &leaves[4..6] } {
        for m in around(l, false) {
            out.extend(around(&m, true));
            if deep {
                out.push(Sh::Record(vec![m.clone(), Sh::Num]));
                out.push(Sh::Tuple(vec![m.clone(), m.clone()]));
            }
        }
    }
    out
}

struct Made {
    layouts: Layouts,
    main: Ref<LayoutType>,
}

fn tagged(ctx: &Ctx) {
    let decls = declarations();
    let all = shapes(true);
    ctx.count("shapes", all.len() as u64);
    ctx.count("tag_declarations", decls.len() as u64);
    // every assignment of declarations: the whole pool up to two nodes, then
    // a few
    let few = [0usize, 1, 2, 13];
    let less = [0usize, 1, 15];
    let mut cases: Vec<(usize, Vec<usize>)> = Vec::new();
    for (i, s) in all.iter().enumerate() {
        let n = s.nodes();
        let pool: Vec<usize> = match n {
            1 => (0..decls.len()).collect(),
            2 => {
                if ctx.quick() {
                    vec![0, 1, 2, 3, 8, 10, 15]
                } else {
                    (0..decls.len()).collect()
                }
            }
            3 if ctx.quick() => few.to_vec(),
            3 => vec![0, 1, 2, 3, 8, 10, 13, 15],
            _ if ctx.quick() => less[..2].to_vec(),
            4 | 5 => less.to_vec(),
            _ => less[..2].to_vec(),
        };
        let mut a = vec![vec![]];
        for _ in 0..n {
            a = a.iter().flat_map(|v: &Vec<usize>| pool.iter().map(move |p| [&v[..], &[*p]].concat())).collect();
        }
        cases.extend(a.into_iter().map(|a| (i, a)));
    }
    ctx.count("tag_assignments", cases.len() as u64);
    ctx.par(&cases, |ci, (si, tags)| {
        let key = format!("tags/{ci}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let s = &all[*si];
        let js: Vec<J> = tags.iter().map(|t| decls[*t].0.clone()).collect();
        let ts: Vec<_> = tags.iter().map(|t| decls[*t].1).collect();
        let doc = layout(s, &js, &mut 0);
        let bad = |what: &str, got: String| ctx.violate(&key, what, json!({"layout": doc, "got": got}));
        let refs: Vec<Term> = (0..s.nodes()).map(|i| Term::iri(iref::IriBuf::new(format!("http://e/n{i}")).unwrap())).collect();
        let (t, v, x) = value(s, &ts, &refs, &mut 0, 0);
        let judge = |entry: &str, got: Result<serde_cbor::Value, String>| match (&x, got) {
            (Ok(x), Ok(c)) => match encode(&c) {
                Ok(b) => {
                    if !decode(&b).is_some_and(|c| is_expected(x, &c)) {
                        bad(&format!("the tagged CBOR value differs ({entry})"), hex(&b))
                    }
                }
                Err(e) => bad(&format!("the tagged CBOR value is not encoded ({entry})"), e),
            },
            (Err(()), Err(_)) => (),
            (Ok(_), Err(e)) => bad(&format!("a valid tag is rejected ({entry})"), e),
            (Err(()), Ok(c)) => bad(&format!("an invalid tag is accepted ({entry})"), format!("{c:?}")),
        };
        let res = ctx.guarded(|| {
            let def = parse_layout_serde(&doc).unwrap();
            let mut builder = tl::abs::Builder::new();
            let main = def.build(&mut builder).unwrap();
            let made = Made { layouts: builder.build(), main };
            judge("terms", t.clone().try_into_tagged_serde_cbor(&made.layouts).map_err(|e| e.to_string()));
            ctx.step();
            // bare
            match encode(&t.clone().into()) {
                Ok(b) => {
                    if !decode(&b).is_some_and(|c| is_plain(&v, &c)) {
                        bad("the untagged CBOR value differs", hex(&b))
                    }
                }
                Err(e) => bad("the untagged CBOR value is not encoded", e),
            }
            if t.clone().into_untyped() != v {
                bad("the untyped value differs", format!("{t:?}"))
            }
            // the typed value read from RDF is the same
            // (no byte string datatype is supported)
            if !s.bytes() {
            let (ds, subjects) = tl::distill::dehydrate(&made.layouts, &v, &made.main, Default::default()).unwrap();
            let ds: rdf_types::dataset::IndexedBTreeDataset = ds.into_iter().collect();
            match tl::distill::hydrate(&made.layouts, &ds, &made.main, &subjects) {
                Ok(h) => {
                    if h != t {
                        bad("the value read from RDF has other types", format!("{h:?}"))
                    }
                }
                Err(e) => bad("the value is not read from RDF", format!("{e:?}")),
            }
            }
            // through a vocabulary and an interpretation
            let mut voc = Voc::default();
            let mut part = Part::default();
            World::res_in(&mut voc, &mut part, &Term::Id(Id::Blank(BlankIdBuf::new("_:x".into()).unwrap())));
            let mut builder = tl::abs::Builder::<u32>::new();
            def.build_with_interpretation(&mut voc, &mut part, &mut builder).unwrap();
            let layouts = builder.build();
            let refs: Vec<u32> = refs.iter().map(|r| World::res_in(&mut voc, &mut part, r)).collect();
            let (t, _, _) = value(s, &ts, &refs, &mut 0, 0);
            judge("interpretation", t.try_into_tagged_serde_cbor_with(&voc, &part, &layouts).map_err(|e| e.to_string()));
            ctx.step();
            ctx.trace();
        });
        if let Err(e) = res {
            bad("a conversion crashed", e);
        }
    });
}

