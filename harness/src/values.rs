//! C15: values and numbers to and from JSON (two libraries) and serde.
//!
//! Oracles written here: a JSON reader with exact rationals, the value of a
//! double from its bits, and the nearest-double relation checked on exact
//! rationals.
use crate::rt::Ctx;
use json_syntax::{Parse, Print, TryFromJson};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use tl::value::{Literal, NativeNumber, Number, TypedLiteral, TypedValue, Value};
use tl::Ref;
use treeldr_layouts as tl;

pub fn big(s: &str) -> BigInt {
    s.parse().unwrap()
}
pub fn pow(b: u32, e: u32) -> BigInt {
    let mut r = BigInt::one();
    for _ in 0..e {
        r *= b;
    }
    r
}
pub fn int(n: impl Into<BigInt>) -> BigRational {
    BigRational::from_integer(n.into())
}
pub fn ratio(p: i64, q: i64) -> BigRational {
    BigRational::new(p.into(), q.into())
}

/// The exact value of a finite double.
pub fn exact(f: f64) -> BigRational {
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    assert!(e != 0x7ff);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let m: BigInt = m.into();
    let r = if e >= 0 { int(m * pow(2, e as u32)) } else { BigRational::new(m, pow(2, (-e) as u32)) };
    if b >> 63 == 1 {
        -r
    } else {
        r
    }
}

fn half(r: BigRational) -> BigRational {
    r / int(2)
}

/// Whether the rational rounds to an infinite double.
pub fn overflows(r: &BigRational) -> bool {
    // the largest finite double plus half a unit in the last place
    r.abs() >= int(pow(2, 1024) - pow(2, 970))
}

/// Close enough to the largest double for serde_json's decimal reader, which
/// is not exact, to report an overflow.
pub fn at_edge(r: &BigRational) -> bool {
    !overflows(r) && r.abs() >= exact(f64::MAX) * (int(1) - int(pow(2, 40)).recip())
}

/// The ordinal of a double: consecutive finite doubles have consecutive ones.
fn ord(f: f64) -> i64 {
    let b = f.to_bits();
    let m = (b & !(1 << 63)) as i64;
    if b >> 63 == 1 {
        -m
    } else {
        m
    }
}
fn unord(o: i64) -> f64 {
    if o < 0 {
        -f64::from_bits((-o) as u64)
    } else {
        f64::from_bits(o as u64)
    }
}

/// Whether `f` is within `slack` representable numbers of the double nearest
/// to `r` (ties to even).
pub fn near(r: &BigRational, f: f64, slack: i64) -> bool {
    if !f.is_finite() {
        return !f.is_nan() && overflows(r) && r.is_negative() == (f < 0.0);
    }
    if overflows(r) {
        return false;
    }
    let o = ord(f);
    let edge = |a: i64, b: i64| -> BigRational {
        // halfway between two neighbouring doubles
        let x = unord(a);
        let y = unord(b);
        match (x.is_finite(), y.is_finite()) {
            (true, true) => half(exact(x) + exact(y)),
            (true, false) => int(pow(2, 1024) - pow(2, 970)) * if y > 0.0 { int(1) } else { int(-1) },
            _ => unreachable!(),
        }
    };
    let lim = ord(f64::MAX);
    let hi = (o + slack).min(lim);
    let lo = (o - slack).max(-lim);
    let up = edge(hi, hi + 1);
    let down = edge(lo, lo - 1);
    let even = slack > 0 || o % 2 == 0;
    if even {
        *r <= up && *r >= down
    } else {
        *r < up && *r > down
    }
}

/// Whether the number has a finite decimal expansion.
pub fn decimal(r: &BigRational) -> bool {
    let mut d = r.denom().clone();
    for p in [2u32, 5] {
        while (&d % p).is_zero() {
            d /= p;
        }
    }
    d.is_one()
}

pub fn in_i64_u64(i: &BigInt) -> bool {
    *i >= BigInt::from(i64::MIN) && *i <= BigInt::from(u64::MAX)
}

/// The decimal numbers: sign, digits with an optional point, exponent.
/// `Err(())` when the exponent does not fit 32 bits.
pub fn read_decimal(s: &str, json: bool) -> Option<Result<BigRational, ()>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'-' || (!json && b[i] == b'+')) {
        neg = b[i] == b'-';
        i += 1;
    }
    let st = i;
    let mut m = BigInt::zero();
    while i < b.len() && b[i].is_ascii_digit() {
        m = m * 10 + (b[i] - b'0');
        i += 1;
    }
    let ints = i - st;
    if json && (ints == 0 || (ints > 1 && b[st] == b'0')) {
        return None;
    }
    let mut frac = 0i64;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            m = m * 10 + (b[i] - b'0');
            frac += 1;
            i += 1;
        }
        if json && frac == 0 {
            return None;
        }
    }
    if ints == 0 && frac == 0 {
        return None;
    }
    let mut exp = BigInt::zero();
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        let mut en = false;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            en = b[i] == b'-';
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            exp = exp * 10 + (b[i] - b'0');
            i += 1;
        }
        if i == st {
            return None;
        }
        if en {
            exp = -exp
        }
    }
    if i != b.len() {
        return None;
    }
    let e = &exp - frac;
    if e.abs() > BigInt::from(1u32 << 30) || exp.abs() > BigInt::from(1u32 << 30) {
        return Some(Err(()));
    }
    let e: i64 = e.try_into().unwrap();
    let r = if e >= 0 { int(m * pow(10, e as u32)) } else { BigRational::new(m, pow(10, (-e) as u32)) };
    Some(Ok(if neg { -r } else { r }))
}

/// A JSON document read exactly.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum D {
    Null,
    Bool(bool),
    Num(BigRational),
    Str(String),
    List(Vec<D>),
    Map(BTreeMap<String, D>),
}

pub fn read_json(s: &str) -> Option<D> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let d = doc(&c, &mut i)?;
    ws(&c, &mut i);
    (i == c.len()).then_some(d)
}
fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && matches!(c[*i], ' ' | '\n' | '\t' | '\r') {
        *i += 1
    }
}
fn string(c: &[char], i: &mut usize) -> Option<String> {
    if c.get(*i) != Some(&'"') {
        return None;
    }
    *i += 1;
    let mut units: Vec<u16> = Vec::new();
    loop {
        let ch = *c.get(*i)?;
        *i += 1;
        match ch {
            '"' => return String::from_utf16(&units).ok(),
            '\\' => {
                let e = *c.get(*i)?;
                *i += 1;
                let u = match e {
                    'n' => 10,
                    't' => 9,
                    'r' => 13,
                    'b' => 8,
                    'f' => 12,
                    '"' | '\\' | '/' => e as u16,
                    'u' => {
                        let h: String = c.get(*i..*i + 4)?.iter().collect();
                        *i += 4;
                        u16::from_str_radix(&h, 16).ok()?
                    }
                    _ => return None,
                };
                units.push(u);
            }
            _ if (ch as u32) < 0x20 => return None,
            _ => {
                let mut b = [0u16; 2];
                units.extend_from_slice(ch.encode_utf16(&mut b));
            }
        }
    }
}
fn doc(c: &[char], i: &mut usize) -> Option<D> {
    ws(c, i);
    match c.get(*i)? {
        '"' => string(c, i).map(D::Str),
        '[' => {
            *i += 1;
            let mut l = Vec::new();
            ws(c, i);
            if c.get(*i) == Some(&']') {
                *i += 1;
                return Some(D::List(l));
            }
            loop {
                l.push(doc(c, i)?);
                ws(c, i);
                let k = *c.get(*i)?;
                *i += 1;
                match k {
                    ',' => (),
                    ']' => return Some(D::List(l)),
                    _ => return None,
                }
            }
        }
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(c, i);
            if c.get(*i) == Some(&'}') {
                *i += 1;
                return Some(D::Map(m));
            }
            loop {
                ws(c, i);
                let k = string(c, i)?;
                ws(c, i);
                if c.get(*i) != Some(&':') {
                    return None;
                }
                *i += 1;
                let v = doc(c, i)?;
                if m.insert(k, v).is_some() {
                    return None; // repeated keys are not enumerated
                }
                ws(c, i);
                let k = *c.get(*i)?;
                *i += 1;
                match k {
                    ',' => (),
                    '}' => return Some(D::Map(m)),
                    _ => return None,
                }
            }
        }
        _ => {
            let st = *i;
            while *i < c.len() && (c[*i].is_ascii_alphanumeric() || matches!(c[*i], '+' | '-' | '.')) {
                *i += 1
            }
            let t: String = c[st..*i].iter().collect();
            match t.as_str() {
                "null" => Some(D::Null),
                "true" => Some(D::Bool(true)),
                "false" => Some(D::Bool(false)),
                t => read_decimal(t, true)?.ok().map(D::Num),
            }
        }
    }
}

/// Reads a displayed value: JSON with fractions `p/q`, byte strings `x00ff`
/// and keys of any kind.
fn displayed(c: &[char], i: &mut usize) -> Option<Value> {
    let items = |i: &mut usize, close: char, pairs: bool| -> Option<Vec<(Value, Option<Value>)>> {
        *i += 1;
        let mut out = vec![];
        ws(c, i);
        if c.get(*i) == Some(&close) {
            *i += 1;
            return Some(out);
        }
        loop {
            let k = displayed(c, i)?;
            ws(c, i);
            let v = if pairs {
                if c.get(*i) != Some(&':') {
                    return None;
                }
                *i += 1;
                Some(displayed(c, i)?)
            } else {
                None
            };
            out.push((k, v));
            ws(c, i);
            let e = *c.get(*i)?;
            *i += 1;
            match e {
                ',' => (),
                e if e == close => return Some(out),
                _ => return None,
            }
        }
    };
    ws(c, i);
    match c.get(*i)? {
        '"' => string(c, i).map(|s| st(&s)),
        '[' => Some(Value::List(items(i, ']', false)?.into_iter().map(|x| x.0).collect())),
        '{' => {
            let e = items(i, '}', true)?;
            let n = e.len();
            let m: BTreeMap<Value, Value> = e.into_iter().map(|(k, v)| (k, v.unwrap())).collect();
            (m.len() == n).then_some(Value::Map(m))
        }
        _ => {
            let at = *i;
            while *i < c.len() && (c[*i].is_ascii_alphanumeric() || matches!(c[*i], '+' | '-' | '.' | '/')) {
                *i += 1
            }
            let t: String = c[at..*i].iter().collect();
            match t.as_str() {
                "null" => Some(Value::unit()),
                "true" => Some(bo(true)),
                "false" => Some(bo(false)),
                _ if t.starts_with('x') => {
                    let h = &t[1..];
                    let b: Option<Vec<u8>> = (0..h.len()).step_by(2).map(|k| h.get(k..k + 2).and_then(|b| u8::from_str_radix(b, 16).ok())).collect();
                    b.map(|b| by(&b))
                }
                _ => match t.split_once('/') {
                    Some((p, q)) => Some(num(BigRational::new(p.parse().ok()?, q.parse().ok()?))),
                    None => read_decimal(&t, false)?.ok().map(num),
                },
            }
        }
    }
}

pub fn num(r: BigRational) -> Value {
    Value::Literal(Literal::Number(Number::new(r)))
}
pub fn st(s: &str) -> Value {
    Value::string(s.to_owned())
}
pub fn bo(b: bool) -> Value {
    Value::Literal(Literal::Boolean(b))
}
pub fn by(b: &[u8]) -> Value {
    Value::Literal(Literal::ByteString(b.to_vec()))
}
pub fn map(e: impl IntoIterator<Item = (Value, Value)>) -> Value {
    Value::Map(e.into_iter().collect())
}

/// Boundary numbers of the integer and floating-point types, and fractions.
pub fn numbers(deep: bool) -> Vec<BigRational> {
    let mut s: BTreeSet<BigRational> = BTreeSet::new();
    for e in [0u32, 7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 65, 66, 127, 128, 129, 1023, 1024] {
        for d in -2i32..=2 {
            let n = int(pow(2, e) + d);
            s.insert(-n.clone());
            s.insert(n);
        }
    }
    for e in [1u32, 2, 5, 18, 19, 20, 21, 22, 23, 30, 308, 309, 400] {
        for d in -1i32..=1 {
            let n = int(pow(10, e) + d);
            s.insert(-n.clone());
            s.insert(n.clone());
            if e <= 30 || d == 0 {
                s.insert(n.recip());
                s.insert(-n.recip());
            }
        }
    }
    let m = if deep { 60 } else { 24 };
    for q in 1..=m {
        for p in -m..=m {
            s.insert(ratio(p, q));
        }
    }
    for f in [f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1e23, 1.0 + f64::EPSILON, 1e21, 9007199254740993.0, 123456.789] {
        let r = exact(f);
        s.insert(half(r.clone()));
        s.insert(-r.clone());
        s.insert(r);
    }
    s.insert(int(pow(2, 1024) - pow(2, 970)));
    s.insert(int(pow(2, 1024) - pow(2, 970) - 1));
    s.into_iter().collect()
}

/// Every tree value to the bound.
pub fn universe(ctx: &Ctx, bytes: bool) -> Vec<Value> {
    let mut all: BTreeSet<Value> = numbers(!ctx.quick()).into_iter().map(num).collect();
    let mut leaves = vec![
        Value::unit(),
        bo(true),
        bo(false),
        st(""),
        st("a"),
        st("b"),
        st("null"),
        st("1"),
        st("\"\\/\u{8}\u{c}\n\r\t"),
        st("\u{0}\u{1f}\u{7f}"),
        st("é\u{2028}\u{fffd}"),
        st("\u{1F600}"),
        num(int(0)),
        num(int(1)),
        num(int(-1)),
        num(ratio(1, 2)),
        num(ratio(-1, 10)),
        num(ratio(1, 3)),
        num(int(pow(2, 63))),
        num(int(-pow(2, 63) - 1)),
        num(int(pow(2, 64))),
        num(int(pow(10, 400))),
    ];
    leaves.extend([by(b""), by(b"a"), by(b"\x00\xff\"")].into_iter().filter(|_| bytes));
    all.extend(leaves.iter().cloned());
    let mut l1: Vec<Value> = vec![Value::List(vec![]), map([])];
    for a in &leaves {
        l1.push(Value::List(vec![a.clone()]));
        for b in &leaves {
            l1.push(Value::List(vec![a.clone(), b.clone()]));
        }
    }
    for k in &leaves {
        for v in &leaves {
            l1.push(map([(k.clone(), v.clone())]));
        }
    }
    for (i, k) in leaves.iter().enumerate() {
        for k2 in &leaves[i + 1..] {
            for (v, v2) in [(3, 4), (12, 15), (17, 3), (3, 17)] {
                l1.push(map([(k.clone(), leaves[v].clone()), (k2.clone(), leaves[v2].clone())]));
            }
        }
    }
    // three levels over a thinner set
    let thin: Vec<Value> = if ctx.quick() {
        [0, 4, 13, 17].iter().map(|&i: &usize| leaves[i].clone()).chain(leaves.last().cloned()).collect()
    } else {
        [0, 1, 3, 4, 8, 13, 15, 17, 18, 20, 21].iter().map(|&i: &usize| leaves[i].clone()).chain(leaves.last().cloned()).collect()
    };
    let mut t1: Vec<Value> = vec![Value::List(vec![]), map([])];
    for a in &thin {
        t1.push(Value::List(vec![a.clone()]));
        for b in &thin {
            t1.push(Value::List(vec![a.clone(), b.clone()]));
            t1.push(map([(a.clone(), b.clone())]));
            t1.push(map([(st("k"), a.clone()), (st(""), b.clone())]));
        }
    }
    for a in &t1 {
        all.insert(Value::List(vec![a.clone()]));
        all.insert(map([(st("k"), a.clone())]));
        all.insert(map([(a.clone(), st("k"))]));
        for b in t1.iter().chain(&thin) {
            all.insert(Value::List(vec![a.clone(), b.clone()]));
            all.insert(Value::List(vec![b.clone(), a.clone()]));
            all.insert(map([(st("x"), b.clone()), (st("k"), a.clone())]));
        }
    }
    all.extend(l1);
    all.into_iter().collect()
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Carry {
    /// Any decimal.
    Decimal,
    /// 64-bit integers or doubles.
    Native,
}

/// Whether JSON can say the value, each number being carried as stated.
fn sayable(v: &Value, carry: Carry) -> bool {
    match v {
        Value::Literal(Literal::ByteString(_)) => false,
        Value::Literal(Literal::Number(n)) => {
            let r = n.as_big_rational();
            match carry {
                Carry::Decimal => decimal(r),
                Carry::Native => decimal(r) && (native_int(r) || !overflows(r)),
            }
        }
        Value::Literal(_) => true,
        Value::List(l) => l.iter().all(|v| sayable(v, carry)),
        Value::Map(m) => m.iter().all(|(k, v)| k.as_str().is_some() && sayable(v, carry)),
    }
}
fn native_int(r: &BigRational) -> bool {
    r.is_integer() && in_i64_u64(r.numer())
}

/// The number is the carried form of the rational.
fn carried(r: &BigRational, sj: &serde_json::Number, slack: i64) -> bool {
    if native_int(r) {
        return sj.as_u64().map(|u| int(u)) == Some(r.clone()) || sj.as_i64().map(|u| int(u)) == Some(r.clone())
            || (sj.is_f64() && sj.as_f64().is_some_and(|f| f.is_finite() && exact(f) == *r));
    }
    match sj.as_f64() {
        Some(f) if sj.is_f64() => near(r, f, slack),
        _ => false,
    }
}

fn same_sj(v: &Value, j: &J, slack: i64) -> bool {
    match (v, j) {
        (Value::Literal(Literal::Unit), J::Null) => true,
        (Value::Literal(Literal::Boolean(a)), J::Bool(b)) => a == b,
        (Value::Literal(Literal::TextString(a)), J::String(b)) => a == b,
        (Value::Literal(Literal::Number(a)), J::Number(b)) => carried(a.as_big_rational(), b, slack),
        (Value::List(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_sj(a, b, slack)),
        (Value::Map(a), J::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| k.as_str().and_then(|k| b.get(k)).is_some_and(|w| same_sj(v, w, slack)))
        }
        _ => false,
    }
}

/// The exact document a value denotes.
fn denoted(v: &Value) -> Option<D> {
    Some(match v {
        Value::Literal(Literal::Unit) => D::Null,
        Value::Literal(Literal::Boolean(b)) => D::Bool(*b),
        Value::Literal(Literal::TextString(s)) => D::Str(s.clone()),
        Value::Literal(Literal::Number(n)) => D::Num(n.as_big_rational().clone()),
        Value::Literal(Literal::ByteString(_)) => return None,
        Value::List(l) => D::List(l.iter().map(denoted).collect::<Option<_>>()?),
        Value::Map(m) => {
            D::Map(m.iter().map(|(k, v)| Some((k.as_str()?.to_owned(), denoted(v)?))).collect::<Option<_>>()?)
        }
    })
}

/// Equality of values up to the numbers being carried as native numbers.
fn same_native(v: &Value, w: &Value, slack: i64) -> bool {
    match (v, w) {
        (Value::Literal(Literal::Number(a)), Value::Literal(Literal::Number(b))) => {
            let (a, b) = (a.as_big_rational(), b.as_big_rational());
            if native_int(a) {
                return a == b;
            }
            // `b` is a double or the shortest decimal denoting one
            let Some(f) = double_of(b) else { return false };
            near(a, f, slack)
        }
        (Value::List(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_native(a, b, slack)),
        (Value::Map(a), Value::Map(b)) => {
            // keys equal in order as carried
            a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| same_native(k, l, slack) && same_native(v, w, slack)))
        }
        (v, w) => v == w,
    }
}

/// The nearest double, by bisection over all the doubles.
pub fn double_of(r: &BigRational) -> Option<f64> {
    if overflows(r) {
        return None;
    }
    let a = r.abs();
    let (mut lo, mut hi) = (0i64, ord(f64::MAX));
    while lo < hi {
        let mid = lo + (hi - lo + 1) / 2;
        if exact(unord(mid)) <= a {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    let f = [lo, lo + 1].into_iter().map(unord).find(|f| f.is_finite() && near(&a, *f, 0));
    f.or((lo == ord(f64::MAX)).then_some(f64::MAX)).map(|f| if r.is_negative() { -f } else { f })
}

fn show(v: &Value) -> J {
    let s = format!("{v}");
    json!(s.chars().take(300).collect::<String>())
}

pub fn c15(ctx: &Ctx) {
    check_numbers(ctx);
    check_values(ctx);
    check_spellings(ctx);
    check_documents(ctx);
    check_typed(ctx);
    check_findings(ctx);
}

fn check_numbers(ctx: &Ctx) {
    // numbers as such
    let ns = numbers(!ctx.quick());
    ctx.count("numbers", ns.len() as u64);
    ctx.par(&ns, |i, r| {
        if !ctx.begin(&format!("number/{i}")) {
            return;
        }
        let key = format!("number/{i}");
        ctx.state();
        let bad = |what: &str, got: String| {
            ctx.violate(&key, what, json!({"number": r.to_string().chars().take(200).collect::<String>(), "got": got}))
        };
        let n = Number::new(r.clone());
        let res = ctx.guarded(|| {
            if n.is_integer() != r.denom().is_one() {
                bad("is_integer is wrong", format!("{}", n.is_integer()));
            }
            if n.as_integer().cloned() != r.denom().is_one().then(|| r.numer().clone()) {
                bad("as_integer is wrong", format!("{:?}", n.as_integer()));
            }
            if n.as_big_rational() != r || n.clone().into_big_rational() != *r || BigRational::from(n.clone()) != *r || Number::from(r.clone()) != n {
                bad("the rational of a number is not the number", n.to_string());
            }
            let f = n.to_f64();
            // (the rational library rounds twice below the normal doubles)
            let slack = (f.abs() < f64::MIN_POSITIVE) as i64;
            if !near(r, f, slack) {
                bad("to_f64 is not the nearest double", format!("{f:e}"));
            }
            match n.as_native() {
                NativeNumber::U64(u) => {
                    if int(u) != *r {
                        bad("as_native differs", u.to_string())
                    }
                }
                NativeNumber::I64(u) => {
                    if int(u) != *r {
                        bad("as_native differs", u.to_string())
                    }
                }
                NativeNumber::F64(f) => {
                    if native_int(r) || !near(r, f, slack) {
                        bad("as_native differs", format!("{f:e}"))
                    }
                }
            }
            ctx.step();
            match n.decimal_representation() {
                None => {
                    if decimal(r) {
                        bad("a decimal number has no decimal representation", String::new())
                    }
                }
                Some(s) => {
                    if !decimal(r) {
                        bad("a number that is not decimal has a decimal representation", s.clone());
                    } else if read_decimal(&s, true) != Some(Ok(r.clone())) {
                        bad("the decimal representation denotes another number", s.clone());
                    }
                    if Number::parse_decimal(&s).as_ref() != Some(&n) {
                        bad("reading the decimal representation gives another number", s);
                    }
                }
            }
            match json_syntax::NumberBuf::try_from(n.clone()) {
                Err(_) if decimal(r) => bad("not written to JSON", String::new()),
                Err(e) => {
                    if e.0 != n {
                        bad("the reported number is another one", e.0.to_string())
                    }
                }
                Ok(m) => {
                    if read_decimal(m.as_str(), true) != Some(Ok(r.clone())) {
                        bad("the JSON number denotes another number", m.to_string());
                    }
                    if Number::from(m.as_number()) != n || Number::from(m.clone()) != n {
                        bad("reading the JSON number gives another number", m.to_string());
                    }
                }
            }
            match serde_json::Number::try_from(n.clone()) {
                Err(_) if decimal(r) && (native_int(r) || !overflows(r)) && !at_edge(r) => bad("not written to JSON (serde)", String::new()),
                Err(e) => {
                    if e.0 != n {
                        bad("the reported number is another one", e.0.to_string())
                    }
                }
                Ok(m) => {
                    if !decimal(r) {
                        bad("a number that is not decimal is written to JSON", m.to_string());
                    }
                    if !carried(r, &m, 1) {
                        bad("the JSON number (serde) denotes another number", m.to_string());
                    }
                    let back = Number::from(m.clone());
                    if !same_native(&num(r.clone()), &num(back.into_big_rational()), 1) {
                        bad("reading the JSON number (serde) gives another number", m.to_string());
                    }
                }
            }
            ctx.trace();
        });
        if let Err(e) = res {
            bad("a number conversion crashed", e);
        }
    });

    // native numbers
    if ctx.begin("native") {
        let bad = |what: &str, got: String| ctx.violate("native", what, json!({ "got": got }));
        let res = ctx.guarded(|| {
            macro_rules! ints {
                ($($t:ty),*) => {$(
                    for d in -300i64..=300 {
                        for base in [0, <$t>::MIN, <$t>::MAX, <$t>::MAX / 2] {
                            let b: i128 = base as i128 + d as i128;
                            if let Ok(x) = <$t>::try_from(b) {
                                ctx.state();
                                if *Number::from(x).as_big_rational() != int(b) {
                                    bad(concat!("number from ", stringify!($t), " differs"), format!("{x}"));
                                }
                            }
                        }
                    }
                )*};
            }
            ints!(u8, u16, u32, u64, i8, i16, i32, i64);
            for e in 0u64..0x800 {
                for m in [0u64, 1, 2, (1 << 51), (1 << 52) - 1, 0x5555555555555] {
                    for s in 0..2u64 {
                        let f = f64::from_bits(s << 63 | e << 52 | m);
                        ctx.state();
                        match Number::try_from(f) {
                            Ok(n) => {
                                if !f.is_finite() {
                                    bad("a non-finite double is a number", format!("{f}"))
                                } else if *n.as_big_rational() != exact(f) {
                                    bad("number from a double differs", format!("{f:e}"))
                                } else if n.to_f64() != f {
                                    bad("double to number to double differs", format!("{f:e}"))
                                }
                            }
                            Err(e) => {
                                if f.is_finite() || e.0.to_bits() != f.to_bits() {
                                    bad("a finite double is no number", format!("{f:e}"))
                                }
                            }
                        }
                    }
                }
            }
            for e in 0u32..0x100 {
                for m in [0u32, 1, (1 << 22), (1 << 23) - 1, 0x2aaaaa] {
                    for s in 0..2u32 {
                        let f = f32::from_bits(s << 31 | e << 23 | m);
                        ctx.state();
                        match Number::try_from(f) {
                            Ok(n) => {
                                if !f.is_finite() || *n.as_big_rational() != exact(f as f64) {
                                    bad("number from a float differs", format!("{f:e}"))
                                }
                            }
                            Err(_) => {
                                if f.is_finite() {
                                    bad("a finite float is no number", format!("{f:e}"))
                                }
                            }
                        }
                    }
                }
            }
        });
        if let Err(e) = res {
            bad("a number conversion crashed", e);
        }
    }
}

fn check_values(ctx: &Ctx) {
    let vs = universe(ctx, true);
    ctx.count("values", vs.len() as u64);
    ctx.par(&vs, |i, v| {
        if !ctx.begin(&format!("value/{i}")) {
            return;
        }
        let key = format!("value/{i}");
        ctx.state();
        ctx.sample(|| show(v));
        let bad = |what: &str, got: String| {
            ctx.violate(&key, what, json!({"value": show(v), "got": got.chars().take(400).collect::<String>()}))
        };
        let res = ctx.guarded(|| {
            let native = sayable(v, Carry::Native);
            let any = sayable(v, Carry::Decimal);
            let edge = self::any(v, |v| matches!(v, Value::Literal(Literal::Number(n)) if at_edge(n.as_big_rational())));
            // serde_json values
            match serde_json::Value::try_from(v.clone()) {
                Ok(j) => {
                    if !native {
                        bad("a value JSON cannot say is written", j.to_string())
                    } else {
                        if !same_sj(v, &j, 1) {
                            bad("the JSON value differs", j.to_string())
                        }
                        let back = Value::from(j.clone());
                        if !same_native(v, &back, 1) {
                            bad("reading the JSON value gives another value", back.to_string())
                        }
                        match serde_json::Value::try_from(back.clone()) {
                            Ok(k) if same_sj(&back, &k, 1) => (),
                            k => bad("writing the JSON value that was read gives another one", format!("{k:?}")),
                        }
                    }
                }
                Err(e) => {
                    if native && !edge {
                        bad("not written to JSON (serde_json)", e.to_string())
                    }
                }
            }
            if let Value::Literal(l) = v {
                let direct = serde_json::Value::try_from(l.clone()).ok();
                if direct != serde_json::Value::try_from(v.clone()).ok() {
                    bad("the JSON of the literal is not the JSON of the value", format!("{direct:?}"))
                }
                let direct = json_syntax::Value::try_from(l.clone()).ok();
                if direct != json_syntax::Value::try_from(v.clone()).ok() {
                    bad("the JSON of the literal is not the JSON of the value", format!("{direct:?}"))
                }
            }
            ctx.step();
            // json_syntax values: exact
            match json_syntax::Value::try_from(v.clone()) {
                Ok(j) => {
                    if !any {
                        bad("a value JSON cannot say is written (json-syntax)", j.compact_print().to_string())
                    } else {
                        let text = j.compact_print().to_string();
                        if read_json(&text) != denoted(v) {
                            bad("the JSON text differs", text.clone())
                        }
                        if Value::from(j.clone()) != *v {
                            bad("reading the JSON value (json-syntax) gives another value", text.clone())
                        }
                        let (p, map) = json_syntax::Value::parse_str(&text).unwrap();
                        if !has_empty_object(v) {
                            // (the parser's position table is off by one after an empty object)
                            let back = Value::try_from_json_at(&p, &map, 0).unwrap();
                            if back != *v {
                                bad("reading the JSON value with positions gives another value", text)
                            }
                        }
                    }
                }
                Err(e) => {
                    if any {
                        bad("not written to JSON (json-syntax)", e.to_string())
                    }
                }
            }
            ctx.step();
            // as displayed
            let text = v.to_string();
            let c: Vec<char> = text.chars().collect();
            let mut at = 0;
            if displayed(&c, &mut at).as_ref() != Some(v) || at != c.len() {
                bad("the displayed value is another one", text.clone())
            }
            if let Value::Literal(l) = v {
                if l.to_string() != text {
                    bad("the literal is not displayed as the value", l.to_string())
                }
            }
            ctx.step();
            // serde
            let ser = serde_json::to_value(v);
            let text = serde_json::to_string(v);
            if string_keyed(v) && !has_bytes(v) {
                let over = max_over(v);
                for (name, j) in [
                    ("to_value", ser.map_err(|e| e.to_string())),
                    ("to_string", text.map_err(|e| e.to_string()).and_then(|t| serde_json::from_str::<J>(&t).map_err(|e| format!("{t}: {e}")))),
                ] {
                    if edge {
                        continue;
                    }
                    match j {
                        Ok(j) => {
                            if over || !same_sj(v, &j, 2) {
                                bad(&format!("serialized ({name}) to something else"), j.to_string())
                            } else {
                                for (name, back) in [
                                    ("from_value", serde_json::from_value::<Value>(j.clone())),
                                    ("from_str", serde_json::from_str::<Value>(&j.to_string())),
                                ] {
                                    match back {
                                        Ok(back) => {
                                            if !same_native(v, &back, 2) {
                                                bad(&format!("deserialized ({name}) to something else"), back.to_string())
                                            }
                                        }
                                        Err(e) => bad(&format!("not deserialized ({name})"), e.to_string()),
                                    }
                                }
                            }
                        }
                        Err(e) => {
                            if !over && !no_decimal(v) {
                                bad(&format!("not serialized ({name})"), e)
                            }
                        }
                    }
                }
            }
            // the whole data model
            if !colliding(v) {
                match serde_cbor::to_vec(v) {
                    Ok(b) => {
                        if max_over(v) {
                            bad("a number beyond doubles is serialized", hex(&b))
                        } else {
                            match serde_cbor::from_slice::<Value>(&b) {
                                Ok(back) => {
                                    if !same_native(v, &back, 1) {
                                        bad("deserialized to something else", back.to_string())
                                    }
                                }
                                Err(e) => bad("not deserialized", e.to_string()),
                            }
                        }
                    }
                    Err(e) => {
                        if !max_over(v) && !no_decimal(v) {
                            bad("not serialized", e.to_string())
                        }
                    }
                }
            }
            ctx.trace();
        });
        if let Err(e) = res {
            bad("a conversion crashed", e);
        }
    });
    // non-finite doubles in a serialized form
    for (i, b) in [&b"\xf9\x7e\x00"[..], b"\xf9\x7c\x00", b"\xf9\xfc\x00", b"\xfa\x7f\x80\x00\x00", b"\xfb\x7f\xf0\x00\x00\x00\x00\x00\x00"].iter().enumerate() {
        let key = format!("nonfinite/{i}");
        if !ctx.begin(&key) {
            continue;
        }
        ctx.state();
        match ctx.guarded(|| serde_cbor::from_slice::<Value>(b).map(|v| v.to_string())) {
            Ok(Err(_)) => (),
            Ok(Ok(v)) => ctx.violate(&key, "a non-finite double is deserialized", json!({ "got": v })),
            Err(e) => ctx.violate(&key, "deserialization crashed", json!({ "got": e })),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn walk(v: &Value, f: &mut dyn FnMut(&Value)) {
    f(v);
    match v {
        Value::List(l) => l.iter().for_each(|v| walk(v, f)),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            walk(k, f);
            walk(v, f)
        }),
        _ => (),
    }
}
pub fn any(v: &Value, p: impl Fn(&Value) -> bool) -> bool {
    let mut r = false;
    walk(v, &mut |v| r |= p(v));
    r
}
fn has_empty_object(v: &Value) -> bool {
    any(v, |v| matches!(v, Value::Map(m) if m.is_empty()))
}
fn string_keyed(v: &Value) -> bool {
    !any(v, |v| matches!(v, Value::Map(m) if m.keys().any(|k| k.as_str().is_none())))
}
fn has_bytes(v: &Value) -> bool {
    any(v, |v| matches!(v, Value::Literal(Literal::ByteString(_))))
}
fn max_over(v: &Value) -> bool {
    any(v, |v| matches!(v, Value::Literal(Literal::Number(n)) if overflows(n.as_big_rational())))
}
fn no_decimal(v: &Value) -> bool {
    any(v, |v| matches!(v, Value::Literal(Literal::Number(n)) if !decimal(n.as_big_rational())))
}
/// Keys that are the same once their numbers are doubles.
fn colliding(v: &Value) -> bool {
    any(v, |v| match v {
        Value::Map(m) => {
            let ks: Vec<&Value> = m.keys().collect();
            (0..ks.len()).any(|i| (0..i).any(|j| same_native(ks[i], ks[j], 2) || same_native(ks[j], ks[i], 2)))
        }
        _ => false,
    })
}

fn strings(alphabet: &[char], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// Every spelling of a number.
fn check_spellings(ctx: &Ctx) {
    let all = strings(&['0', '1', '5', '-', '+', '.', 'e', 'E', 'x'], ctx.bound(5, 6));
    ctx.count("spellings", all.len() as u64);
    let long: Vec<String> = [
        "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9007199254740993", "9007199254740993.0",
        "0.1e1", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "-1e309", "1e400", "1e-400", "5e-324", "2e-324", "123456789012345678901234567890",
        "0.30000000000000004", "1.0000000000000000000000000000001", "100e-2", "1E+2", "1e-5", "-0", "-0.0", "-0e0", "0e0", "0e99", "0.000", "12.50", " 1", "1 ", "１", "0x1", "1_0", "inf", "NaN", "Infinity", "-inf",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let all: Vec<String> = all.into_iter().chain(long).collect();
    let chunks: Vec<&[String]> = all.chunks(2000).collect();
    ctx.par(&chunks, |ci, chunk| {
        let group = format!("spelling/{ci}");
        if !ctx.begin(&group) {
            return;
        }
        for s in chunk.iter() {
            ctx.state();
            let bad = |what: &str, got: String| {
                ctx.violate(&group, what, json!({"text": s, "got": got.chars().take(300).collect::<String>()}))
            };
            let res = ctx.guarded(|| {
                let expected = read_decimal(s, false).map(|r| r.unwrap());
                let got = Number::parse_decimal(s).map(|n| n.into_big_rational());
                if got != expected {
                    bad("parse_decimal differs", format!("{got:?}"))
                }
                let Some(Ok(r)) = read_decimal(s, true) else { return };
                ctx.step();
                // exact library
                let (j, map) = json_syntax::Value::parse_str(s).unwrap();
                for v in [Value::from(j.clone()), Value::try_from_json_at(&j, &map, 0).unwrap()] {
                    if v != num(r.clone()) {
                        bad("the JSON number is read as another number", v.to_string())
                    }
                    match json_syntax::Value::try_from(v) {
                        Ok(w) => {
                            let t = w.compact_print().to_string();
                            if read_json(&t) != Some(D::Num(r.clone())) {
                                bad("the JSON number that was read is written as another number", t)
                            }
                        }
                        Err(e) => bad("the JSON number that was read is not written", e.to_string()),
                    }
                }
                // the other one, and serde
                match serde_json::from_str::<J>(s) {
                    Err(_) => {
                        if !overflows(&r) && !at_edge(&r) {
                            panic!("oracle: {s} is not read by serde_json")
                        }
                    }
                    Ok(j) => {
                        let J::Number(n) = &j else { panic!("oracle: {s} is no number") };
                        let v = Value::from(j.clone());
                        let ok = |v: &Value| match v {
                            Value::Literal(Literal::Number(m)) => {
                                let r = m.as_big_rational();
                                match (n.as_u64(), n.as_i64()) {
                                    (Some(u), _) => *r == int(u),
                                    (_, Some(u)) => *r == int(u),
                                    _ => near(r, n.as_f64().unwrap(), 0),
                                }
                            }
                            _ => false,
                        };
                        if !ok(&v) {
                            bad("the JSON number (serde) is read as another number", v.to_string())
                        }
                        match serde_json::Value::try_from(v) {
                            Ok(k) => {
                                let same = match (n.as_u64().map(|u| int(u)).or(n.as_i64().map(|u| int(u))), &k) {
                                    (Some(i), J::Number(m)) => carried(&i, m, 0),
                                    (None, J::Number(m)) => near(&exact(n.as_f64().unwrap()), m.as_f64().unwrap(), 1),
                                    _ => false,
                                };
                                if !same {
                                    bad("the JSON number (serde) that was read is written as another number", k.to_string())
                                }
                            }
                            Err(e) => {
                                if !at_edge(&r) {
                                    bad("the JSON number (serde) that was read is not written", e.to_string())
                                }
                            }
                        }
                        match serde_json::from_str::<Value>(s) {
                            Ok(v) if ok(&v) => (),
                            v => bad("the JSON number is deserialized as another number", format!("{v:?}")),
                        }
                    }
                }
                ctx.trace();
            });
            if let Err(e) = res {
                bad("a conversion crashed", e);
            }
        }
    });
}

/// Every document to a number of nodes.
fn check_documents(ctx: &Ctx) {
    let leaves = ["null", "true", "false", "0", "-1.5e1", "0.1", "18446744073709551616", "\"\"", "\"a\\u0000\\\"\"", "\"\\ud83d\\ude00 b\"", "[ ]", "{ }"];
    let thin = ["null", "-1.5e1", "\"a\"", "[]", "{}"];
    let keys = ["\"\"", "\"k\"", "\"\\u006b2\\n\""];
    fn docs(n: usize, leaves: &[&str], keys: &[&str], memo: &mut BTreeMap<usize, Vec<String>>) -> Vec<String> {
        if let Some(d) = memo.get(&n) {
            return d.clone();
        }
        let mut out = Vec::new();
        if n == 1 {
            out.extend(leaves.iter().map(|s| s.to_string()));
        } else {
            for (items, used) in seqs(n - 1, leaves, keys, memo) {
                out.push(format!("[{}]", items.join(", ")));
                let _ = used;
                // keys in every order
                let k = items.len();
                if k <= keys.len() {
                    for p in perms(keys.len(), k) {
                        let e: Vec<String> = items.iter().zip(&p).map(|(v, &k)| format!("{}: {v}", keys[k])).collect();
                        out.push(format!("{{{}}}", e.join(",")));
                    }
                }
            }
        }
        memo.insert(n, out.clone());
        out
    }
    fn seqs(n: usize, leaves: &[&str], keys: &[&str], memo: &mut BTreeMap<usize, Vec<String>>) -> Vec<(Vec<String>, usize)> {
        if n == 0 {
            return vec![(vec![], 0)];
        }
        let mut out = Vec::new();
        for k in 1..=n {
            let heads = docs(k, leaves, keys, memo);
            let tails = seqs(n - k, leaves, keys, memo);
            for h in &heads {
                for (t, u) in &tails {
                    let mut v = vec![h.clone()];
                    v.extend(t.iter().cloned());
                    out.push((v, u + k));
                }
            }
        }
        out
    }
    fn perms(n: usize, k: usize) -> Vec<Vec<usize>> {
        if k == 0 {
            return vec![vec![]];
        }
        let mut out = Vec::new();
        for p in perms(n, k - 1) {
            for i in 0..n {
                if !p.contains(&i) {
                    let mut q = p.clone();
                    q.push(i);
                    out.push(q);
                }
            }
        }
        out
    }
    let mut all = Vec::new();
    let mut memo = BTreeMap::new();
    for n in 1..=3 {
        all.extend(docs(n, &leaves, &keys, &mut memo));
    }
    let mut memo = BTreeMap::new();
    for n in 1..=ctx.bound(4, 5) {
        all.extend(docs(n, &thin, &keys, &mut memo));
    }
    ctx.count("documents", all.len() as u64);
    ctx.par(&all, |i, text| {
        let key = format!("document/{i}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let bad = |what: &str, got: String| ctx.violate(&key, what, json!({"document": text, "got": got}));
        let res = ctx.guarded(|| {
            let d = read_json(text).expect("oracle: document not read");
            let (j, map) = json_syntax::Value::parse_str(text).unwrap();
            let v = Value::from(j.clone());
            if denoted(&v).as_ref() != Some(&d) {
                bad("the document is read as another value", v.to_string())
            }
            if !has_empty_object(&v) {
                let w = Value::try_from_json_at(&j, &map, 0).unwrap();
                if w != v {
                    bad("the document is read with positions as another value", w.to_string())
                }
            }
            match json_syntax::Value::try_from(v.clone()) {
                Ok(w) => {
                    let t = w.compact_print().to_string();
                    if read_json(&t).as_ref() != Some(&d) {
                        bad("the document that was read is written as another one", t)
                    }
                }
                Err(e) => bad("the document that was read is not written", e.to_string()),
            }
            ctx.step();
            let sj: J = serde_json::from_str(text).unwrap();
            for (name, w) in [("From", Ok(Value::from(sj.clone()))), ("from_str", serde_json::from_str::<Value>(text)), ("from_value", serde_json::from_value::<Value>(sj.clone()))] {
                match w {
                    Ok(w) => {
                        if !same_native(&v, &w, 0) || !same_sj(&w, &sj, 0) {
                            bad(&format!("the document (serde, {name}) is read as another value"), w.to_string())
                        }
                        match serde_json::Value::try_from(w.clone()) {
                            Ok(k) if same_sj(&w, &k, 1) && same_sj(&v, &k, 1) => (),
                            k => bad(&format!("the document (serde, {name}) that was read is written as another one"), format!("{k:?}")),
                        }
                        match serde_json::to_value(&w) {
                            Ok(k) if same_sj(&w, &k, 0) && same_sj(&v, &k, 1) => (),
                            k => bad(&format!("the document (serde, {name}) that was read is serialized as another one"), format!("{k:?}")),
                        }
                    }
                    Err(e) => bad("the document is not deserialized", e.to_string()),
                }
            }
            ctx.trace();
        });
        if let Err(e) = res {
            bad("a conversion crashed", e);
        }
    });
}

fn rf<T>() -> Ref<T, u32> {
    Ref::new(7)
}

/// Typed values, with the untyped value each denotes.
pub fn typed(deep: bool) -> Vec<(TypedValue<u32>, Value)> {
    let mut l: Vec<(TypedValue<u32>, Value)> = Vec::new();
    let lit = |t| TypedValue::Literal(t);
    for c in [Value::unit(), st("c"), bo(true), map([(st("k"), num(int(1)))]), Value::List(vec![by(b"x")])] {
        l.push((lit(TypedLiteral::Unit(c.clone(), rf())), c.clone()));
        l.push((TypedValue::Always(c.clone()), c));
    }
    for b in [true, false] {
        l.push((lit(TypedLiteral::Boolean(b, rf())), bo(b)));
    }
    for n in [int(0), ratio(-1, 2), ratio(1, 3), int(pow(2, 70))] {
        l.push((lit(TypedLiteral::Number(Number::new(n.clone()), rf())), num(n)));
    }
    for b in [&b""[..], b"\x00a"] {
        l.push((lit(TypedLiteral::ByteString(b.to_vec(), rf())), by(b)));
    }
    for s in ["", "a"] {
        l.push((lit(TypedLiteral::TextString(s.into(), rf())), st(s)));
        l.push((lit(TypedLiteral::Id(s.into(), rf())), st(s)));
    }
    let mut level = l.clone();
    for d in 0..if deep { 2 } else { 1 } {
        let base: Vec<_> = if d == 0 { level.clone() } else { level.iter().step_by(7).cloned().collect() };
        let mut next = vec![(TypedValue::List(vec![], rf()), Value::List(vec![])), (TypedValue::Map(BTreeMap::new(), rf()), map([]))];
        for (t, v) in &base {
            for i in [0, 3] {
                next.push((TypedValue::Variant(Box::new(t.clone()), rf(), i), v.clone()));
            }
            next.push((TypedValue::Variant(Box::new(TypedValue::Variant(Box::new(t.clone()), rf(), 1)), rf(), 0), v.clone()));
            next.push((TypedValue::List(vec![t.clone()], rf()), Value::List(vec![v.clone()])));
            next.push((TypedValue::Map([(st("k"), t.clone())].into_iter().collect(), rf()), map([(st("k"), v.clone())])));
            for (t2, v2) in &base {
                next.push((TypedValue::List(vec![t.clone(), t2.clone()], rf()), Value::List(vec![v.clone(), v2.clone()])));
                next.push((
                    TypedValue::Map([(num(int(1)), t.clone()), (st("b"), t2.clone())].into_iter().collect(), rf()),
                    map([(num(int(1)), v.clone()), (st("b"), v2.clone())]),
                ));
            }
        }
        level = next;
        l.extend(level.iter().cloned());
    }
    l
}

fn check_typed(ctx: &Ctx) {
    let all = typed(!ctx.quick());
    ctx.count("typed_values", all.len() as u64);
    ctx.par(&all, |i, (t, v)| {
        let key = format!("typed/{i}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let res = ctx.guarded(|| {
            let u = t.clone().into_untyped();
            if u != *v {
                ctx.violate(&key, "the untyped value differs", json!({"typed": format!("{t:?}"), "expected": show(v), "got": show(&u)}));
            }
            ctx.trace();
        });
        if let Err(e) = res {
            ctx.violate(&key, "a conversion crashed", json!({"typed": format!("{t:?}"), "got": e}));
        }
        // typed literals of the default resource type to JSON
        if let TypedValue::Literal(l) = t {
            fn r<T>() -> Ref<T> {
                Ref::new(rdf_types::Term::iri(iref::IriBuf::new("http://e/l".to_owned()).unwrap()))
            }
            let l = match l.clone() {
                TypedLiteral::Unit(v, _) => TypedLiteral::Unit(v, r()),
                TypedLiteral::Boolean(v, _) => TypedLiteral::Boolean(v, r()),
                TypedLiteral::Number(v, _) => TypedLiteral::Number(v, r()),
                TypedLiteral::ByteString(v, _) => TypedLiteral::ByteString(v, r()),
                TypedLiteral::TextString(v, _) => TypedLiteral::TextString(v, r()),
                TypedLiteral::Id(v, _) => TypedLiteral::Id(v, r()),
            };
            match ctx.guarded(|| serde_json::Value::try_from(l.clone())) {
                Ok(Ok(j)) => {
                    if !sayable(v, Carry::Native) || !same_sj(v, &j, 1) {
                        ctx.violate(&key, "the JSON of the typed literal differs", json!({"typed": format!("{t:?}"), "got": j}));
                    }
                }
                Ok(Err(e)) => {
                    if sayable(v, Carry::Native) {
                        ctx.violate(&key, "the typed literal is not written to JSON", json!({"typed": format!("{t:?}"), "got": e.to_string()}));
                    }
                }
                Err(e) => ctx.violate(&key, "a conversion crashed", json!({"typed": format!("{t:?}"), "got": e})),
            }
        }
    });
}

/// Numbers whose exponent does not fit 32 bits: JSON, but beyond what the
/// infallible conversion can hold. (Recorded findings.)
fn check_findings(ctx: &Ctx) {
    for s in ["1e2147483648", "1E-2147483649", "0e99999999999", "-1e-99999999999"] {
        let key = format!("exponent/{s}");
        if !ctx.begin(&key) {
            continue;
        }
        ctx.state();
        let (j, _) = json_syntax::Value::parse_str(s).unwrap();
        if let Err(e) = ctx.guarded(|| Value::from(j.clone()).is_unit()) {
            ctx.violate(&key, "reading a JSON number crashed", json!({"text": s, "got": e}));
        }
    }
}
