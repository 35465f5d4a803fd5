//! Literals for themselves: every spelling to a bound for every leaf layout,
//! read, written and taken round trip.
use crate::{core::*, model::*, rt::Ctx};
use rdf_types::Term;
use serde_json::json;
use std::collections::BTreeSet;

pub fn words(alphabet: &[&str], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| alphabet.iter().map(move |c| format!("{w}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

/// Every word at one edit from `w`.
fn edits(w: &str, alphabet: &[&str]) -> Vec<String> {
    let c: Vec<char> = w.chars().collect();
    let mut out = vec![w.to_owned(), w.to_uppercase()];
    for i in 0..=c.len() {
        let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
        for x in alphabet {
            out.push(format!("{a}{x}{b}"));
        }
        if i < c.len() {
            let b: String = c[i + 1..].iter().collect();
            out.push(format!("{a}{b}"));
            out.push(format!("{a}{}{b}", c[i].to_uppercase()));
            for x in alphabet {
                out.push(format!("{a}{x}{b}"));
            }
        }
    }
    out
}

pub const TEXT: [&str; 16] = ["a", "A", " ", "\n", "\r", "\t", "\0", "é", "e\u{301}", "\u{1F600}", "\"", "\\", "<", "\u{feff}", "\u{2028}", "0"];

/// Texts: every word over awkward characters, and texts looking like
/// something else.
pub fn texts(n: usize) -> Vec<String> {
    let mut all = words(&TEXT, n);
    all.extend(
        [
            "http://e/a", "_:x", "true", "null", "1", "-1.50", "a\r\nb\r\n", "  a  ", "\"a\"^^<http://e/dt>", "\"a\"@en", "<http://e/a>", "[]", "{}",
            "\u{7f}", "\u{85}", "\u{a0}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "ǆ", "İ", "ß", "ﬁ", "\u{202e}a", "%20", "a%0D%0Ab", "&amp;", "\\u0041",
        ]
        .map(String::from),
    );
    all.push("x".repeat(5000));
    let set: BTreeSet<String> = all.into_iter().collect();
    set.into_iter().collect()
}

const DECIMALS: [&str; 14] = [
    "decimal", "integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "nonNegativeInteger", "unsignedLong", "unsignedInt",
    "unsignedShort", "unsignedByte", "positiveInteger",
];

pub fn numerals(n: usize) -> Vec<String> {
    let mut v = words(&["0", "1", "9", "-", "+", ".", "e", " "], n);
    v.extend(
        [
            "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "340282366920938463463374607431768211456",
            "0.1000000000000000055511151231257827021181583404541015625", "-0.000000000000000000000000000001", "000000000000000000001", "1.0000000000000000000000",
            "INF", "NaN", "-INF", "1E5", "0x10", "1_000", "1,000", "١", "½", "1\n", "\n1", "-0.0", "+0", "127", "128", "-128", "-129", "255", "256", "32768",
            "65536", "2147483648", "4294967296",
        ]
        .map(String::from),
    );
    v
}

pub fn booleans(n: usize) -> Vec<String> {
    let mut b = words(&["0", "1", "t", "T", " ", "+", "\n"], n);
    for w in ["true", "false"] {
        b.extend(edits(w, &["t", "e", "E", " ", "\0", "0", "\n", "\u{435}"]));
    }
    b
}

/// Leaf layouts with the spellings to try for each.
fn leaf_words(ctx: &Ctx) -> Vec<(Sys, Vec<String>)> {
    let mut out = vec![];
    let t = texts(ctx.bound(3, 4));
    let short = texts(ctx.bound(1, 2));
    for (nm, dt) in [("string", format!("{XSD}string")), ("custom", "http://e/dt".into()), ("boolean", format!("{XSD}boolean")), ("token", format!("{XSD}token"))] {
        out.push((sys(&format!("lits:str:{nm}"), leaf(K::Str(V(0), dt))), if nm == "string" { t.clone() } else { short.clone() }));
    }
    let b = booleans(ctx.bound(3, 4));
    for (nm, dt) in [("boolean", format!("{XSD}boolean")), ("string", format!("{XSD}string")), ("custom", "http://e/dt".into())] {
        out.push((sys(&format!("lits:bool:{nm}"), leaf(K::Bool(V(0), dt))), b.clone()));
    }
    let long = numerals(ctx.bound(4, 6));
    let some = numerals(ctx.bound(2, 4));
    for dt in DECIMALS.iter().chain(&["double", "float", "string", "boolean", "dateTime"]) {
        let ws = if ["decimal", "integer"].contains(dt) { long.clone() } else { some.clone() };
        out.push((sys(&format!("lits:num:{dt}"), l_num(dt)), ws));
    }
    for dt in ["hexBinary", "base64Binary", "string"] {
        out.push((sys(&format!("lits:bytes:{dt}"), leaf(K::Bytes(V(0), format!("{XSD}{dt}")))), words(&["0", "f", "F", "=", " "], 2)));
    }
    out.push((sys("lits:id", l_id()), short.clone()));
    out
}

fn dt_of(l: &L) -> String {
    match &l.k {
        K::Str(_, d) | K::Bool(_, d) | K::Num(_, d) | K::Bytes(_, d) => d.clone(),
        _ => format!("{XSD}string"),
    }
}

/// Where the leaf sits.
fn homes(l: &L) -> Vec<(&'static str, L)> {
    vec![
        ("field", record(vec![("f", prop(1, "q", l.clone()), true)])),
        ("set", set("q", l.clone())),
        ("list", rdf_list(l.clone())),
    ]
}

/// Each spelling as the input, and in the data of a field, of a set and of a
/// list, with the datatype of the layout and with others.
pub fn each_reading(ctx: &Ctx, f: impl Fn(&Ctx, &Sys, &crate::real::Real, &Ds, &[Term], &str) + Sync) {
    let all = leaf_words(ctx);
    ctx.par(&all, |_, (s, ws)| {
        let dt = dt_of(&s.main);
        let Some(real) = load_or_report(ctx, s) else { return };
        let none = Ds::new();
        let terms = |w: &str| {
            let mut v = vec![lit(w, &dt)];
            if w.len() < 3 {
                v.push(lit(w, "http://e/other"));
                v.push(lang(w, "en"));
            }
            v
        };
        for (wi, w) in ws.iter().enumerate() {
            for (ti, t) in terms(w).into_iter().enumerate() {
                let key = format!("{}|w{wi}.{ti}", s.name);
                if ctx.begin(&key) {
                    f(ctx, s, &real, &none, &[t], &key);
                }
            }
        }
        for (nm, h) in homes(&s.main) {
            let h = sys(&format!("{}@{nm}", s.name), h);
            let Some(real) = load_or_report(ctx, &h) else { continue };
            let ws: Vec<&String> = ws.iter().filter(|w| w.chars().count() <= 2 || w.chars().count() > 8).collect();
            for (wi, w) in ws.iter().enumerate() {
                let key = format!("{}|w{wi}", h.name);
                if !ctx.begin(&key) {
                    continue;
                }
                let t = lit(w, &dt);
                let ds: Ds = if nm == "list" {
                    [(ex("a"), first(), t, None), (ex("a"), rest(), nil(), None)].into_iter().collect()
                } else {
                    [(ex("a"), ex("q"), t, None)].into_iter().collect()
                };
                f(ctx, &h, &real, &ds, &[ex("a")], &key);
            }
        }
    });
}

/// Values for each leaf.
fn leaf_values(ctx: &Ctx) -> Vec<(Sys, Vec<Tree>)> {
    let mut out = vec![];
    let txt: Vec<Tree> = texts(ctx.bound(3, 4)).iter().map(|t| s(t)).collect();
    let few: Vec<Tree> = texts(ctx.bound(1, 2)).iter().map(|t| s(t)).collect();
    let nums: Vec<Tree> = crate::values::numbers(!ctx.quick()).into_iter().map(Tree::Num).collect();
    let odd = vec![Tree::Unit, Tree::Bool(true), Tree::Bool(false), n(0), s(""), Tree::Bytes(vec![]), Tree::Bytes(vec![0, 255]), list([]), map([]), list([s("a")]), list([Tree::Unit])];
    for (nm, l) in [
        ("string", l_str()),
        ("custom", leaf(K::Str(V(0), "http://e/dt".into()))),
        ("boolean", leaf(K::Str(V(0), format!("{XSD}boolean")))),
    ] {
        let mut v = if nm == "string" { txt.clone() } else { few.clone() };
        v.extend(odd.clone());
        out.push((sys(&format!("vals:str:{nm}"), l), v));
    }
    for dt in DECIMALS.iter().chain(&["double", "float", "string", "boolean"]) {
        let mut v = nums.clone();
        v.extend(odd.clone());
        out.push((sys(&format!("vals:num:{dt}"), l_num(dt)), v));
    }
    for dt in ["boolean", "string", "integer"] {
        out.push((sys(&format!("vals:bool:{dt}"), leaf(K::Bool(V(0), format!("{XSD}{dt}")))), odd.clone()));
    }
    for dt in ["hexBinary", "base64Binary", "string"] {
        out.push((sys(&format!("vals:bytes:{dt}"), leaf(K::Bytes(V(0), format!("{XSD}{dt}")))), odd.clone()));
    }
    let mut ids = few.clone();
    ids.extend(odd.clone());
    for base in ["http://e/a", "urn:a", "http://e:80/a?b#c", "http://[::1]/"] {
        ids.extend(edits(base, &TEXT).iter().map(|t| s(t)));
        ids.extend(words(&["%", "4", "1", "/", ".", "#", "?", "é"], 3).iter().map(|w| s(&format!("{base}{w}"))));
    }
    out.push((sys("vals:id", l_id()), ids));
    // every constant against every value
    let mut consts = odd.clone();
    consts.extend([n(1), dec(1, 2), s("s"), map([("k", Tree::Unit)]), map([("", list([]))]), list([n(0), n(0)])]);
    let mut vs = consts.clone();
    vs.extend([n(-1), dec(2, 1), dec(1, 3), s("S"), map([("k", n(0))]), list([n(0)])]);
    for (i, c) in consts.iter().enumerate() {
        if !matches!(c, Tree::Bytes(_)) {
            out.push((sys(&format!("vals:unit:{i}"), l_unit(c.clone())), vs.clone()));
        }
    }
    out
}

pub fn each_writing(ctx: &Ctx, f: impl Fn(&Ctx, &Sys, &crate::real::Real, &Tree, &str) + Sync) {
    let all = leaf_values(ctx);
    ctx.par(&all, |_, (s0, vs)| {
        let Some(real) = load_or_report(ctx, s0) else { return };
        for (vi, v) in vs.iter().enumerate() {
            let key = format!("{}|v{vi}", s0.name);
            if ctx.begin(&key) {
                f(ctx, s0, &real, v, &key);
            }
        }
        let opt = record(vec![("f", prop(1, "q", s0.main.clone()), false)]);
        let tup = tuple(vec![prop(1, "q", s0.main.clone()), prop(1, "r", l_str())]);
        for (nm, h) in homes(&s0.main).into_iter().chain([("opt", opt), ("tup", tup)]) {
            let h = sys(&format!("{}@{nm}", s0.name), h);
            let Some(real) = load_or_report(ctx, &h) else { continue };
            for (vi, v) in vs.iter().enumerate() {
                if matches!(v, Tree::Str(t) if (3..=8).contains(&t.chars().count()) && !t.contains(':')) {
                    continue;
                }
                let w = match nm {
                    "field" | "opt" => map([("f", v.clone())]),
                    "tup" => list([v.clone(), s("z")]),
                    _ => list([v.clone()]),
                };
                let key = format!("{}|v{vi}", h.name);
                if ctx.begin(&key) {
                    f(ctx, &h, &real, &w, &key);
                }
                if vi < 40 && matches!(nm, "set" | "list") {
                    for (wi, w) in vs.iter().take(40).enumerate() {
                        let key = format!("{}|v{vi}.{wi}", h.name);
                        if ctx.begin(&key) {
                            f(ctx, &h, &real, &list([v.clone(), w.clone()]), &key);
                        }
                    }
                }
            }
        }
    });
}

/// C03 and C07.
pub fn hydrate_literals(ctx: &Ctx, total_only: bool) {
    each_reading(ctx, |ctx, s, real, ds, ins, key| hydrate_case(ctx, s, real, ds, None, ins, key, total_only));
}

/// C04.
pub fn dehydrate_literals(ctx: &Ctx) {
    each_writing(ctx, |ctx, s, real, v, key| dehydrate_case(ctx, s, real, v, key));
}

/// C07.
pub fn dehydrate_total(ctx: &Ctx) {
    each_writing(ctx, |ctx, s, real, v, key| {
        ctx.state();
        let val = v.to_value();
        match ctx.guarded(|| real.dehydrate(&val)) {
            Ok(_) => ctx.trace(),
            Err(p) => ctx.violate(key, "dehydration crashed", json!({"layout": s.main.json(), "value": v.show(), "panic": p})),
        }
    });
}

/// C01.
pub fn round_values(ctx: &Ctx) {
    each_writing(ctx, |ctx, s, real, v, key| crate::roundtrip::value_case(ctx, s, real, v, key));
}

/// C02.
pub fn round_literals(ctx: &Ctx) {
    each_reading(ctx, |ctx, s, real, ds, ins, key| {
        crate::roundtrip::data_case(ctx, s, real, ds, ins, key, &mut BTreeSet::new());
    });
}
