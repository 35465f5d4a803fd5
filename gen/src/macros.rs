//! What the macros make of what they are given, compiled.
use mc::{rt::Ctx, rustc::Rustc};
use serde_json::{json, Value as J};
use std::path::PathBuf;

const ID: &str = "https://treeldr.org/prelude#id";
const STRING: &str = "https://treeldr.org/prelude#string";

/// Files: name, text, the types they declare (none: to be refused).
fn files() -> Vec<(&'static str, String, Option<Vec<&'static str>>)> {
    let t = |j: J| j.to_string();
    let field = |f: &str, value: J| json!({"type": "record", "id": "http://e/Bad", "fields": {f: {"value": value, "property": "http://e/p"}}});
    let good = |id: &str, value: &str| json!({"type": "record", "id": id, "fields": {"f": {"value": value, "property": "http://e/p"}}});
    vec![
        ("record", t(good("http://e/Rec", STRING)), Some(vec!["Rec"])),
        ("base", t(json!({"base": "http://e/x/", "type": "record", "id": "http://e/Based", "fields": {"f": {"value": {"type": "string", "id": "Str"}, "property": "p"}}})), Some(vec!["Based", "Str"])),
        ("prefix", t(json!({"prefixes": {"ex": "http://e/y/"}, "type": "set", "id": "http://e/Set", "item": {"value": ID, "property": "ex:p"}})), Some(vec!["Set"])),
        (
            "sum",
            t(json!({"type": "sum", "id": "http://e/Sum", "variants": {
                "a": {"value": {"type": "string", "id": "http://e/SumA"}},
                "b": {"value": {"type": "list", "id": "http://e/SumB", "node": {"value": STRING}}}
            }})),
            Some(vec!["Sum", "SumA", "SumB"]),
        ),
        ("tuple", t(json!({"type": "tuple", "id": "http://e/Tup", "items": [{"value": STRING, "property": "http://e/p"}, {"value": ID, "property": "http://e/q"}]})), Some(vec!["Tup"])),
        ("nojson", "{\"type\": \"string\", \"id\": \"http://e/Bad\"".to_owned(), None),
        ("empty", String::new(), None),
        ("trailing", "{\"type\": \"string\", \"id\": \"http://e/Bad\"} x".to_owned(), None),
        ("nolayout", t(json!({"id": "http://e/Bad"})), None),
        ("kind", t(json!({"type": "strin", "id": "http://e/Bad"})), None),
        ("array", t(json!([{"type": "string", "id": "http://e/Bad"}])), None),
        ("number", "1".to_owned(), None),
        ("undeclared", t(json!({"type": "string", "id": "http://e/Bad", "resource": "_:nowhere"})), None),
        ("nestedundeclared", t(json!({"type": "record", "id": "http://e/Bad", "fields": {"f": {"value": STRING, "property": "_:nowhere"}}})), None),
        ("relative", t(json!({"type": "string", "id": "Bad"})), None),
        ("relativeproperty", t(json!({"type": "record", "id": "http://e/Bad", "fields": {"f": {"value": STRING, "property": "p"}}})), None),
        ("badbase", t(json!({"base": "x", "type": "string", "id": "Bad"})), None),
        ("noname", t(json!({"type": "string"})), None),
        ("nestednoname", t(field("f", json!({"type": "record", "fields": {"g": {"value": STRING, "property": "http://e/p"}}}))), None),
        ("field", t(field("1", json!(STRING))), None),
        ("emptyfield", t(field("", json!(STRING))), None),
        ("variant", t(json!({"type": "sum", "id": "http://e/Bad", "variants": {"?": {"value": STRING}}})), None),
        ("float", t(json!({"type": "number", "id": "http://e/Bad", "datatype": "http://e/complex"})), None),
        ("nestedfloat", t(field("f", json!({"type": "number", "id": "http://e/N", "datatype": "http://e/complex"}))), None),
    ]
}

/// Sources of modules, with whether they are to compile.
fn sources(dir: &std::path::Path) -> Vec<(String, String, bool)> {
    let files = files();
    let path = |f: &str| format!("{:?}", dir.join(format!("{f}.json")).to_string_lossy());
    let mut out = vec![];
    let mut add = |key: String, names: &[&str], ok: bool| {
        let list = names.iter().map(|n| path(n)).collect::<Vec<_>>().join(", ");
        let declared: Vec<&str> = files.iter().filter(|f| names.contains(&f.0)).flat_map(|f| f.2.clone().unwrap_or_default()).collect();
        let uses: String = declared.iter().map(|d| format!("pub type U{d} = m::{d};\n")).collect();
        out.push((format!("{key}/module"), format!("#[treeldr::tldr({list})]\npub mod m {{}}\n{uses}"), ok));
        out.push((format!("{key}/comma"), format!("#[treeldr::tldr({list},)]\npub mod m {{}}\n{uses}"), ok));
        out.push((format!("{key}/include"), format!("pub mod m {{ treeldr::tldr_include!({list}); }}\n{uses}"), ok));
    };
    for (a, _, oa) in &files {
        add(format!("one/{a}"), &[a], oa.is_some());
        for (b, _, ob) in &files {
            if a != b && (oa.is_some() || ob.is_some()) {
                add(format!("two/{a}/{b}"), &[a, b], oa.is_some() && ob.is_some());
            }
        }
    }
    add("missing".into(), &["missing"], false);
    add("missing/second".into(), &["record", "missing"], false);
    // other things than modules, and in modules
    let r = path("record");
    let other = "pub mod other { pub struct X; pub mod deep { pub struct Y; } }\n";
    for (key, source, ok) in [
        ("items/none", format!("#[treeldr::tldr()] pub mod m {{}}"), true),
        ("items/private", format!("#[treeldr::tldr({r})] mod m {{}} pub struct S(m::Rec);"), true),
        ("items/use", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/other/\")] use crate::other; }} pub type U = m::Rec;"), true),
        ("items/rename", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/other/\")] use crate::other as o; }} pub type U = m::Rec;"), true),
        ("items/deep", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/other/\")] use crate::other::deep; }} pub type U = m::Rec;"), true),
        ("items/plain", format!("{other}#[treeldr::tldr({r})] pub mod m {{ pub use crate::other::X; }} pub type U = m::Rec; pub type V = m::X;"), true),
        (
            "items/two",
            format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/other/\")] use crate::other; #[tldr(\"http://e/deep/\")] use crate::other::deep; pub use crate::other::X; }} pub type U = m::Rec; pub type V = m::X;"),
            true,
        ),
        ("items/external", format!("#[treeldr::tldr({r})] pub fn f() {{}}"), false),
        ("items/struct", format!("#[treeldr::tldr({r})] pub mod m {{ pub struct S; }}"), false),
        ("items/function", format!("#[treeldr::tldr({r})] pub mod m {{ fn f() {{}} }}"), false),
        ("items/glob", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/other/\")] use crate::other::*; }}"), false),
        ("items/group", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/other/\")] use crate::other::{{X, deep}}; }}"), false),
        ("items/word", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr] use crate::other; }}"), false),
        ("items/assign", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr = \"http://e/other/\"] use crate::other; }}"), false),
        ("items/integer", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(1)] use crate::other; }}"), false),
        ("items/empty", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr()] use crate::other; }}"), false),
        ("items/strings", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[tldr(\"http://e/a/\", \"http://e/b/\")] use crate::other; }}"), false),
        ("items/attribute", format!("{other}#[treeldr::tldr({r})] pub mod m {{ #[allow(unused)] use crate::other; }}"), false),
        ("names/integer", "#[treeldr::tldr(1)] pub mod m {}".to_owned(), false),
        ("names/word", "#[treeldr::tldr(record)] pub mod m {}".to_owned(), false),
        ("names/separator", format!("#[treeldr::tldr({r} {r})] pub mod m {{}}"), false),
        ("names/assign", format!("#[treeldr::tldr(file = {r})] pub mod m {{}}"), false),
        ("include/integer", "treeldr::tldr_include!(1);".to_owned(), false),
        ("include/word", "treeldr::tldr_include!(record);".to_owned(), false),
        ("include/separator", format!("treeldr::tldr_include!({r} {r});"), false),
    ] {
        out.push((key.to_owned(), source, ok));
    }
    out
}

pub fn macros(ctx: &Ctx) {
    let root = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| ".".into()));
    let dir = root.join(format!("target/macros-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch folder");
    for (name, text, _) in files() {
        std::fs::write(dir.join(format!("{name}.json")), text).expect("write a layout");
    }
    let rustc = Rustc::new("gen");
    let all = sources(&dir);
    // every deviation alone, pairs in the quick tier in the form of a module only
    let all: Vec<_> = all.into_iter().filter(|(k, _, _)| !ctx.quick() || !k.starts_with("two/") || k.ends_with("/module")).collect();
    ctx.par(&all, |_, (key, source, ok)| {
        let key = format!("macro/{key}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        ctx.trace();
        let (got, said) = rustc.compile(source);
        ctx.count(if *ok { "sources_to_compile" } else { "sources_to_refuse" }, 1);
        if got != *ok {
            let what = if *ok { "types of layouts that are fine do not compile" } else { "what describes no type compiles" };
            ctx.violate(&key, what, json!({"source": source, "compiler": said.chars().take(600).collect::<String>()}));
        }
    });
    for (name, _, _) in files() {
        let _ = std::fs::remove_file(dir.join(format!("{name}.json")));
    }
    let _ = std::fs::remove_dir(&dir);
}
