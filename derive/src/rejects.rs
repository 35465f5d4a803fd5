//! Which attributes derived types accept, and which they refuse.
use mc::{rt::Ctx, rustc::Rustc};
use serde_json::json;

/// Arguments of types: accepted ones, refused ones. `K` stands for a resource.
const TYPE_OK: [&str; 26] = [
    "",
    "prefix(\"ex\" = \"http://e/\")",
    "prefix(\"ex\" = \"http://e/\",)",
    "prefix(\"ex\" = \"http://e/\", \"ey\" = \"http://f/\")",
    "prefix()",
    "prefix(\"ex\" = \"http://e/\"), prefix(\"ey\" = \"http://f/\")",
    "base(\"http://e/\")",
    "base(\"http://e/\"), base(\"http://e/\")",
    "id(\"http://e/T\")",
    "id(\"http://e/T\"), id(\"http://e/T\")",
    "input(\"self\")",
    "input(\"self\",)",
    "input(\"self\"), input(\"self\")",
    "input(\"a\"), dataset((\"_:a\", \"http://e/p\", \"_:a\"))",
    "intro()",
    "intro(\"x\", \"y\")",
    "intro(\"x\"), dataset((\"_:self\", \"http://e/p\", \"_:x\"))",
    "dataset()",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\"),)",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\",))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\", \"http://e/g\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\", \"http://e/g\",))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\"), (\"_:self\", \"http://e/q\", \"_:self\", \"_:self\"))",
    "base(\"http://e/\"), dataset((\"_:self\", \"p\", \"/o\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\")), dataset((\"_:self\", \"http://e/p\", \"http://e/o\"))",
];

const TYPE_BAD: [&str; 62] = [
    "foo",
    "foo(\"x\")",
    "Record",
    "records",
    "\"http://e/p\"",
    "1",
    "= 1",
    "prefix",
    "prefix = \"x\"",
    "prefix(\"ex\")",
    "prefix(\"ex\" =)",
    "prefix(\"ex\", \"http://e/\")",
    "prefix(\"ex\" = 1)",
    "prefix(1 = \"http://e/\")",
    "prefix(ex = \"http://e/\")",
    "prefix(\"ex\" = \"<>\")",
    "prefix(\"ex\" = \"http://e/\" \"ey\" = \"http://f/\")",
    "base",
    "base()",
    "base(1)",
    "base(x)",
    "base(\"<>\")",
    "base(\"http://e/\", \"http://f/\")",
    "base(\"http://e/\"), base(\"http://f/\")",
    "base = \"http://e/\"",
    "base(\"rel\")",
    "id()",
    "id(1)",
    "id(\"<>\")",
    "id(\"rel\")",
    "id(\"http://e/T\"), id(\"http://e/U\")",
    "input",
    "input(1)",
    "input(self)",
    "input(\"self\"), input(\"other\")",
    "input(\"self\" \"other\")",
    "input = \"self\"",
    "intro",
    "intro(1)",
    "intro(x)",
    "intro(\"x\"), intro(\"y\")",
    "intro(\"x\" \"y\")",
    "dataset",
    "dataset(\"_:self\", \"http://e/p\", \"http://e/o\")",
    "dataset(())",
    "dataset((\"_:self\"))",
    "dataset((\"_:self\", \"http://e/p\"))",
    "dataset((\"_:self\", \"http://e/p\",))",
    "dataset((\"_:self\" \"http://e/p\", \"http://e/o\"))",
    "dataset((\"_:self\", \"http://e/p\" \"http://e/o\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\" \"http://e/g\"))",
    "dataset((\"_:self\", \"http://e/p\", 1))",
    "dataset((1, \"http://e/p\", \"http://e/o\"))",
    "dataset((\"_:self\", p, \"http://e/o\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\", \"http://e/g\", \"http://e/h\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\", \"http://e/g\" \"http://e/h\"))",
    "dataset((\"_:nowhere\", \"http://e/p\", \"http://e/o\"))",
    "dataset((\"_:self\", \"_:nowhere\", \"http://e/o\"))",
    "dataset((\"_:self\", \"http://e/p\", \"_:nowhere\"))",
    "dataset((\"_:self\", \"http://e/p\", \"http://e/o\", \"_:nowhere\"))",
    "dataset((\"_:self\", \"p\", \"http://e/o\"))",
    "dataset((\"_:self\", \"http://e/p\", \"<>\"))",
];

/// Arguments of components.
const COMP_OK: [&str; 15] = [
    "\"http://e/p\"",
    "\"http://e/p\",",
    "\"http://e/p\", \"http://e/p\"",
    "\"_:self\"",
    "\"http://e/p\", graph(_)",
    "\"http://e/p\", graph(None)",
    "\"http://e/p\", graph(Some(\"http://e/g\"))",
    "\"http://e/p\", graph(Some(\"_:self\"))",
    "\"http://e/p\", graph(None), graph(None)",
    "intro(\"v\"), input(\"_:v\"), dataset((\"_:self\", \"http://e/p\", \"_:v\"))",
    "intro(\"v\"), input(\"_:v\",), dataset((\"_:self\", \"http://e/p\", \"_:v\"))",
    "intro(\"v\", \"w\"), input(\"_:v\"), dataset((\"_:self\", \"http://e/p\", \"_:v\"), (\"_:v\", \"http://e/q\", \"_:w\"))",
    "input(\"_:self\")",
    "intro(), input(\"http://e/a\")",
    "intro(), input(\"http://e/a\"), dataset((\"_:self\", \"http://e/p\", \"http://e/a\", \"http://e/g\"))",
];

const COMP_BAD: [&str; 46] = [
    "foo",
    "\"http://e/p\", foo",
    "foo, \"http://e/p\"",
    "foo(\"x\")",
    "1",
    "property(\"http://e/p\")",
    "\"http://e/p\" \"http://e/p\"",
    "\"http://e/p\", \"http://e/q\"",
    "\"<>\"",
    "\"p\"",
    "\"_:nowhere\"",
    "\"http://e/p\", string",
    "\"http://e/p\", intro",
    "\"http://e/p\", intro(1)",
    "\"http://e/p\", intro(\"x\"), intro(\"y\")",
    "\"http://e/p\", graph",
    "\"http://e/p\", graph()",
    "\"http://e/p\", graph(\"http://e/g\")",
    "\"http://e/p\", graph(none)",
    "\"http://e/p\", graph(None, None)",
    "\"http://e/p\", graph(_, _)",
    "\"http://e/p\", graph(Some)",
    "\"http://e/p\", graph(Some())",
    "\"http://e/p\", graph(Some(1))",
    "\"http://e/p\", graph(Some(\"<>\"))",
    "\"http://e/p\", graph(Some(\"g\"))",
    "\"http://e/p\", graph(Some(\"_:nowhere\"))",
    "\"http://e/p\", graph(Some(\"http://e/g\", \"http://e/h\"))",
    "\"http://e/p\", graph(Some(\"http://e/g\") None)",
    "\"http://e/p\", graph(Some(\"http://e/g\")), graph(None)",
    "\"http://e/p\", graph(Some(\"http://e/g\")), graph(Some(\"http://e/h\"))",
    "\"http://e/p\", graph = None",
    "input",
    "input(1)",
    "input(\"<>\")",
    "input(\"a\")",
    "input(\"_:nowhere\")",
    "input(\"_:self\"), input(\"http://e/a\")",
    "input(\"_:self\", \"_:self\")",
    "intro(\"v\"), input(\"_:v\", \"_:self\"), dataset((\"_:self\", \"http://e/p\", \"_:v\"))",
    "intro(), dataset((\"_:self\", \"http://e/p\", \"_:nowhere\"))",
    "intro(\"v\"), dataset((\"_:self\", \"http://e/p\"))",
    "\"http://e/p\", dataset((\"_:self\", \"http://e/p\", \"p\"))",
    "\"http://e/p\", dataset((\"_:self\", \"http://e/p\", \"http://e/o\")), dataset()",
    "intro = \"v\"",
    "head(1)",
];

/// Types on which the arguments of types and of components are put.
const SHAPES: [(&str, &str, &str); 6] = [
    ("record", "", "pub struct T { #[tldr(COMP)] pub f: String }"),
    ("optional", "", "pub struct T { #[tldr(COMP)] pub f: Option<String> }"),
    ("tuple", "tuple", "pub struct T(#[tldr(COMP)] pub String, #[tldr(\"http://e/other\")] pub String);"),
    ("set", "set", "pub struct T(#[tldr(COMP)] pub Vec<String>);"),
    ("sum", "sum", "pub enum T { a(U), b(String) } #[derive(treeldr::SerializeLd, treeldr::DeserializeLd)] pub struct U { #[tldr(COMP)] pub f: String }"),
    ("variant", "", "pub enum T { #[tldr(VARIANT)] a(String), #[tldr(intro(\"v\"), input(\"_:v\"), dataset((\"_:self\", \"http://e/q\", \"_:v\")))] b(String) }"),
];

/// Arguments of variants: as those of components without properties.
fn variant_args(a: &str) -> bool {
    !a.starts_with('"')
}

/// Whole items.
fn items() -> Vec<(&'static str, &'static str, bool)> {
    vec![
        ("unit", "pub struct T;", true),
        ("unit/kind", "#[tldr(unit)] pub struct T;", true),
        ("id", "#[tldr(id)] pub struct T(treeldr::rdf_types::Id); impl treeldr::AsId for T { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }", true),
        ("string", "#[tldr(string)] pub struct T(String);", true),
        ("string/datatype", "#[tldr(string, datatype(\"http://e/d\"))] pub struct T(String);", true),
        ("string/datatype/twice", "#[tldr(string, datatype(\"http://e/d\"), datatype(\"http://e/d\"))] pub struct T(String);", true),
        ("string/datatypes", "#[tldr(string, datatype(\"http://e/d\"), datatype(\"http://e/e\"))] pub struct T(String);", false),
        ("string/nodatatype", "#[tldr(string, datatype())] pub struct T(String);", false),
        ("string/relative", "#[tldr(string, datatype(\"d\"))] pub struct T(String);", false),
        ("string/based", "#[tldr(string, base(\"http://e/\"), datatype(\"d\"))] pub struct T(String);", true),
        ("string/resource", "#[tldr(string, resource(\"_:self\"))] pub struct T(String);", true),
        ("string/undeclared", "#[tldr(string, resource(\"_:nowhere\"))] pub struct T(String);", false),
        ("string/resources", "#[tldr(string, resource(\"_:self\"), resource(\"http://e/a\"))] pub struct T(String);", false),
        ("string/resource/token", "#[tldr(string, resource(1))] pub struct T(String);", false),
        ("string/kinds", "#[tldr(string, string)] pub struct T(String);", true),
        ("string/kinds/attributes", "#[tldr(string)] #[tldr(string)] pub struct T(String);", true),
        ("string/kinds/conflict", "#[tldr(string, number)] pub struct T(String);", false),
        ("string/kinds/conflicting attributes", "#[tldr(string)] #[tldr(boolean)] pub struct T(String);", false),
        ("string/separator", "#[tldr(string string)] pub struct T(String);", false),
        ("string/arity", "#[tldr(string)] pub struct T(String, String);", false),
        ("string/unit", "#[tldr(string)] pub struct T;", false),
        ("boolean", "#[tldr(boolean)] pub struct T(bool);", true),
        ("boolean/arity", "#[tldr(boolean)] pub struct T(bool, bool);", false),
        ("number", "#[tldr(number, datatype(\"http://www.w3.org/2001/XMLSchema#int\"))] pub struct T(i32);", true),
        ("number/nodatatype", "#[tldr(number)] pub struct T(i32);", false),
        ("number/arity", "#[tldr(number, datatype(\"http://www.w3.org/2001/XMLSchema#int\"))] pub struct T(i32, i32);", false),
        ("record/empty", "pub struct T {}", true),
        ("record/kind", "#[tldr(record)] pub struct T { #[tldr(\"http://e/p\")] f: String }", true),
        ("record/tuple", "#[tldr(record)] pub struct T(#[tldr(\"http://e/p\")] String);", false),
        ("record/unit", "#[tldr(record)] pub struct T;", false),
        ("record/enum", "#[tldr(record)] pub enum T { #[tldr(input(\"_:self\"))] a(String) }", false),
        ("tuple/kind", "#[tldr(tuple)] pub struct T(#[tldr(\"http://e/p\")] String);", true),
        ("tuple/named", "#[tldr(tuple)] pub struct T { #[tldr(\"http://e/p\")] f: String }", false),
        ("tuple/enum", "#[tldr(tuple)] pub enum T { #[tldr(input(\"_:self\"))] a(String) }", false),
        ("sum/struct", "#[tldr(sum)] pub struct T { #[tldr(\"http://e/p\")] f: String }", false),
        ("sum/tuple", "#[tldr(sum)] pub struct T(#[tldr(\"http://e/p\")] String);", false),
        ("sum/fields", "pub enum T { #[tldr(input(\"_:self\"))] a(String, String) }", false),
        ("sum/nofields", "pub enum T { #[tldr(input(\"_:self\"))] a() }", false),
        ("sum/named", "pub enum T { #[tldr(input(\"_:self\"))] a { f: String } }", false),
        ("sum/unit", "pub enum T { #[tldr(input(\"_:self\"))] a }", false),
        ("set/type", "#[tldr(set)] pub struct T(#[tldr(\"http://e/p\")] String);", false),
        ("set/array", "#[tldr(set)] pub struct T(#[tldr(\"http://e/p\")] [String; 2]);", false),
        ("set/path", "#[tldr(set)] pub struct T(#[tldr(\"http://e/p\")] std::collections::BTreeSet<String>);", false),
        ("set/arity", "#[tldr(set)] pub struct T(#[tldr(\"http://e/p\")] Vec<String>, #[tldr(\"http://e/q\")] Vec<String>);", false),
        ("set/named", "#[tldr(set)] pub struct T { #[tldr(\"http://e/p\")] f: Vec<String> }", false),
        ("set/unit", "#[tldr(set)] pub struct T;", false),
        ("set/enum", "#[tldr(set)] pub enum T { a(Vec<String>) }", false),
        ("list", "#[tldr(list)] pub struct T(Vec<String>);", true),
        ("list/head", "#[tldr(list, head(\"_:self\"), tail(\"http://e/nil\"))] pub struct T(Vec<String>);", true),
        ("list/heads", "#[tldr(list, head(\"_:self\"), head(\"http://e/a\"))] pub struct T(Vec<String>);", false),
        ("list/tails", "#[tldr(list, tail(\"http://e/b\"), tail(\"http://e/a\"))] pub struct T(Vec<String>);", false),
        ("list/undeclared head", "#[tldr(list, head(\"_:nowhere\"))] pub struct T(Vec<String>);", false),
        ("list/undeclared tail", "#[tldr(list, tail(\"_:nowhere\"))] pub struct T(Vec<String>);", false),
        ("list/type", "#[tldr(list)] pub struct T(String);", false),
        ("list/arity", "#[tldr(list)] pub struct T(Vec<String>, Vec<String>);", false),
        ("list/unit", "#[tldr(list)] pub struct T;", false),
        ("list/enum", "#[tldr(list)] pub enum T { a(Vec<String>) }", false),
        ("union", "#[derive(Clone, Copy)] pub union T { a: u8, b: i8 }", false),
        ("assign", "#[tldr = \"string\"] pub struct T(String);", false),
        ("word", "#[tldr] pub struct T(String);", false),
        ("component word", "pub struct T { #[tldr] f: String }", false),
        ("component assign", "pub struct T { #[tldr = \"http://e/p\"] f: String }", false),
    ]
}

fn sources() -> Vec<(String, String, bool)> {
    let mut out = vec![];
    let d = ["SerializeLd", "DeserializeLd"];
    let mut add = |key: String, source: String, ok: bool| {
        if ok {
            out.push((key, format!("#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)] {source}"), ok));
        } else if key.ends_with("/arity") {
            out.push((key, format!("#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)] {source}"), ok));
        } else {
            // each macro refuses
            for d in d {
                out.push((format!("{key}/{d}"), format!("#[derive(treeldr::{d})] {}", source.replace("treeldr::SerializeLd, treeldr::DeserializeLd", &format!("treeldr::{d}"))), ok));
            }
        }
    };
    for (shape, kind, item) in SHAPES {
        let sep = if kind.is_empty() { "" } else { ", " };
        let comp = "\"http://e/component\"";
        let var = "intro(\"v\"), input(\"_:v\"), dataset((\"_:self\", \"http://e/p\", \"_:v\"))";
        let fill = |item: &str, c: &str, v: &str| item.replace("COMP", c).replace("VARIANT", v);
        for (args, ok) in TYPE_OK.iter().map(|a| (a, true)).chain(TYPE_BAD.iter().map(|a| (a, false))) {
            // other names of the input hide `self`
            let renamed = args.contains("input(\"a\")");
            let (c, v) = if renamed && ok {
                ("intro(\"v\"), input(\"_:v\"), dataset((\"_:a\", \"http://e/p\", \"_:v\"))", "intro(\"v\"), input(\"_:v\"), dataset((\"_:a\", \"http://e/p\", \"_:v\"))")
            } else {
                (comp, var)
            };
            if renamed && !["record", "optional", "set"].contains(&shape) {
                continue;
            }
            let item = fill(item, c, v);
            add(format!("{shape}/type/{args}"), format!("#[tldr({kind}{}{args})] {item}", if args.is_empty() { "" } else { sep }), ok);
            if ok && !args.is_empty() {
                let before = if kind.is_empty() { String::new() } else { format!("#[tldr({kind})] ") };
                add(format!("{shape}/attributes/{args}"), format!("#[tldr({args})] {before}#[doc = \"\"] {item}"), ok);
            }
        }
        for (args, ok) in COMP_OK.iter().map(|a| (a, true)).chain(COMP_BAD.iter().map(|a| (a, false))) {
            if shape == "variant" && !variant_args(args) {
                continue;
            }
            let item = fill(item, args, args);
            let before = if kind.is_empty() { String::new() } else { format!("#[tldr({kind})] ") };
            add(format!("{shape}/component/{args}"), format!("{before}{item}"), ok);
        }
    }
    for (key, source, ok) in items() {
        add(format!("items/{key}"), source.to_owned(), ok);
    }
    out
}

pub fn rejects(ctx: &Ctx) {
    let rustc = Rustc::new("derive");
    let all: Vec<_> = sources().into_iter().filter(|(k, _, _)| !ctx.quick() || ["record/", "variant/", "items/"].iter().any(|p| k.starts_with(p))).collect();
    ctx.par(&all, |_, (key, source, ok)| {
        let key = format!("attributes/{key}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        ctx.trace();
        let (got, said) = rustc.compile(source);
        ctx.count(if *ok { "attributes_to_accept" } else { "attributes_to_refuse" }, 1);
        if got != *ok {
            let what = if *ok { "attributes that are fine are refused" } else { "attributes that describe no layout are accepted" };
            ctx.violate(&key, what, json!({"source": source, "compiler": said.chars().take(600).collect::<String>()}));
        }
    });
}
