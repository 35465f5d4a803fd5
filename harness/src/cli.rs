//! C17: the command line tool does what the library does.
//!
//! Every combination of layout files, options, formats and inputs to the
//! bound is run as a process, in a scratch directory; what it must write is
//! computed with the library, its N-Quads, JSON and CBOR being written and
//! read by the code here.
use crate::cbor::{decode, C};
use crate::model::*;
use crate::real::{repeats, to_flat};
use crate::rt::Ctx;
use crate::values::{hex, read_json, D};
use rdf_types::{BlankIdBuf, Id, Literal, LiteralType, Term};
use serde_json::json;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use tl::layout::LayoutType;
use tl::{LayoutRegistry, Layouts, Prelude, Ref};
use treeldr_layouts as tl;

// ------------------------------------------------------------------ N-Quads

fn nq_term(t: &Term, ascii: bool) -> String {
    match t {
        Term::Id(Id::Iri(i)) => format!("<{i}>"),
        Term::Id(Id::Blank(b)) => b.to_string(),
        Term::Literal(l) => {
            let mut s = String::from("\"");
            for c in l.value.chars() {
                match c {
                    '"' => s.push_str("\\\""),
                    '\\' => s.push_str("\\\\"),
                    '\n' => s.push_str("\\n"),
                    '\r' => s.push_str("\\r"),
                    c if ascii && c as u32 > 0xffff => s.push_str(&format!("\\U{:08X}", c as u32)),
                    c if ascii && !c.is_ascii_graphic() => s.push_str(&format!("\\u{:04X}", c as u32)),
                    c => s.push(c),
                }
            }
            s.push('"');
            match &l.type_ {
                LiteralType::Any(t) if !ascii && t.as_str() == "http://www.w3.org/2001/XMLSchema#string" => (),
                LiteralType::Any(t) => s.push_str(&format!("^^<{t}>")),
                LiteralType::LangString(t) => s.push_str(&format!("@{t}")),
            }
            s
        }
    }
}
/// Writes a dataset; `style` bits: escape, comments and blank lines.
fn nq(ds: &Ds, style: u8) -> String {
    let mut s = String::new();
    for q in ds {
        if style & 2 != 0 {
            s.push_str("# a comment \"<\n\n");
        }
        let sep = if style & 2 != 0 { "\t " } else { " " };
        s.push_str(&[&q.0, &q.1, &q.2].map(|t| nq_term(t, style & 1 != 0)).join(sep));
        if let Some(g) = &q.3 {
            s.push_str(sep);
            s.push_str(&nq_term(g, style & 1 != 0));
        }
        s.push_str(sep);
        s.push_str(".\n");
    }
    s
}

fn nq_read(text: &str) -> Option<Ds> {
    let mut out = Ds::new();
    for line in text.lines() {
        let c: Vec<char> = line.chars().collect();
        let mut i = 0;
        let ws = |i: &mut usize| {
            while *i < c.len() && matches!(c[*i], ' ' | '\t') {
                *i += 1
            }
        };
        ws(&mut i);
        if i == c.len() || c[i] == '#' {
            continue;
        }
        let mut terms = Vec::new();
        loop {
            ws(&mut i);
            if *c.get(i)? == '.' {
                i += 1;
                break;
            }
            terms.push(nq_read_term(&c, &mut i)?);
        }
        ws(&mut i);
        if i < c.len() && c[i] != '#' {
            return None;
        }
        let g = if terms.len() == 4 { terms.pop() } else { None };
        let [s, p, o]: [Term; 3] = terms.try_into().ok()?;
        if matches!(s, Term::Literal(_)) || !matches!(p, Term::Id(Id::Iri(_))) || matches!(g, Some(Term::Literal(_))) {
            return None;
        }
        out.insert((s, p, o, g));
    }
    Some(out)
}
fn escape(c: &[char], i: &mut usize) -> Option<char> {
    let k = *c.get(*i)?;
    *i += 1;
    let n = match k {
        't' => return Some('\t'),
        'b' => return Some('\u{8}'),
        'n' => return Some('\n'),
        'r' => return Some('\r'),
        'f' => return Some('\u{c}'),
        '"' | '\'' | '\\' => return Some(k),
        'u' => 4,
        'U' => 8,
        _ => return None,
    };
    let h: String = c.get(*i..*i + n)?.iter().collect();
    *i += n;
    char::from_u32(u32::from_str_radix(&h, 16).ok()?)
}
fn nq_read_term(c: &[char], i: &mut usize) -> Option<Term> {
    match c.get(*i)? {
        '<' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let k = *c.get(*i)?;
                *i += 1;
                match k {
                    '>' => break,
                    '\\' => s.push(escape(c, i)?),
                    '\u{0}'..=' ' | '<' | '"' | '{' | '}' | '|' | '^' | '`' => return None,
                    k => s.push(k),
                }
            }
            Some(Term::iri(iref::IriBuf::new(s).ok()?))
        }
        '_' => {
            let st = *i;
            *i += 2;
            while *i < c.len() && (c[*i].is_alphanumeric() || matches!(c[*i], '_' | '-' | '.' | ':' | '\u{b7}')) {
                *i += 1
            }
            while c[*i - 1] == '.' {
                *i -= 1
            }
            Some(Term::blank(BlankIdBuf::new(c[st..*i].iter().collect()).ok()?))
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let k = *c.get(*i)?;
                *i += 1;
                match k {
                    '"' => break,
                    '\\' => s.push(escape(c, i)?),
                    '\n' | '\r' => return None,
                    k => s.push(k),
                }
            }
            match c.get(*i) {
                Some('^') => {
                    if c.get(*i + 1) != Some(&'^') {
                        return None;
                    }
                    *i += 2;
                    match nq_read_term(c, i)? {
                        Term::Id(Id::Iri(t)) => Some(Term::Literal(Literal::new(s, LiteralType::Any(t)))),
                        _ => None,
                    }
                }
                Some('@') => {
                    *i += 1;
                    let st = *i;
                    while *i < c.len() && (c[*i].is_ascii_alphanumeric() || c[*i] == '-') {
                        *i += 1
                    }
                    Some(lang(&s, &c[st..*i].iter().collect::<String>()))
                }
                _ => Some(s_lit(&s)),
            }
        }
        _ => None,
    }
}

// -------------------------------------------------------------- layout files

const NAME: &str = "http://e/name";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

/// Layout files: name, content (`None`: there is no such file).
fn files() -> Vec<(&'static str, Option<String>)> {
    let j = |v: serde_json::Value| Some(v.to_string());
    let cbor = json!({"cbor": "https://schema.treeldr.org/cbor#"});
    vec![
        // a named record, with fields of the prelude
        ("record.json", j(json!({"id": "http://e/A", "type": "record", "prefixes": {"t": "https://treeldr.org/prelude#"},
            "fields": {"id": {"intro": [], "value": {"layout": "t:id", "input": ["_:self"]}},
                "name": {"value": "t:string", "property": NAME}}}))),
        // anonymous, with another anonymous inside
        ("set file.json", j(json!({"type": "set", "item": {"value": {"type": "string"}, "property": NAME}}))),
        // refers to the first
        ("ref.json", j(json!({"id": "http://e/R", "type": "tuple", "items": [{"intro": [], "value": {"layout": "http://e/A", "input": ["_:self"]}}]}))),
        // redefines the first
        ("again.json", j(json!({"id": "http://e/A", "type": "set", "item": {"value": {"type": "id"}, "property": "http://e/knows"}}))),
        // defines two names
        ("two.json", j(json!({"id": "http://e/B", "type": "record", "fields": {"knows": {"value": {"id": "http://e/C", "type": "id"}, "property": "http://e/knows"}}}))),
        // redefines a layout of the prelude
        ("prelude.json", j(json!({"id": "https://treeldr.org/prelude#string", "type": "unit", "const": "mine"}))),
        ("broken.json", Some("{\"type\":\"set\",".into())),
        ("absent.json", None),
        // not layouts
        ("invalid.json", Some("{\"type\":\"sets\"}".into())),
        ("unbound.json", j(json!({"type": "id", "resource": "_:nowhere"}))),
        // the other shapes
        ("sum.json", j(json!({"type": "sum", "variants": {
            "name": {"intro": "x", "dataset": [["_:self", NAME, "_:x"]], "value": {"layout": {"type": "string"}, "input": "_:x"}},
            "age": {"intro": "x", "dataset": [["_:self", "http://e/age", "_:x"]], "value": {"layout": {"type": "number", "datatype": format!("{XSD}integer")}, "input": "_:x"}}}}))),
        ("list.json", j(json!({"type": "list", "node": {"value": {"layout": {"type": "number", "datatype": format!("{XSD}decimal")}, "input": "_:value"}}}))),
        ("tags.json", j(json!({"type": "record", "prefixes": cbor, "extra": {"cbor:tag": 7}, "fields": {
            "name": {"value": {"type": "string", "extra": {"cbor:tag": 42}}, "property": NAME},
            "age": {"value": {"type": "number", "datatype": format!("{XSD}integer")}, "property": "http://e/age"}}}))),
        ("badtag.json", j(json!({"type": "set", "prefixes": cbor, "item": {"value": {"type": "string", "extra": {"cbor:tag": "x"}}, "property": NAME}}))),
        ("graph.json", j(json!({"type": "set", "item": {"graph": "http://e/g", "value": {"type": "string"}, "property": NAME}}))),
        ("pair.json", j(json!({"type": "tuple", "input": ["a", "b"], "dataset": [["_:a", "http://e/knows", "_:b"]],
            "items": [{"intro": [], "value": {"layout": {"type": "id"}, "input": "_:a"}}, {"intro": [], "value": {"layout": {"type": "id"}, "input": "_:b"}}]}))),
        ("any.json", Some("true".into())),
        ("none.json", Some("false".into())),
        ("string.json", j(json!({"type": "string"}))),
    ]
}

/// The layouts given to the tool, built with the library; `None` when a file
/// is no layout, or one redefines another.
struct Loaded {
    layouts: Layouts,
    refs: Vec<Ref<LayoutType>>,
}
fn load(all: &[(&'static str, Option<String>)], list: &[usize]) -> Option<Loaded> {
    use json_syntax::{Parse, TryFromJson};
    let mut builder = tl::abs::Builder::new();
    let mut refs = Vec::new();
    for i in list {
        let (json, map) = json_syntax::Value::parse_str(all[*i].1.as_ref()?).ok()?;
        let def = tl::abs::syntax::Layout::try_from_json(&json, &map).ok()?;
        refs.push(def.build(&mut builder).ok()?);
    }
    Some(Loaded { layouts: builder.build(), refs })
}

// ------------------------------------------------------------------ the tool

enum Expect {
    Nothing,
    Fail,
    Json(D, bool),
    Cbor(C),
    Quads(Ds),
}
impl Expect {
    fn show(&self) -> String {
        match self {
            Expect::Nothing => "success without output".into(),
            Expect::Fail => "failure without output".into(),
            Expect::Json(d, p) => format!("JSON {d:?} pretty={p}"),
            Expect::Cbor(c) => format!("CBOR {c:?}"),
            Expect::Quads(q) => format!("N-Quads {:?}", show_ds(q)),
        }
    }
}

pub struct Tool {
    bin: PathBuf,
    dir: PathBuf,
}
impl Drop for Tool {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn same_c(a: &C, b: &C) -> bool {
    match (a, b) {
        (C::Int(a), C::Int(b)) => a == b,
        (C::Float(a), C::Float(b)) => a.to_bits() == b.to_bits(),
        (C::Bytes(a), C::Bytes(b)) => a == b,
        (C::Text(a), C::Text(b)) => a == b,
        (C::Bool(a), C::Bool(b)) => a == b,
        (C::Null, C::Null) => true,
        (C::Tag(t, a), C::Tag(u, b)) => t == u && same_c(a, b),
        (C::List(a), C::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_c(a, b)),
        (C::Map(a), C::Map(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.iter().filter(|(l, w)| same_c(k, l) && same_c(v, w)).count() == 1)
        }
        _ => false,
    }
}

impl Tool {
    fn new() -> Tool {
        let root = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
        let bin = Path::new(&root).join("target/debug/tldr");
        assert!(bin.exists(), "{} is not built", bin.display());
        let dir = std::env::temp_dir().join(format!("mc-c17-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        Tool { bin, dir }
    }

    fn run(&self, args: &[String], input: &[u8]) -> Result<(Option<i32>, Vec<u8>, String), String> {
        let mut child = Command::new(&self.bin)
            .args(args)
            .current_dir(&self.dir)
            .env_clear()
            .env("LC_ALL", "C.UTF-8")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        {
            // (the tool may end without reading its input)
            let mut stdin = child.stdin.take().unwrap();
            let _ = stdin.write_all(input);
        }
        let start = Instant::now();
        loop {
            if child.try_wait().map_err(|e| e.to_string())?.is_some() {
                break;
            }
            if start.elapsed() > Duration::from_secs(10) {
                let _ = child.kill();
                let _ = child.wait();
                return Err("no end after 10 s".into());
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        let out = child.wait_with_output().map_err(|e| e.to_string())?;
        Ok((out.status.code(), out.stdout, String::from_utf8_lossy(&out.stderr).into_owned()))
    }

    /// Runs the tool and compares.
    fn check(&self, ctx: &Ctx, key: &str, args: &[String], input: &[u8], expect: &Expect) {
        ctx.step();
        let detail = |got: String| {
            json!({"arguments": args, "input": String::from_utf8_lossy(input), "expected": expect.show(), "got": got})
        };
        let (code, out, err) = match self.run(args, input) {
            Ok(o) => o,
            Err(e) => return ctx.violate(key, "the tool did not end", detail(e)),
        };
        let text = String::from_utf8_lossy(&out).into_owned();
        let got = format!("exit {code:?}, output {text}, errors {}", err.chars().take(300).collect::<String>());
        if code.is_none() || err.contains("panicked at") {
            return ctx.violate(key, "the tool crashed", detail(got));
        }
        let fine = match expect {
            Expect::Fail => code != Some(0) && out.is_empty(),
            _ if code != Some(0) => false,
            Expect::Nothing => out.is_empty(),
            Expect::Json(d, pretty) => {
                let container = match d {
                    D::List(l) => !l.is_empty(),
                    D::Map(m) => !m.is_empty(),
                    _ => false,
                };
                std::str::from_utf8(&out).is_ok() && read_json(&text).as_ref() == Some(d) && spaced(text.trim()) == (*pretty && container)
            }
            Expect::Cbor(c) => decode(&out).is_some_and(|o| same_c(c, &o)),
            Expect::Quads(q) => std::str::from_utf8(&out).is_ok() && nq_read(&text).is_some_and(|o| iso(q, &[], &o, &[], false)),
        };
        if !fine {
            let got = if let Expect::Cbor(_) = expect { format!("{got} ({})", hex(&out)) } else { got };
            let what = match (expect, code) {
                (Expect::Fail, Some(0)) => "the tool succeeds where the library reports an error",
                (Expect::Fail, _) => "the tool writes output although it fails",
                (_, Some(0)) => "the tool writes something else than the library computes",
                _ => "the tool fails where the library succeeds",
            };
            ctx.violate_sig(key, what, what, detail(got));
        }
        ctx.trace();
    }
}

/// Whether there is white space outside of strings.
fn spaced(text: &str) -> bool {
    let mut inside = false;
    let mut escaped = false;
    for c in text.chars() {
        match c {
            _ if escaped => escaped = false,
            '\\' if inside => escaped = true,
            '"' => inside = !inside,
            c if !inside && c.is_whitespace() => return true,
            _ => (),
        }
    }
    false
}

fn args(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

pub fn c17(ctx: &Ctx) {
    let all = files();
    let tool = Tool::new();
    for (n, c) in &all {
        if let Some(c) = c {
            std::fs::write(tool.dir.join(n), c).unwrap();
        }
    }
    selection(ctx, &tool, &all);
    formats(ctx, &tool, &all);
    convert_tree(ctx, &tool);
    convert_rdf(ctx, &tool);
    malformed(ctx, &tool);
    self_loop(ctx, &tool);
}

fn hydrated(reg: &impl LayoutRegistry, r: &Ref<LayoutType>, ds: &Ds, subjects: &[Term]) -> Option<tl::TypedValue> {
    assert!(!ds.iter().any(repeats), "oracle: repeated terms");
    tl::distill::hydrate(reg, &to_flat(ds), r, subjects).ok()
}

fn doc(v: &tl::Value) -> Option<D> {
    let j: json_syntax::Value = v.clone().try_into().ok()?;
    use json_syntax::Print;
    Some(read_json(&j.compact_print().to_string()).expect("oracle: JSON not read"))
}

/// Sequences of up to `n` of the given indices.
fn seqs(of: &[usize], n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|v: &Vec<usize>| of.iter().map(move |i| [&v[..], &[*i]].concat())).collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// Which layout is used: files, included files, prelude, and choice.
fn selection(ctx: &Ctx, tool: &Tool, all: &[(&'static str, Option<String>)]) {
    let s = ex("s");
    let o = ex("o");
    let ds: Ds = [
        (s.clone(), iri(NAME), s_lit("Bob"), None),
        (s.clone(), iri("http://e/knows"), o.clone(), None),
    ]
    .into_iter()
    .collect();
    let text = nq(&ds, 0);
    let value = tl::Value::Map([(tl::Value::string("id".into()), tl::Value::string("http://e/x".into())), (tl::Value::string("name".into()), tl::Value::string("Bob".into()))].into_iter().collect());
    let values = [value.clone(), tl::Value::List(vec![value]), tl::Value::List(vec![tl::Value::string("http://e/x".into())])];
    let texts: Vec<String> = values.iter().map(|v| tl_text(v)).collect();

    let mut main = seqs(&(0..8).collect::<Vec<_>>(), ctx.bound(2, 3));
    if ctx.quick() {
        // and three or four files that can be loaded together
        main.extend(seqs(&[0, 2, 4, 5], 4).into_iter().filter(|m| m.len() > 2 && m.iter().enumerate().all(|(i, f)| !m[..i].contains(f))));
    }
    let includes = seqs(&[0, 2, 3, 4, 5, 6, 7], ctx.bound(1, 2));
    let choices = [None, Some("http://e/A"), Some("http://e/C"), Some("https://treeldr.org/prelude#id"), Some("http://e/Nowhere"), Some("_:nope"), Some("not an iri")];
    let mut groups: Vec<(&Vec<usize>, &Vec<usize>)> = Vec::new();
    for m in &main {
        for i in &includes {
            if m.len() + i.len() <= 3 || i.is_empty() {
                groups.push((m, i));
            }
        }
    }
    ctx.count("file_selections", groups.len() as u64);
    ctx.par(&groups, |gi, (m, inc)| {
        let key = format!("selection/{gi}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let list: Vec<usize> = m.iter().chain(inc.iter()).copied().collect();
        let loaded = load(all, &list);
        // a few of the forms the same command line takes
        let mut form = 0usize;
        for no_prelude in [false, true] {
            for choice in choices {
                // what the choice selects
                let selected = match (&loaded, choice) {
                    (None, _) => None,
                    (Some(_), Some(c)) => crate_term(c).map(Ref::new),
                    (Some(l), None) if m.len() == 1 => Some(l.refs[0].clone()),
                    _ => None,
                };
                for command in 0..3 {
                    if ctx.quick() && loaded.is_none() && (no_prelude || command == 2) {
                        continue;
                    }
                    form += 1;
                    let mut a: Vec<String> = Vec::new();
                    if no_prelude && form % 2 == 0 {
                        a.push(if form % 4 == 0 { "-n".into() } else { "--no-prelude".into() });
                    }
                    let files: Vec<String> = m.iter().map(|i| all[*i].0.to_string()).collect();
                    let included: Vec<String> =
                        inc.iter().flat_map(|i| [if form % 3 == 0 { "-i".into() } else { "--include".into() }, all[*i].0.to_string()]).collect();
                    if form % 5 < 2 {
                        a.extend(included);
                        a.extend(files);
                    } else {
                        a.extend(files);
                        a.extend(included);
                    }
                    a.push(if command == 0 { "hydrate".into() } else { "dehydrate".into() });
                    if let Some(c) = choice {
                        a.push(if form % 2 == 0 { "-l".into() } else { "--layout".into() });
                        a.push(c.into());
                    }
                    if no_prelude && form % 2 == 1 {
                        a.push("-n".into());
                    }
                    if command == 0 {
                        a.push("http://e/s".into());
                    }
                    let registry = |l: &Loaded| -> Expect {
                        let Some(r) = &selected else { return Expect::Fail };
                        macro_rules! go {
                            ($reg:expr) => {
                                if command == 0 {
                                    hydrated($reg, r, &ds, &[s.clone()]).and_then(|v| doc(&v.into_untyped())).map(|d| Expect::Json(d, false))
                                } else {
                                    tl::distill::dehydrate($reg, &values[command - 1 + (command == 1 && m.first() == Some(&1)) as usize], r, Default::default())
                                        .ok()
                                        .map(|(d, _)| Expect::Quads(from_btree(&d)))
                                }
                            };
                        }
                        if no_prelude {
                            go!(&l.layouts)
                        } else {
                            let reg = tl::LayoutRegistryUnion(Prelude, &l.layouts);
                            go!(&reg)
                        }
                        .unwrap_or(Expect::Fail)
                    };
                    let expect = match &loaded {
                        Some(l) => registry(l),
                        None => Expect::Fail,
                    };
                    let input = if command == 0 { &text } else { &texts[command - 1 + (command == 1 && m.first() == Some(&1)) as usize] };
                    tool.check(ctx, &key, &a, input.as_bytes(), &expect);
                }
            }
        }
        // without a command, the layouts are only loaded
        let mut a: Vec<String> = m.iter().map(|i| all[*i].0.to_string()).collect();
        a.extend(inc.iter().flat_map(|i| ["-i".to_string(), all[*i].0.to_string()]));
        tool.check(ctx, &key, &a, b"", if loaded.is_some() { &Expect::Nothing } else { &Expect::Fail });
    });
}

fn crate_term(t: &str) -> Option<Term> {
    if t.starts_with("_:") {
        return Some(Term::blank(BlankIdBuf::new(t.into()).ok()?));
    }
    iref::IriBuf::new(t.to_owned()).ok().map(Term::iri)
}

fn tl_text(v: &tl::Value) -> String {
    use json_syntax::Print;
    json_syntax::Value::try_from(v.clone()).unwrap().compact_print().to_string()
}

/// Datasets, with entry points.
fn datasets() -> Vec<(Ds, Vec<Vec<Term>>)> {
    let (s, o, b) = (ex("s"), ex("o"), blank("b0"));
    let name = iri(NAME);
    let knows = iri("http://e/knows");
    let age = iri("http://e/age");
    let q = |s: &Term, p: &Term, o: Term| (s.clone(), p.clone(), o, None);
    let one = vec![vec![s.clone()]];
    let int = |v: &str| lit(v, &format!("{XSD}integer"));
    let mut v: Vec<(Ds, Vec<Vec<Term>>)> = vec![
        (Ds::new(), vec![vec![s.clone()], vec![], vec![s.clone(), o.clone()], vec![nil()]]),
        ([q(&s, &name, s_lit("Bob"))].into_iter().collect(), vec![vec![s.clone()], vec![], vec![o.clone()], vec![s.clone(), s.clone()], vec![blank("s")]]),
        ([q(&b, &name, s_lit("Bob"))].into_iter().collect(), vec![vec![b.clone()], vec![s.clone()]]),
        ([q(&s, &name, s_lit("Bob")), q(&s, &name, s_lit("é\"\\\n\t\u{1F600}"))].into_iter().collect(), one.clone()),
        ([q(&s, &name, lang("Bob", "en"))].into_iter().collect(), one.clone()),
        ([q(&s, &name, s_lit("Bob")), q(&s, &age, int("42"))].into_iter().collect(), one.clone()),
        ([q(&s, &name, s_lit("")), q(&s, &age, int("-18446744073709551617"))].into_iter().collect(), one.clone()),
        ([q(&s, &age, int("+007"))].into_iter().collect(), one.clone()),
        ([q(&s, &age, int("many"))].into_iter().collect(), one.clone()),
        ([q(&s, &knows, o.clone())].into_iter().collect(), vec![vec![s.clone(), o.clone()], vec![o.clone(), s.clone()], vec![s.clone()]]),
        ([(s.clone(), name.clone(), s_lit("in g"), Some(ex("g"))), q(&s, &name, s_lit("in default"))].into_iter().collect(), one.clone()),
        (
            [
                q(&s, &first(), lit("1.50", &format!("{XSD}decimal"))),
                q(&s, &rest(), b.clone()),
                q(&b, &first(), lit("-2", &format!("{XSD}decimal"))),
                q(&b, &rest(), nil()),
            ]
            .into_iter()
            .collect(),
            vec![vec![s.clone()], vec![b.clone()], vec![nil()]],
        ),
    ];
    v.push(([q(&s, &first(), lit("1.5", &format!("{XSD}decimal"))), q(&s, &rest(), s.clone())].into_iter().filter(|q| !repeats(q)).collect(), one));
    v
}

fn values() -> Vec<tl::Value> {
    let t = |s: &str| -> tl::Value {
        use json_syntax::Parse;
        json_syntax::Value::parse_str(s).unwrap().0.into()
    };
    [
        "null", "true", "42", "\"a\"", "\"http://e/x\"", "[]", "{}", "[\"a\"]", "[\"a\",\"b\"]", "[1.5,-2,0.1]", "[\"http://e/x\",\"http://e/y\"]",
        "{\"name\":\"Bob\"}", "{\"name\":\"Bob\",\"age\":42}", "{\"name\":\"é\\\"\\\\\\n\\t\\u0000\\ud83d\\ude00\",\"age\":-100000000000000000000000}",
        "{\"name\":\"Bob\",\"extra\":1}", "{\"id\":\"http://e/x\",\"name\":\"Bob\"}", "{\"id\":\"not an iri\",\"name\":\"Bob\"}", "{\"id\":\"_:b1\",\"name\":\"Bob\"}",
        "{\"name\":\"Bob\",\"age\":1.5}", "[{\"id\":\"http://e/x\",\"name\":\"Bob\"}]", "[{\"a\":[1,{}]},null]",
    ]
    .iter()
    .map(|s| t(s))
    .collect()
}

const TREE: [(&str, bool); 4] = [("json", true), ("application/json", true), ("cbor", false), ("application/cbor", false)];
const RDF: [&str; 4] = ["application/n-quads", "n-quads", "nquads", "nq"];

fn formats(ctx: &Ctx, tool: &Tool, all: &[(&'static str, Option<String>)]) {
    let ds = datasets();
    let vs = values();
    let usable: Vec<usize> = (0..all.len()).filter(|i| load(all, &[*i]).is_some()).collect();
    ctx.count("layout_files", usable.len() as u64);
    // RDF to tree
    let mut cases: Vec<(usize, usize, usize)> = Vec::new();
    for &f in &usable {
        for (d, (_, subjects)) in ds.iter().enumerate() {
            for s in 0..subjects.len() {
                cases.push((f, d, s));
            }
        }
    }
    ctx.par(&cases, |ci, (f, d, si)| {
        let key = format!("hydrate/{ci}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let extra: Vec<usize> = if *f == 2 { vec![0] } else { vec![] };
        let loaded = load(all, &[&[*f], &extra[..]].concat()).unwrap();
        let (ds, subjects) = (&ds[*d].0, &ds[*d].1[*si]);
        let reg = tl::LayoutRegistryUnion(Prelude, &loaded.layouts);
        let value = hydrated(&reg, &loaded.refs[0], ds, subjects);
        let mut form = 0;
        for output in [None, Some(TREE[0]), Some(TREE[1]), Some(TREE[2]), Some(TREE[3])] {
            for input in [None, Some(RDF[0]), Some(RDF[1]), Some(RDF[2]), Some(RDF[3])] {
                for pretty in [false, true] {
                    form += 1;
                    if ctx.quick() && form % 3 != ci % 3 {
                        continue;
                    }
                    let mut a = vec![all[*f].0.to_string()];
                    for e in &extra {
                        a.extend(["-i".into(), all[*e].0.to_string()]);
                    }
                    a.push("hydrate".into());
                    if form % 2 == 0 {
                        a.extend(subjects.iter().map(|t| nq_name(t)));
                    }
                    if let Some(i) = input {
                        a.extend([if form % 3 == 0 { "--input".into() } else { "-i".into() }, i.into()]);
                    }
                    if let Some(o) = output {
                        a.extend([if form % 3 == 1 { "--output".into() } else { "-o".into() }, o.0.into()]);
                    }
                    if pretty {
                        a.push(if form % 4 < 2 { "-p".into() } else { "--pretty".into() });
                    }
                    if form % 2 == 1 {
                        a.extend(subjects.iter().map(|t| nq_name(t)));
                    }
                    let expect = match &value {
                        None => Expect::Fail,
                        Some(v) => {
                            if output.is_none_or(|o| o.1) {
                                doc(&v.clone().into_untyped()).map_or(Expect::Fail, |d| Expect::Json(d, pretty))
                            } else {
                                match v.clone().try_into_tagged_serde_cbor(&reg) {
                                    Ok(c) => Expect::Cbor(decode(&serde_cbor::to_vec(&c).unwrap()).unwrap()),
                                    Err(_) => Expect::Fail,
                                }
                            }
                        }
                    };
                    tool.check(ctx, &key, &a, nq(ds, (form % 4) as u8).as_bytes(), &expect);
                }
            }
        }
    });
    // tree to RDF
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for &f in &usable {
        for v in 0..vs.len() {
            cases.push((f, v));
        }
    }
    ctx.par(&cases, |ci, (f, v)| {
        let key = format!("dehydrate/{ci}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let extra: Vec<usize> = if *f == 2 { vec![0] } else { vec![] };
        let loaded = load(all, &[&[*f], &extra[..]].concat()).unwrap();
        let reg = tl::LayoutRegistryUnion(Prelude, &loaded.layouts);
        let mut form = 0;
        for input in [None, Some(TREE[0]), Some(TREE[1]), Some(TREE[2]), Some(TREE[3])] {
            for output in [None, Some(RDF[0]), Some(RDF[1]), Some(RDF[2]), Some(RDF[3])] {
                form += 1;
                if ctx.quick() && form % 2 != ci % 2 {
                    continue;
                }
                let is_json = input.is_none_or(|i| i.1);
                let v = &vs[*v];
                let text = if is_json {
                    pad(&tl_text(v), form)
                } else {
                    match serde_cbor::to_vec(v) {
                        Ok(b) => b,
                        Err(_) => continue,
                    }
                };
                // what the library reads
                let v = if is_json { v.clone() } else { serde_cbor::from_slice(&text).unwrap() };
                let mut a = vec![all[*f].0.to_string()];
                for e in &extra {
                    a.extend(["-i".into(), all[*e].0.to_string()]);
                }
                a.push("dehydrate".into());
                if let Some(o) = output {
                    a.extend([if form % 3 == 1 { "--output".into() } else { "-o".into() }, o.into()]);
                }
                if let Some(i) = input {
                    a.extend([if form % 3 == 0 { "--input".into() } else { "-i".into() }, i.0.into()]);
                }
                let expect = match tl::distill::dehydrate(&reg, &v, &loaded.refs[0], Default::default()) {
                    Ok((d, _)) => Expect::Quads(from_btree(&d)),
                    Err(_) => Expect::Fail,
                };
                tool.check(ctx, &key, &a, &text, &expect);
            }
        }
    });
}

/// The term on the command line.
fn nq_name(t: &Term) -> String {
    match t {
        Term::Id(Id::Iri(i)) => i.to_string(),
        Term::Id(Id::Blank(b)) => b.to_string(),
        Term::Literal(_) => panic!(),
    }
}
fn pad(s: &str, form: usize) -> Vec<u8> {
    match form % 3 {
        0 => s.into(),
        1 => format!("{s}\n").into(),
        _ => format!(" \n\t{s} \r\n").into(),
    }
}

fn convert_tree(ctx: &Ctx, tool: &Tool) {
    let mut vs: Vec<tl::Value> = values();
    vs.extend(crate::values::universe(ctx, true).into_iter().filter(|v| !crate::values::any(v, |v| matches!(v, tl::Value::Literal(tl::Literal::Number(_))))).step_by(ctx.bound(11, 1)));
    use crate::values::{bo, by, int, map, num, pow, ratio, st};
    vs.extend([
        num(ratio(1, 2)), num(int(pow(2, 64))), num(int(pow(10, 400))), tl::Value::List(vec![num(int(1)), num(int(pow(10, 400)))]),
        map([(bo(true), st("x"))]), map([(num(int(1)), st("x"))]), by(b"ab"), tl::Value::List(vec![st("a"), by(b"")]), map([(st("k"), map([(tl::Value::unit(), by(b"x"))]))]),
    ]);
    ctx.count("converted_values", vs.len() as u64);
    ctx.par(&vs, |i, v| {
        let key = format!("convert/{i}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        let mut form = i;
        for input in TREE {
            for output in TREE {
                for pretty in [false, true] {
                    form += 1;
                    if ctx.quick() && i > 40 && form % 5 != 0 {
                        continue;
                    }
                    let text = if input.1 {
                        match json_syntax::Value::try_from(v.clone()) {
                            Ok(_) => pad(&tl_text(v), form),
                            Err(_) => continue,
                        }
                    } else {
                        match serde_cbor::to_vec(v) {
                            Ok(b) => b,
                            Err(_) => continue,
                        }
                    };
                    let v: tl::Value = if input.1 { v.clone() } else { serde_cbor::from_slice(&text).unwrap() };
                    let mut a = args(&["convert", "tree"]);
                    if !(input.0 == "json" && form % 2 == 0) {
                        a.extend(["-i".into(), input.0.into()]);
                    }
                    if !(output.0 == "json" && form % 2 == 1) {
                        a.extend(["--output".into(), output.0.into()]);
                    }
                    if pretty {
                        a.push("--pretty".into());
                    }
                    let expect = if output.1 {
                        doc(&v).map_or(Expect::Fail, |d| Expect::Json(d, pretty))
                    } else {
                        match serde_cbor::to_vec(&v) {
                            Ok(b) => Expect::Cbor(decode(&b).unwrap()),
                            Err(_) => Expect::Fail,
                        }
                    };
                    tool.check(ctx, &key, &a, &text, &expect);
                }
            }
        }
    });
}

fn convert_rdf(ctx: &Ctx, tool: &Tool) {
    let subjects = [ex("s"), blank("b0"), iri("http://e/é?q=1#f"), iri("urn:x:y")];
    let objects = [
        ex("o"),
        blank("b1"),
        s_lit(""),
        s_lit("a b"),
        s_lit("\"quoted\" \\ and\nnew\rline\ttab"),
        s_lit("\u{8}\u{c}\u{1}\u{7f}"),
        s_lit("é\u{2028}\u{fffd}\u{1F600}"),
        lang("chat", "fr"),
        lang("a\"b", "en-US"),
        lit("1", &format!("{XSD}integer")),
        lit("\n", "http://e/type"),
        s_lit("<http://e/x> ."),
        s_lit("'\u{a0}\u{85}"),
    ];
    let graphs = [None, Some(ex("g")), Some(blank("b2"))];
    let mut quads: Vec<Q4> = Vec::new();
    for s in &subjects {
        for o in &objects {
            for g in &graphs {
                quads.push((s.clone(), ex("p"), o.clone(), g.clone()));
            }
        }
    }
    let mut cases: Vec<Ds> = vec![Ds::new()];
    cases.extend(quads.iter().map(|q| [q.clone()].into_iter().collect()));
    let few: Vec<&Q4> = quads.iter().step_by(ctx.bound(9, 3)).collect();
    for (i, a) in few.iter().enumerate() {
        for b in &few[i + 1..] {
            cases.push([(*a).clone(), (*b).clone()].into_iter().collect());
        }
    }
    cases.push(quads.iter().cloned().collect());
    ctx.count("converted_datasets", cases.len() as u64);
    ctx.par(&cases, |i, ds| {
        let key = format!("rdf/{i}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        for style in 0..4u8 {
            let mut a = args(&["convert", "rdf"]);
            match (i + style as usize) % 5 {
                0 => (),
                k => a.extend(["-i".into(), RDF[k - 1].into(), "-o".into(), RDF[(k + 1) % 4].into()]),
            }
            let mut text = nq(ds, style);
            if style == 1 {
                // twice the same statements
                text = format!("{text}{text}");
            }
            tool.check(ctx, &key, &a, text.as_bytes(), &Expect::Quads(ds.clone()));
        }
    });
}

/// Inputs and command lines that are reported as errors.
fn malformed(ctx: &Ctx, tool: &Tool) {
    let json: Vec<Vec<u8>> = ["", " ", "{", "[1,]", "nul", "\"a", "{\"a\":1} x", "01", "[1 2]", "{\"a\" 1}", "'a'", "\"\\x\"", "1e", "-", "{\"a\":1,}", "\u{feff}1"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain([b"\"\xff\"".to_vec(), b"\"\xc3".to_vec(), b"\"\xed\xa0\x80\"".to_vec(), b"\"\xc3\"".to_vec(), b"\xff\xfe\"\x00a\x00\"\x00".to_vec()])
        .collect();
    let cbor: Vec<Vec<u8>> = [&b""[..], b"\x61", b"\x82\x01", b"\xff", b"\x1c", b"\xf9\x7e\x00", b"\x62\xff\xff", b"\x01\x01", b"\xfb\x7f\xf0\x00\x00\x00\x00\x00\x00", b"\x9f\x01"]
        .iter()
        .map(|b| b.to_vec())
        .collect();
    let quads: Vec<Vec<u8>> = [
        "<http://e/s>", "<http://e/s> <http://e/p> .", "<http://e/s> <http://e/p> \"a .", "<http://e/s> <http://e/p> <http://e/o>", "<s> <http://e/p> <http://e/o> .", "<http://e/s> <http://e/p> \"a\"^^b .", "{}",
        "<http://e/s> <http://e/p> \"\\x\" .", "<http://e/s> <http://e/p> \"\\u12\" .", "<http://e/s <http://e/p> <http://e/o> .",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .chain([b"<http://e/s> <http://e/p> \"\xff\" .\n".to_vec(), b"<http://e/s> <http://e/p> \"\xc3".to_vec(), b"<http://e/s> <http://e/p> \"\xc3\" .\n".to_vec()])
    .collect();
    let mut cases: Vec<(Vec<String>, Vec<u8>)> = Vec::new();
    for b in &json {
        for c in [&["convert", "tree"][..], &["convert", "tree", "-o", "cbor"], &["any.json", "dehydrate"], &["set file.json", "dehydrate"]] {
            cases.push((args(c), b.clone()));
        }
    }
    for b in &cbor {
        for c in [&["convert", "tree", "-i", "cbor"][..], &["convert", "tree", "-i", "cbor", "-o", "cbor"], &["string.json", "dehydrate", "-i", "cbor"]] {
            cases.push((args(c), b.clone()));
        }
    }
    for b in &quads {
        for c in [&["convert", "rdf"][..], &["set file.json", "hydrate", "http://e/s"], &["any.json", "hydrate", "http://e/s"]] {
            cases.push((args(c), b.clone()));
        }
    }
    let good = b"<http://e/s> <http://e/name> \"Bob\" .\n".to_vec();
    for c in [
        &["set file.json", "hydrate", "-i", "json", "http://e/s"][..],
        &["set file.json", "hydrate", "-o", "yaml", "http://e/s"],
        &["set file.json", "hydrate", "-o", "n-quads", "http://e/s"],
        &["set file.json", "hydrate", "not an iri"],
        &["set file.json", "hydrate", "-l"],
        &["set file.json", "hydrate", "--unknown", "http://e/s"],
        &["set file.json", "hydrates", "http://e/s"],
        &["hydrate", "http://e/s"],
        &["set file.json", "convert"],
        &["convert", "xml"],
        &["convert", "tree", "-i", "nq"],
        &["convert", "rdf", "-o", "json"],
        &["-i", "set file.json", "hydrate", "http://e/s"],
        &["invalid.json", "hydrate", "http://e/s"],
        &["unbound.json", "hydrate", "http://e/s"],
    ] {
        cases.push((args(c), good.clone()));
    }
    ctx.count("malformed", cases.len() as u64);
    ctx.par(&cases, |i, (a, b)| {
        let key = format!("malformed/{i}");
        if !ctx.begin(&key) {
            return;
        }
        ctx.state();
        tool.check(ctx, &key, a, b, &Expect::Fail);
    });
}

/// A dataset whose only quad repeats its subject.
fn self_loop(ctx: &Ctx, tool: &Tool) {
    let key = "self-loop";
    if ctx.begin(key) {
        ctx.state();
        let ds: Ds = [(ex("s"), ex("p"), ex("s"), None)].into_iter().collect();
        tool.check(ctx, key, &args(&["convert", "rdf"]), nq(&ds, 0).as_bytes(), &Expect::Quads(ds.clone()));
    }
}
