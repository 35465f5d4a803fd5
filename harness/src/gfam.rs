//! C19: layouts turned into Rust types by the generator.
//!
//! `emit` writes the layouts of a family as files (committed in
//! /verif/gen/layouts) and the source of a crate including the types generated
//! from them (committed as /verif/gen/src/types.rs).
use crate::{dfam, dfam::Style, model::*};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub const PRELUDE: &str = "https://treeldr.org/prelude#";

/// Reference to a preset layout.
fn preset(l: &L) -> Option<String> {
    if l.h != h1() {
        return None;
    }
    let name = match &l.k {
        K::Id(V(0)) => "id",
        K::Unit(Tree::Unit) => "unit",
        K::Bool(V(0), d) if *d == format!("{XSD}boolean") => "boolean",
        K::Str(V(0), d) if *d == format!("{XSD}string") => "string",
        K::Num(V(0), d) => NUMBERS.iter().find(|n| d.strip_prefix(XSD) == Some(n.0))?.1,
        _ => return None,
    };
    Some(format!("{PRELUDE}{name}"))
}

/// Datatypes of numbers with their Rust type.
pub const NUMBERS: [(&str, &str); 8] = [
    ("unsignedByte", "u8"),
    ("unsignedShort", "u16"),
    ("unsignedInt", "u32"),
    ("unsignedLong", "u64"),
    ("byte", "i8"),
    ("short", "i16"),
    ("int", "i32"),
    ("long", "i64"),
];

pub struct GSys {
    pub sys: Sys,
    pub style: Style,
    /// name of its module
    pub module: String,
    /// files its module is generated from
    pub files: Vec<(String, J)>,
}

/// The identifier of the layout with this IRI.
pub fn ident_of(iri: &str) -> String {
    let last = iri.rsplit(['/', '#']).next().unwrap();
    let mut out = String::new();
    let mut up = true;
    for c in last.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.extend(c.to_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

/// Gives an IRI to every layout to be declared.
fn identify(l: &L, st: Style, module: &str, count: &mut usize, top: bool) -> L {
    let mut l = l.clone();
    if let K::Num(_, d) = &mut l.k {
        if *d == format!("{XSD}integer") || *d == format!("{XSD}decimal") {
            *d = format!("{XSD}long");
        }
    }
    if l.id.is_none() && (top || st == Style::Long || preset(&l).is_none()) {
        let n = *count;
        *count += 1;
        l.id = Some(match n % 4 {
            0 => format!("http://e/gen/{module}T{n}"),
            1 => format!("http://e/gen#{module}_t{n}"),
            2 => format!("http://e/gen/some_thing_{module}_{n}"),
            _ => format!("urn:gen:x/Y#T{n}"),
        });
    }
    let go = |c: &mut Comp, count: &mut usize| {
        if let LR::In(l) = &mut c.layout {
            **l = identify(l, st, module, count, false);
        }
    };
    match &mut l.k {
        K::Record(f) => f.values_mut().for_each(|(c, _)| go(c, count)),
        K::Sum(v) => v.iter_mut().for_each(|(_, c)| go(c, count)),
        K::Set(c) | K::List(_, _, c) => go(c, count),
        K::Tuple(v) => v.iter_mut().for_each(|c| go(c, count)),
        _ => {}
    }
    l
}

/// As written: presets are named.
fn written(l: &L) -> L {
    let mut l = l.clone();
    let go = |c: &mut Comp| {
        if let LR::In(l) = &mut c.layout {
            match preset(l) {
                Some(p) if l.id.is_none() => c.layout = LR::Named(p),
                _ => **l = written(l),
            }
        }
    };
    match &mut l.k {
        K::Record(f) => f.values_mut().for_each(|(c, _)| go(c)),
        K::Sum(v) => v.iter_mut().for_each(|(_, c)| go(c)),
        K::Set(c) | K::List(_, _, c) => go(c),
        K::Tuple(v) => v.iter_mut().for_each(go),
        _ => {}
    }
    l
}

fn names_ok(l: &L) -> bool {
    let ok = |n: &String| dfam::ident(n) == *n;
    let here = match &l.k {
        K::Record(f) => f.keys().all(ok),
        K::Sum(v) => v.iter().all(|(n, _)| ok(n)),
        _ => true,
    };
    here && l.comps().into_iter().all(|c| match &c.layout {
        LR::In(l) => names_ok(l),
        LR::Named(_) => true,
    })
}

fn declare(s: &Sys, st: Style, module: String) -> GSys {
    let mut count = 0;
    let main_named = s.main.id.clone().filter(|i| s.named.contains_key(i));
    let named: BTreeMap<String, L> = s.named.iter().map(|(n, l)| (n.clone(), identify(l, st, &module, &mut count, true))).collect();
    let main = match &main_named {
        Some(n) => named[n].clone(),
        None => identify(&s.main, st, &module, &mut count, true),
    };
    let mut files: Vec<(String, J)> = vec![];
    if main_named.is_none() {
        files.push((format!("{module}.json"), written(&main).json()));
    }
    for (i, l) in named.values().enumerate() {
        files.push((format!("{module}-{i}.json"), written(l).json()));
    }
    GSys { sys: Sys { name: s.name.clone(), main, named }, style: st, module, files }
}

/// Systems whose types are generated in one module, with every component.
pub fn systems() -> Vec<GSys> {
    let mut out = vec![];
    for (i, d) in dfam::systems().into_iter().enumerate() {
        if i % 2 == 0 && names_ok(&d.sys.main) && d.sys.named.values().all(names_ok) {
            out.push((d.sys, d.style));
        }
    }
    for (i, (d, _)) in NUMBERS.iter().enumerate() {
        for (j, st) in [Style::Short, Style::Long].into_iter().enumerate() {
            out.push((sys(&format!("num:{d}~{st:?}"), if (i + j) % 2 == 0 { rdf_list(l_num(d)) } else { record(vec![("f", prop(1, "q", l_num(d)), false)]) }), st));
        }
    }
    for st in [Style::Short, Style::Long] {
        out.push((sys(&format!("presets~{st:?}"), record(vec![("a", prop(1, "p", l_bool()), true), ("b", prop(1, "q", l_unit(Tree::Unit)), false), ("c", on_self(l_id()), false)])), st));
    }
    out.into_iter().enumerate().map(|(i, (s, st))| declare(&s, st, format!("s{i}"))).collect()
}

// ------------------------------------------------------------- modules

pub const LIB: &str = "http://e/lib/";
pub const DEEP: &str = "http://e/lib/deep/";
pub const ANY: &str = "http://e/any#";

/// Layouts declared in modules of their own.
pub fn library() -> Vec<(String, L)> {
    let named = |p: &str, n: &str, l: L| (format!("{p}{n}"), L { id: Some(format!("{p}{n}")), ..l });
    let two = || record(vec![("f", prop(1, "q", l_str()), false), ("g", prop(1, "r", l_id()), false)]);
    vec![
        named(LIB, "Name", l_str()),
        named(LIB, "flag", l_bool()),
        named(LIB, "Link", l_id()),
        named(LIB, "Person", two()),
        named(LIB, "Choice", sum(vec![("a", prop(1, "q", l_str())), ("b", prop(1, "r", l_id()))])),
        named(DEEP, "Name", record(vec![("f", prop(1, "q", l_str()), true)])),
        named(DEEP, "Pair", tuple(vec![prop(1, "q", l_str()), prop(1, "r", l_bool())])),
        named(ANY, "Anything", leaf(K::Always)),
        named(ANY, "Nothing", leaf(K::Never)),
    ]
}

pub struct MSys {
    pub sys: Sys,
    pub module: String,
    pub file: J,
}

/// Systems referring to layouts of other modules.
pub fn modules() -> Vec<MSys> {
    let lib: BTreeMap<String, L> = library().into_iter().collect();
    let mut out = vec![];
    for n in lib.keys() {
        let c = |p: &str| Comp { layout: LR::Named(n.clone()), ..prop(1, p, l_str()) };
        let mut shapes = vec![
            ("req", record(vec![("f", c("p"), true)])),
            ("opt", record(vec![("f", c("p"), false), ("id", on_self(l_id()), true)])),
            ("sum", sum(vec![("a", c("p")), ("b", prop(1, "q", l_str()))])),
            ("tuple", tuple(vec![c("p"), c("r")])),
        ];
        let mut list = rdf_list(l_str());
        if let K::List(_, _, c) = &mut list.k {
            c.layout = LR::Named(n.clone());
        }
        shapes.push(("list", list));
        if n.ends_with("Person") || n.ends_with("Pair") {
            shapes.push(("set", leaf(K::Set(c("p")))));
        }
        for (k, l) in shapes {
            let module = format!("m{}", out.len());
            let mut count = 0;
            let main = identify(&L { id: Some(format!("http://e/gen/{module}_main")), ..l }, Style::Short, &module, &mut count, true);
            let file = written(&main).json();
            out.push(MSys { sys: Sys { name: format!("module:{k}({n})"), main, named: lib.clone() }, module, file });
        }
    }
    out
}

pub fn lib_sys(iri: &str) -> Sys {
    let named: BTreeMap<String, L> = library().into_iter().collect();
    Sys { name: iri.to_owned(), main: named[iri].clone(), named }
}
pub fn module_sys(i: usize) -> Sys {
    thread_local! {
        static ALL: std::cell::OnceCell<Vec<Sys>> = const { std::cell::OnceCell::new() };
    }
    ALL.with(|a| a.get_or_init(|| modules().into_iter().map(|m| m.sys).collect())[i].clone())
}

// ------------------------------------------------------------- emission

fn glue(l: &L, seen: &mut BTreeSet<String>, out: &mut String) {
    if let Some(id) = &l.id {
        let t = ident_of(id);
        if !seen.insert(t.clone()) {
            return;
        }
        let line = match &l.k {
            K::Id(_) | K::Bool(..) | K::Str(..) | K::Num(..) => format!("leaf!({t});"),
            K::Unit(_) => format!("unit!({t});"),
            K::Record(f) => {
                let f: Vec<String> = f.iter().map(|(n, (_, r))| format!("{n} {n:?} {}", if *r { "req" } else { "opt" })).collect();
                format!("record!({t} {});", f.join(", "))
            }
            K::Sum(v) => {
                let v: Vec<String> = v.iter().enumerate().map(|(i, (n, _))| format!("{i} {n}")).collect();
                format!("sum!({t} {});", v.join(", "))
            }
            K::Set(_) | K::List(..) => format!("items!({t});"),
            K::Tuple(v) => format!("tuple!({t} {} {});", v.len(), (0..v.len()).map(|i| i.to_string()).collect::<Vec<_>>().join(" ")),
            _ => unreachable!(),
        };
        write!(out, " {line}").unwrap();
    }
    for c in l.comps() {
        if let LR::In(l) = &c.layout {
            glue(l, seen, out);
        }
    }
}

/// Files of the crate, by path.
pub fn emit() -> Vec<(String, String)> {
    let mut files = vec![];
    let mut src = String::from(
        "// Written by `mc --emit-gen`; do not edit.\n#![allow(dead_code, non_camel_case_types, unused_imports, unused_variables, unused_mut, unused_must_use)]\nuse typed::{ops, Ops};\n\n",
    );
    let mut table = String::new();
    let mut put = |n: &str, j: &J| files.push((format!("layouts/{n}"), format!("{j:#}\n")));
    for s in systems() {
        s.files.iter().for_each(|(n, j)| put(n, j));
        let names: Vec<String> = s.files.iter().map(|f| format!("\"layouts/{}\"", f.0)).collect();
        let (m, t) = (&s.module, ident_of(s.sys.main.id.as_ref().unwrap()));
        let mut g = String::new();
        let mut seen = BTreeSet::new();
        for l in std::iter::once(&s.sys.main).chain(s.sys.named.values()) {
            glue(l, &mut seen, &mut g);
        }
        writeln!(src, "pub mod {m} {{ use typed::*; treeldr::tldr_include!({});{g} }}", names.join(", ")).unwrap();
        writeln!(table, "    ({:?}, ops::<{m}::{t}, {}>()),", s.sys.name, s.sys.main.h.inputs).unwrap();
    }
    writeln!(src, "pub mod any {{ pub type Anything = treeldr::Always; pub type Nothing = treeldr::Never; }}").unwrap();
    for (module, prefix) in [("lib", LIB), ("deep", DEEP)] {
        let mut names = vec![];
        let mut g = String::new();
        for (iri, l) in library() {
            let Some(n) = iri.strip_prefix(prefix).filter(|n| !n.contains('/')) else { continue };
            put(&format!("{module}-{n}.json"), &written(&l).json());
            names.push(format!("\"layouts/{module}-{n}.json\""));
            writeln!(g, "typed::opaque!({module}::{}, 1, mc::gfam::lib_sys({iri:?}));", ident_of(&iri)).unwrap();
        }
        write!(src, "#[treeldr::tldr({})] pub mod {module} {{}}\n{g}", names.join(", ")).unwrap();
    }
    for (i, s) in modules().into_iter().enumerate() {
        let m = &s.module;
        put(&format!("{m}.json"), &s.file);
        // in any order, and renamed
        let mut uses = vec![format!("#[tldr({LIB:?})] use super::lib;"), format!("#[tldr({DEEP:?})] use super::deep as below;"), format!("#[tldr({ANY:?})] use super::any;")];
        uses.rotate_left(i % 3);
        let t = ident_of(s.sys.main.id.as_ref().unwrap());
        writeln!(src, "#[treeldr::tldr(\"layouts/{m}.json\")] pub mod {m} {{ {} }}\ntyped::opaque!({m}::{t}, 1, mc::gfam::module_sys({i}));", uses.join(" ")).unwrap();
        writeln!(table, "    ({:?}, ops::<{m}::{t}, 1>()),", s.sys.name).unwrap();
    }
    write!(src, "\npub const ALL: &[(&str, Ops)] = &[\n{table}];\n").unwrap();
    files.push(("src/types.rs".into(), src));
    files
}

// ------------------------------------------------------------- names

fn layouts_mut<'a>(l: &'a mut L, out: &mut Vec<&'a mut Option<String>>) {
    let L { id, k, .. } = l;
    if matches!(k, K::Never | K::Always) {
        return;
    }
    out.push(id);
    let comps: Vec<&mut Comp> = match k {
        K::Record(f) => f.values_mut().map(|(c, _)| c).collect(),
        K::Sum(v) => v.iter_mut().map(|(_, c)| c).collect(),
        K::Set(c) | K::List(_, _, c) => vec![c],
        K::Tuple(v) => v.iter_mut().collect(),
        _ => vec![],
    };
    for c in comps {
        if let LR::In(l) = &mut c.layout {
            layouts_mut(l, out);
        }
    }
}

/// The system with an IRI for each layout that can have one, and the number of
/// those of the main one.
pub fn with_names(s: &Sys, module: &str) -> (Sys, usize) {
    let mut s = s.clone();
    let mut n = 0;
    let mut name = |l: &mut L| {
        let mut all = vec![];
        layouts_mut(l, &mut all);
        for id in all.iter_mut().filter(|i| i.is_none()) {
            **id = Some(format!("http://e/gen/{module}_t{n}"));
            n += 1;
        }
        all.len()
    };
    s.named.values_mut().for_each(|l| {
        name(l);
    });
    let count = match s.main.id.as_ref().and_then(|i| s.named.get(i)) {
        Some(l) => {
            s.main = l.clone();
            0
        }
        None => name(&mut s.main),
    };
    (s, count)
}

/// Without the IRI of one layout of the main one.
pub fn without_name(s: &Sys, i: usize) -> Sys {
    let mut s = s.clone();
    let mut all = vec![];
    layouts_mut(&mut s.main, &mut all);
    *all[i] = None;
    s
}
