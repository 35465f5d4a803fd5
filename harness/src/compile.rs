//! C10: compilation of layout definitions. Reference resolver over the JSON
//! form of a definition, compared with the compiled collection.
use crate::model::{RDF, XSD};
use crate::rt::Ctx;
use rdf_types::{LiteralType, Term};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use tl::abs::syntax::BuildError;
use tl::layout::{DataLayout, ListLayout, LiteralLayout};
use tl::{Layout, Layouts, Pattern, ValueFormat};
use treeldr_layouts as tl;

// ------------------------------------------------------------ reference

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E {
    NoBase,
    BadIri,
    Undeclared,
    Redefined,
    NoTarget,
    NoSubject,
    NoObject,
    Unsupported,
}

#[derive(Clone, Default)]
struct Sc {
    base: Option<String>,
    pre: BTreeMap<String, String>,
    vars: Vec<String>,
}

/// RFC 3986, section 5.2.
pub fn rfc_resolve(base: &str, r: &str) -> String {
    fn split(s: &str) -> (Option<&str>, Option<&str>, &str, Option<&str>, Option<&str>) {
        let (s, frag) = match s.split_once('#') {
            Some((a, b)) => (a, Some(b)),
            None => (s, None),
        };
        let (s, query) = match s.split_once('?') {
            Some((a, b)) => (a, Some(b)),
            None => (s, None),
        };
        let (scheme, s) = match scheme_of(s) {
            Some(n) => (Some(&s[..n]), &s[n + 1..]),
            None => (None, s),
        };
        let (auth, path) = match s.strip_prefix("//") {
            Some(t) => match t.find('/') {
                Some(i) => (Some(&t[..i]), &t[i..]),
                None => (Some(t), ""),
            },
            None => (None, s),
        };
        (scheme, auth, path, query, frag)
    }
    fn dots(p: &str) -> String {
        let mut input = p.to_owned();
        let mut out = String::new();
        while !input.is_empty() {
            if let Some(t) = input.strip_prefix("../") {
                input = t.to_owned()
            } else if let Some(t) = input.strip_prefix("./") {
                input = t.to_owned()
            } else if input.starts_with("/./") {
                input = input[2..].to_owned()
            } else if input == "/." {
                input = "/".into()
            } else if input.starts_with("/../") || input == "/.." {
                input = if input == "/.." { "/".into() } else { input[3..].to_owned() };
                match out.rfind('/') {
                    Some(i) => out.truncate(i),
                    None => out.clear(),
                }
            } else if input == "." || input == ".." {
                input.clear()
            } else {
                let i = input[1..].find('/').map(|i| i + 1).unwrap_or(input.len());
                out.push_str(&input[..i]);
                input = input[i..].to_owned();
            }
        }
        out
    }
    let (bs, ba, bp, bq, _) = split(base);
    let (_, ra, rp, rq, rf) = split(r);
    let (auth, path, query) = if ra.is_some() {
        (ra, dots(rp), rq)
    } else if rp.is_empty() {
        (ba, bp.to_owned(), rq.or(bq))
    } else if rp.starts_with('/') {
        (ba, dots(rp), rq)
    } else {
        let merged = if ba.is_some() && bp.is_empty() {
            format!("/{rp}")
        } else {
            format!("{}{rp}", bp.rfind('/').map(|i| &bp[..=i]).unwrap_or(""))
        };
        (ba, dots(&merged), rq)
    };
    let mut o = format!("{}:", bs.unwrap());
    if let Some(a) = auth {
        o.push_str("//");
        o.push_str(a);
    }
    o.push_str(&path);
    if let Some(q) = query {
        o.push('?');
        o.push_str(q);
    }
    if let Some(f) = rf {
        o.push('#');
        o.push_str(f);
    }
    o
}

fn scheme_of(s: &str) -> Option<usize> {
    let i = s.find(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c)))?;
    (i > 0 && s.as_bytes()[0].is_ascii_alphabetic() && s.as_bytes()[i] == b':').then_some(i)
}

#[derive(Default)]
struct Comp {
    errs: BTreeSet<E>,
    named: BTreeMap<String, J>,
    layouts: usize,
}

fn many(j: Option<&J>, default: &[&str]) -> Vec<String> {
    match j {
        None => default.iter().map(|s| s.to_string()).collect(),
        Some(J::String(s)) => vec![s.clone()],
        Some(J::Array(a)) => a.iter().map(|s| s.as_str().unwrap().to_owned()).collect(),
        _ => unreachable!(),
    }
}

fn many_j(j: &J) -> Vec<J> {
    match j {
        J::Array(a) => a.clone(),
        o => vec![o.clone()],
    }
}

impl Comp {
    fn iri(&mut self, s: &str, sc: &Sc) -> String {
        match scheme_of(s) {
            Some(n) => match sc.pre.get(&s[..n]) {
                Some(p) => {
                    let full = format!("{p}{}", &s[n + 1..]);
                    if iref::IriBuf::new(full.clone()).is_err() {
                        self.errs.insert(E::BadIri);
                    }
                    full
                }
                None => s.to_owned(),
            },
            None => match &sc.base {
                // bases without a path to resolve against: the IRI library decides
                Some(b) if b.split(['?', '#']).next().unwrap().matches('/').count() < 3 => {
                    iref::IriRef::new(s).unwrap().resolved(iref::Iri::new(b).unwrap()).to_string()
                }
                Some(b) => rfc_resolve(b, s),
                None => {
                    self.errs.insert(E::NoBase);
                    "error:/".to_owned()
                }
            },
        }
    }
    fn var(&mut self, name: &str, sc: &Sc) -> J {
        match sc.vars.iter().rposition(|v| v == name) {
            Some(i) => json!({ "v": i }),
            None => {
                self.errs.insert(E::Undeclared);
                J::Null
            }
        }
    }
    fn literal(&mut self, o: &J, sc: &Sc) -> J {
        let v = &o["value"];
        match o.get("language") {
            Some(l) => json!({"l": v, "lang": l}),
            None => {
                let t = match o.get("type") {
                    Some(t) => self.iri(t.as_str().unwrap(), sc),
                    None => format!("{XSD}string"),
                };
                json!({"l": v, "t": t})
            }
        }
    }
    fn pat(&mut self, p: &J, sc: &Sc) -> J {
        match p {
            J::String(s) => match s.strip_prefix("_:") {
                Some(n) => self.var(n, sc),
                None => json!({"i": self.iri(s, sc)}),
            },
            o => self.literal(o, sc),
        }
    }
    fn quads(&mut self, d: Option<&J>, sc: &Sc) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        if let Some(J::Array(qs)) = d {
            for q in qs {
                let q = q.as_array().unwrap();
                let mut v: Vec<J> = q.iter().filter(|p| !p.is_null()).map(|p| self.pat(p, sc)).collect();
                if v.len() == 3 {
                    v.push(J::Null);
                }
                out.insert(J::Array(v).to_string());
            }
        }
        out
    }
    fn extra(&mut self, e: Option<&J>, sc: &Sc) -> J {
        let mut out = BTreeMap::new();
        if let Some(J::Object(m)) = e {
            for (k, v) in m {
                let k = self.iri(k, sc);
                let v = match v {
                    J::Bool(b) => json!({"l": b.to_string(), "t": format!("{XSD}boolean")}),
                    J::Number(n) => json!({"n": n.to_string()}),
                    J::String(s) => json!({"l": s, "t": format!("{XSD}string")}),
                    o => self.literal(o, sc),
                };
                out.insert(json!({ "i": k }).to_string(), v);
            }
        }
        json!(out)
    }
    fn format(&mut self, v: &J, default: &str, sc: &Sc) -> J {
        if is_layout(v) {
            json!({"input": [self.var(default, sc)], "graph": "current", "layout": self.layout_ref(v, sc)})
        } else {
            let input: Vec<J> = match v.get("input") {
                None => vec![self.var(default, sc)],
                Some(i) => many_j(i).iter().map(|p| self.pat(p, sc)).collect(),
            };
            let graph = match v.get("graph") {
                None => json!("current"),
                Some(J::Null) => J::Null,
                Some(g) => self.pat(g, sc),
            };
            json!({"input": input, "graph": graph, "layout": self.layout_ref(&v["layout"], sc)})
        }
    }
    fn layout_ref(&mut self, l: &J, sc: &Sc) -> J {
        let mut sc = sc.clone();
        sc.vars.clear();
        match l {
            J::String(s) => json!({"ref": self.iri(s, &sc)}),
            l => self.layout(l, &sc),
        }
    }
    /// Returns a reference (named) or the layout itself (anonymous).
    fn layout(&mut self, l: &J, sc: &Sc) -> J {
        self.layouts += 1;
        let id = l.get("id").map(|i| self.iri(i.as_str().unwrap(), sc));
        let body = self.body(l, sc);
        match id {
            None => body,
            Some(id) => {
                if self.named.insert(id.clone(), body).is_some() {
                    self.errs.insert(E::Redefined);
                }
                json!({ "ref": id })
            }
        }
    }
    fn body(&mut self, l: &J, outer: &Sc) -> J {
        match l {
            J::Bool(true) => return json!("always"),
            J::Bool(false) => return json!("never"),
            _ => (),
        }
        let ty = l["type"].as_str().unwrap();
        if ty == "union" || ty == "intersection" {
            self.errs.insert(E::Unsupported);
            return J::Null;
        }
        let mut sc = outer.clone();
        if let Some(b) = l.get("base") {
            sc.base = Some(self.iri(b.as_str().unwrap(), outer));
        }
        if let Some(J::Object(p)) = l.get("prefixes") {
            for (k, v) in p {
                let v = self.iri(v.as_str().unwrap(), outer);
                sc.pre.insert(k.clone(), v);
            }
        }
        let input = many(l.get("input"), &["self"]);
        let intro = many(l.get("intro"), &[]);
        sc.vars.extend(input.iter().cloned());
        sc.vars.extend(intro.iter().cloned());
        let mut o = json!({
            "type": ty,
            "input": input.len(),
            "intro": intro.len(),
            "dataset": self.quads(l.get("dataset"), &sc),
            "extra": self.extra(l.get("extra"), &sc),
        });
        match ty {
            "unit" => o["const"] = l.get("const").cloned().unwrap_or(J::Null),
            "boolean" | "number" | "bytes" | "string" | "id" => {
                o["resource"] = match l.get("resource") {
                    Some(r) => self.pat(r, &sc),
                    None if input.is_empty() => {
                        self.errs.insert(E::NoTarget);
                        J::Null
                    }
                    None => json!({"v": 0}),
                };
                if ty != "id" {
                    o["datatype"] = match (l.get("datatype"), ty) {
                        (Some(d), _) => json!({"i": self.iri(d.as_str().unwrap(), &sc)}),
                        (None, "boolean") => json!({"i": format!("{XSD}boolean")}),
                        (None, "string") => json!({"i": format!("{XSD}string")}),
                        _ => unreachable!(),
                    };
                }
                if ty == "string" || ty == "id" {
                    o["pattern"] = json!(l.get("pattern").is_some());
                }
            }
            "record" => {
                let mut fs = BTreeMap::new();
                for (k, f) in l.get("fields").and_then(J::as_object).into_iter().flatten() {
                    let mut c = self.component(f, &["value"], "value", !input.is_empty(), &sc);
                    c["required"] = json!(f.get("required").and_then(J::as_bool).unwrap_or(false));
                    fs.insert(k.clone(), c);
                }
                o["fields"] = json!(fs);
            }
            "sum" => {
                let mut vs = BTreeMap::new();
                for (k, f) in l.get("variants").and_then(J::as_object).into_iter().flatten() {
                    vs.insert(k.clone(), self.component(f, &[], "self", !input.is_empty(), &sc));
                }
                o["variants"] = json!(vs);
            }
            "set" => o["item"] = self.component(&l["item"], &["value"], "value", !input.is_empty(), &sc),
            "tuple" => {
                let items: Vec<J> = l
                    .get("items")
                    .and_then(J::as_array)
                    .into_iter()
                    .flatten()
                    .map(|i| self.component(i, &["value"], "value", !input.is_empty(), &sc))
                    .collect();
                o["items"] = json!(items);
            }
            "list" => {
                o["head"] = match l.get("head") {
                    Some(p) => self.pat(p, &sc),
                    None => self.var("self", &sc),
                };
                o["tail"] = match l.get("tail") {
                    Some(p) => self.pat(p, &sc),
                    None => json!({"i": format!("{RDF}nil")}),
                };
                let node = &l["node"];
                let full = if is_layout(node) { json!({ "value": node }) } else { node.clone() };
                let mut inner = sc.clone();
                let (h, r) = (sc.vars.len(), sc.vars.len() + 1);
                inner.vars.push(full.get("head").and_then(J::as_str).unwrap_or("head").to_owned());
                inner.vars.push(full.get("rest").and_then(J::as_str).unwrap_or("rest").to_owned());
                let intro = many(full.get("intro"), &["value"]);
                inner.vars.extend(intro.iter().cloned());
                let value = self.format(&full["value"], "value", &inner);
                let dataset = match full.get("dataset") {
                    Some(d) => self.quads(Some(d), &inner),
                    None => {
                        let input = value["input"].as_array().unwrap();
                        if input.len() == 1 {
                            [
                                json!([{"v": h}, {"i": format!("{RDF}first")}, input[0], null]).to_string(),
                                json!([{"v": h}, {"i": format!("{RDF}rest")}, {"v": r}, null]).to_string(),
                            ]
                            .into()
                        } else {
                            BTreeSet::new()
                        }
                    }
                };
                o["node"] = json!({"intro": intro.len(), "value": value, "dataset": dataset});
            }
            _ => unreachable!(),
        }
        o
    }
    fn component(&mut self, f: &J, intro: &[&str], input: &str, subject: bool, sc: &Sc) -> J {
        let intro = many(f.get("intro"), intro);
        let object = sc.vars.len();
        let mut sc = sc.clone();
        sc.vars.extend(intro.iter().cloned());
        let mut dataset = self.quads(f.get("dataset"), &sc);
        if let Some(p) = f.get("property") {
            if !subject {
                self.errs.insert(E::NoSubject);
            }
            if intro.is_empty() {
                self.errs.insert(E::NoObject);
            }
            let p = self.pat(p, &sc);
            dataset.insert(json!([{"v": 0}, p, {"v": object}, null]).to_string());
        }
        json!({"intro": intro.len(), "dataset": dataset, "value": self.format(&f["value"], input, &sc)})
    }
}

fn is_layout(v: &J) -> bool {
    match v {
        J::Object(o) => o.contains_key("type"),
        _ => true,
    }
}

// ------------------------------------------------------------ the compiled form

fn term(t: &Term) -> J {
    match t {
        Term::Id(i) => json!({"i": i.to_string().trim_matches(|c| c == '<' || c == '>')}),
        Term::Literal(l) => match &l.type_ {
            LiteralType::Any(t) => json!({"l": l.value, "t": t.as_str()}),
            LiteralType::LangString(t) => json!({"l": l.value, "lang": t.as_str()}),
        },
    }
}
fn pat(p: &Pattern<Term>) -> J {
    match p {
        Pattern::Var(i) => json!({ "v": i }),
        Pattern::Resource(t) => term(t),
    }
}
fn quads(d: &tl::Dataset<Term>) -> BTreeSet<String> {
    d.iter()
        .map(|q| json!([pat(q.0), pat(q.1), pat(q.2), q.3.map(pat)]).to_string())
        .collect()
}
fn extra(e: &BTreeMap<Term, Term>) -> J {
    json!(e
        .iter()
        .map(|(k, v)| {
            let mut v = term(v);
            // numbers: any numeric datatype holding the value
            if let Some(t) = v.get("t").and_then(J::as_str) {
                let num = ["integer", "decimal", "yte", "hort", "nt", "ong", "Integer"];
                if let Some(local) = t.strip_prefix(XSD) {
                    if num.iter().any(|n| local.ends_with(n)) {
                        v = json!({"n": v["l"]});
                    }
                }
            }
            (term(k).to_string(), v)
        })
        .collect::<BTreeMap<_, _>>())
}

pub struct Dec<'a> {
    pub layouts: &'a Layouts,
    pub seen: BTreeSet<Term>,
    pub bad: Vec<String>,
}

impl Dec<'_> {
    pub fn reference(&mut self, r: &tl::Ref<tl::layout::LayoutType>) -> J {
        let t = r.id();
        match t {
            Term::Id(rdf_types::Id::Blank(_)) => {
                if !self.seen.insert(t.clone()) {
                    self.bad.push(format!("anonymous layout {t} used twice"));
                    return J::Null;
                }
                match self.layouts.layout(t) {
                    Some(l) => self.layout(l),
                    None => {
                        self.bad.push(format!("anonymous layout {t} not defined"));
                        J::Null
                    }
                }
            }
            t => json!({"ref": term(t)["i"]}),
        }
    }
    fn format(&mut self, v: &ValueFormat<Term>) -> J {
        json!({
            "input": v.input.iter().map(pat).collect::<Vec<_>>(),
            "graph": match &v.graph {
                None => json!("current"),
                Some(None) => J::Null,
                Some(Some(p)) => pat(p),
            },
            "layout": self.reference(&v.layout),
        })
    }
    fn comp(&mut self, intro: u32, value: &ValueFormat<Term>, dataset: &tl::Dataset<Term>) -> J {
        json!({"intro": intro, "dataset": quads(dataset), "value": self.format(value)})
    }
    pub fn layout(&mut self, l: &Layout<Term>) -> J {
        let head = |ty: &str, input: u32, intro: u32, ds: &tl::Dataset<Term>, ex: &BTreeMap<Term, Term>| {
            json!({"type": ty, "input": input, "intro": intro, "dataset": quads(ds), "extra": extra(ex)})
        };
        match l {
            Layout::Always => json!("always"),
            Layout::Never => json!("never"),
            Layout::Literal(LiteralLayout::Data(d)) => match d {
                DataLayout::Unit(l) => {
                    let mut o = head("unit", l.input, l.intro, &l.dataset, &l.extra_properties);
                    o["const"] = serde_json::to_value(&l.const_).unwrap();
                    o
                }
                DataLayout::Boolean(l) => {
                    let mut o = head("boolean", l.input, l.intro, &l.dataset, &l.extra_properties);
                    o["resource"] = pat(&l.resource);
                    o["datatype"] = term(&l.datatype);
                    o
                }
                DataLayout::Number(l) => {
                    let mut o = head("number", l.input, l.intro, &l.dataset, &l.extra_properties);
                    o["resource"] = pat(&l.resource);
                    o["datatype"] = term(&l.datatype);
                    o
                }
                DataLayout::ByteString(l) => {
                    let mut o = head("bytes", l.input, l.intro, &l.dataset, &l.extra_properties);
                    o["resource"] = pat(&l.resource);
                    o["datatype"] = term(&l.datatype);
                    o
                }
                DataLayout::TextString(l) => {
                    let mut o = head("string", l.input, l.intro, &l.dataset, &l.extra_properties);
                    o["resource"] = pat(&l.resource);
                    o["datatype"] = term(&l.datatype);
                    o["pattern"] = json!(l.pattern.is_some());
                    o
                }
            },
            Layout::Literal(LiteralLayout::Id(l)) => {
                let mut o = head("id", l.input, l.intro, &l.dataset, &l.extra_properties);
                o["resource"] = pat(&l.resource);
                o["pattern"] = json!(l.pattern.is_some());
                o
            }
            Layout::Product(l) => {
                let mut o = head("record", l.input, l.intro, &l.dataset, &l.extra_properties);
                let mut fs = BTreeMap::new();
                for (k, f) in &l.fields {
                    let mut c = self.comp(f.intro, &f.value, &f.dataset);
                    c["required"] = json!(f.required);
                    let k = match serde_json::to_value(k).unwrap() {
                        J::String(s) => s,
                        o => format!("not a string: {o}"),
                    };
                    fs.insert(k, c);
                }
                o["fields"] = json!(fs);
                o
            }
            Layout::Sum(l) => {
                let mut o = head("sum", l.input, l.intro, &l.dataset, &l.extra_properties);
                let mut vs = BTreeMap::new();
                for v in &l.variants {
                    if vs.insert(v.name.clone(), self.comp(v.intro, &v.value, &v.dataset)).is_some() {
                        self.bad.push(format!("variant {} twice", v.name));
                    }
                }
                o["variants"] = json!(vs);
                o
            }
            Layout::List(ListLayout::Ordered(l)) => {
                let mut o = head("list", l.input, l.intro, &l.dataset, &l.extra_properties);
                o["head"] = pat(&l.head);
                o["tail"] = pat(&l.tail);
                o["node"] = self.comp(l.node.intro, &l.node.value, &l.node.dataset);
                o
            }
            Layout::List(ListLayout::Unordered(l)) => {
                let mut o = head("set", l.input, l.intro, &l.dataset, &l.extra_properties);
                o["item"] = self.comp(l.item.intro, &l.item.value, &l.item.dataset);
                o
            }
            Layout::List(ListLayout::Sized(l)) => {
                let mut o = head("tuple", l.input, l.intro, &l.dataset, &l.extra_properties);
                let items: Vec<J> = l.items.iter().map(|i| self.comp(i.intro, &i.value, &i.dataset)).collect();
                o["items"] = json!(items);
                o
            }
        }
    }
}

/// Canonical form of a compiled collection: the main layout and the named ones.
pub fn decompile(layouts: &Layouts, main: &tl::Ref<tl::layout::LayoutType>) -> Result<(J, BTreeMap<String, J>), String> {
    let mut d = Dec { layouts, seen: BTreeSet::new(), bad: vec![] };
    let main = d.reference(main);
    let mut named = BTreeMap::new();
    for (r, l) in layouts {
        if let Term::Id(rdf_types::Id::Iri(i)) = r.id() {
            let l = d.layout(l);
            named.insert(i.to_string(), l);
        }
    }
    let anon = layouts.iter().filter(|(r, _)| matches!(r.id(), Term::Id(rdf_types::Id::Blank(_)))).count();
    if anon != d.seen.len() {
        d.bad.push(format!("{anon} anonymous layouts defined, {} reachable", d.seen.len()));
    }
    if d.bad.is_empty() {
        Ok((main, named))
    } else {
        Err(d.bad.join("; "))
    }
}

pub fn kind(e: &BuildError) -> E {
    match e {
        BuildError::NoBaseIri(_) => E::NoBase,
        BuildError::InvalidIri(_) => E::BadIri,
        BuildError::UndeclaredVariable(_) => E::Undeclared,
        BuildError::LayoutRedefinition => E::Redefined,
        BuildError::MissingLiteralTargetResource => E::NoTarget,
        BuildError::NoPropertySubject => E::NoSubject,
        BuildError::NoPropertyObject => E::NoObject,
        BuildError::UnsupportedLayoutType(_) => E::Unsupported,
    }
}

/// Reference compilation of a definition.
pub fn reference(doc: &J) -> Result<(J, BTreeMap<String, J>), BTreeSet<E>> {
    let mut c = Comp::default();
    let main = c.layout(doc, &Sc::default());
    if c.errs.is_empty() {
        Ok((main, c.named))
    } else {
        Err(c.errs)
    }
}


pub fn check(ctx: &Ctx, key: &str, doc: &J) {
    if !ctx.begin(key) {
        return;
    }
    let def = match crate::real::parse_layout_serde(doc) {
        Ok(d) => d,
        Err(e) => {
            ctx.violate(key, "a well-formed definition is not read", json!({"definition": doc, "error": e}));
            return;
        }
    };
    ctx.state();
    let model = reference(doc);
    let real = ctx.guarded(|| {
        let mut b = tl::abs::Builder::new();
        let r = def.build(&mut b).map_err(|e| kind(&e))?;
        let layouts = b.build();
        Ok(decompile(&layouts, &r))
    });
    ctx.trace();
    let detail = |real: String| {
        json!({"definition": doc, "compiled": real, "expected": match &model {
            Ok((m, n)) => json!({"main": m, "named": n}),
            Err(e) => json!(format!("error among {e:?}")),
        }})
    };
    match (real, &model) {
        (Err(p), _) => ctx.violate(key, "compilation crashes", detail(p)),
        (Ok(Ok(Ok(r))), Ok(m)) if r == *m => {
            ctx.count("compiled", 1);
            ctx.sample(|| json!({"definition": doc}));
        }
        (Ok(Err(e)), Err(s)) if s.contains(&e) => ctx.count("rejected", 1),
        (Ok(r), _) => {
            let what = match &r {
                Ok(Ok(_)) if model.is_ok() => "the compiled layout differs from the reference resolution",
                Ok(Ok(_)) => "an invalid definition is compiled",
                Ok(Err(_)) => "the compiled collection is inconsistent",
                Err(_) if model.is_ok() => "a valid definition is rejected",
                Err(_) => "a definition is rejected for a reason it does not have",
            };
            let real = match r {
                Ok(Ok((m, n))) => json!({"main": m, "named": n}).to_string(),
                o => format!("{o:?}"),
            };
            ctx.violate(key, what, detail(real));
        }
    }
}

// ------------------------------------------------------------ enumeration

fn with(mut o: J, key: &str, v: &Option<J>) -> J {
    if let Some(v) = v {
        o[key] = v.clone();
    }
    o
}

fn opts(vs: &[&str]) -> Vec<Option<J>> {
    vs.iter().map(|v| if v.is_empty() { None } else { Some(serde_json::from_str(v).unwrap()) }).collect()
}

/// Definitions with one IRI occurrence each, at every position an IRI can
/// take, in an outer layout or in a layout nested in it.
fn iri_places(form: &str) -> Vec<(&'static str, J, J)> {
    // (name, additions to the outer record, inner layout)
    let s = || json!({"type": "string"});
    let lit = json!({"value": "v", "type": form});
    vec![
        ("outer-id", json!({ "id": form }), s()),
        ("outer-quad", json!({"dataset": [[form, form, form, form]]}), s()),
        ("outer-quad-lit", json!({"dataset": [["_:self", "http://e/p", lit]]}), s()),
        ("outer-extra-key", json!({"extra": {form: true, "http://e/n": 5, "http://e/m": -1, "http://e/s": "x"}}), s()),
        ("outer-extra-val", json!({"extra": {"http://e/x": lit}}), s()),
        ("field-property", json!({"fields": {"f": {"property": form, "value": s()}}}), s()),
        ("field-quad", json!({"fields": {"f": {"dataset": [["_:value", form, "_:self"]], "value": s()}}}), s()),
        ("value-input", json!({"fields": {"f": {"value": {"layout": s(), "input": [form]}}}}), s()),
        ("value-graph", json!({"fields": {"f": {"value": {"layout": s(), "graph": form}}}}), s()),
        ("layout-ref", json!({"fields": {"f": {"value": form}}}), s()),
        ("layout-ref-2", json!({"fields": {"f": {"value": {"layout": form}}}}), s()),
        ("inner-id", json!({}), json!({"type": "string", "id": form})),
        ("inner-quad", json!({}), json!({"type": "unit", "dataset": [["_:self", form, form]]})),
        ("inner-type", json!({}), json!({"type": "number", "datatype": form})),
        ("inner-bool", json!({}), json!({"type": "boolean", "datatype": form})),
        ("inner-bytes", json!({}), json!({"type": "bytes", "datatype": form, "resource": form})),
        ("inner-resource", json!({}), json!({"type": "id", "resource": form})),
        ("inner-extra", json!({}), json!({"type": "id", "extra": {form: lit}})),
        ("inner-head", json!({}), json!({"type": "list", "head": form, "node": s()})),
        ("inner-tail", json!({}), json!({"type": "list", "tail": form, "node": "http://e/l"})),
        ("inner-node", json!({}), json!({"type": "list", "node": form})),
        ("inner-node-2", json!({}), json!({"type": "list", "node": {"value": form, "dataset": [["_:head", form, "_:rest"]]}})),
        ("inner-set", json!({}), json!({"type": "set", "item": {"value": form, "property": form}})),
        ("inner-tuple", json!({}), json!({"type": "tuple", "items": [{"value": s(), "property": form}]})),
        ("inner-sum", json!({}), json!({"type": "sum", "variants": {"a": {"value": form}, "b": {"value": {"layout": form, "input": form, "graph": form}}}})),
        ("inner-sum-quad", json!({}), json!({"type": "sum", "variants": {"a": {"value": false, "dataset": [["_:self", form, form]]}}})),
    ]
}

fn iris(ctx: &Ctx) {
    let forms: Vec<&str> = if ctx.quick() {
        vec!["http://abs/a", "p:x", "r:x", "x/../y", "", "#f", "//h/k", "p:", "p:#f", "z:y", "p://h/x"]
    } else {
        vec![
            "http://abs/a", "p:x", "r:x", "s:x", "x/../y", "", "#f", "//h/k", "p:", "p:#f", "z:y", "?q", "/a/./b", "../..", "./p:x",
            "P:x", "http:x", "p:a/../b", "p:?q#f", "x?q#f", "p://h/x", "p:/x",
        ]
    };
    let bases = opts(&["", "\"http://b/\"", "\"http://b/x/y?q#f\"", "\"rel/\"", "\"p:b/\"", "\"urn:a:b\""]);
    let prefixes = opts(&[
        "",
        r#"{"p":"http://p/"}"#,
        r#"{"p":"rel#"}"#,
        r#"{"p":"q:x/","q":"http://q#"}"#,
        r#"{"r":"http://r?","p":"http://p#"}"#,
    ]);
    let in_bases = opts(&["", "\"../c/\"", "\"p:base/\"", "\"http://i/j\"", "\"r:\""]);
    let in_prefixes = opts(&["", r#"{"p":"http://pp/"}"#, r#"{"r":"p:r/"}"#, r#"{"p":"s"}"#, r#"{"p":"p:y/","r":"r:z/"}"#]);
    let mut headers = vec![];
    for (a, ob) in bases.iter().enumerate() {
        for (b, op) in prefixes.iter().enumerate() {
            for (c, ib) in in_bases.iter().enumerate() {
                for (d, ip) in in_prefixes.iter().enumerate() {
                    headers.push((format!("{a}{b}{c}{d}"), ob, op, ib, ip));
                }
            }
        }
    }
    ctx.par(&headers, |_, (hk, ob, op, ib, ip)| {
        for (fi, form) in forms.iter().enumerate() {
            for (place, add, inner) in iri_places(form) {
                if ctx.saturated() {
                    return;
                }
                let outer_only = place.starts_with("outer") || place.starts_with("field") || place.starts_with("value");
                if outer_only && (ib.is_some() || ip.is_some()) {
                    continue;
                }
                let inner = with(with(inner, "base", ib), "prefixes", ip);
                let mut doc = json!({"type": "record", "fields": {"in": {"value": inner}}});
                doc = with(with(doc, "base", ob), "prefixes", op);
                for (k, v) in add.as_object().unwrap() {
                    if k == "fields" {
                        for (fk, fv) in v.as_object().unwrap() {
                            doc["fields"][fk] = fv.clone();
                        }
                    } else {
                        doc[k] = v.clone();
                    }
                }
                check(ctx, &format!("iri|{hk}|{fi}|{place}"), &doc);
            }
        }
    });
}

/// Every placement of declarations and occurrences of variables over a small
/// set of names.
fn variables(ctx: &Ctx) {
    let inputs = opts(&["", "[]", "\"a\"", "[\"a\",\"self\"]", "[\"a\",\"a\"]"]);
    let intros = opts(&["", "\"a\"", "[\"value\",\"b\"]", "[\"self\"]", "[\"head\"]"]);
    let cintros = opts(&["", "[]", "\"a\"", "[\"self\",\"value\"]", "[\"a\",\"a\"]", "[\"b\",\"rest\"]"]);
    let values: Vec<J> = opts(&[
        "{\"type\":\"string\"}",
        "{\"layout\":{\"type\":\"string\"}}",
        "{\"layout\":\"http://e/l\",\"input\":\"_:a\",\"graph\":null}",
        "{\"layout\":true,\"input\":[\"_:self\",\"_:value\"],\"graph\":\"_:a\"}",
        "{\"layout\":false,\"input\":[],\"graph\":\"http://e/g\"}",
        "{\"layout\":\"http://e/l\",\"input\":[\"_:b\",\"http://e/c\"]}",
        "\"http://e/l\"",
        "false",
        // nested layouts do not see the variables of the enclosing one
        "{\"type\":\"unit\",\"dataset\":[[\"_:self\",\"http://e/p\",\"_:a\"]]}",
        "{\"type\":\"id\",\"input\":\"b\",\"resource\":\"_:value\"}",
        "{\"type\":\"id\",\"input\":\"b\",\"intro\":\"a\",\"resource\":\"_:a\"}",
        "{\"type\":\"record\",\"fields\":{\"g\":{\"property\":\"http://e/q\",\"value\":{\"layout\":{\"type\":\"string\"},\"input\":\"_:value\"}}}}",
        "{\"type\":\"list\",\"input\":\"a\",\"head\":\"_:a\",\"node\":{\"type\":\"string\"}}",
    ])
    .into_iter()
    .flatten()
    .collect();
    let cdatasets = opts(&[
        "",
        "[]",
        "[[\"_:self\",\"http://e/p\",\"_:value\"]]",
        "[[\"_:a\",\"_:b\",\"_:a\",\"_:self\"]]",
        "[[\"_:head\",\"http://e/p\",\"_:value\"],[\"_:head\",\"http://e/r\",\"_:rest\"]]",
    ]);
    let props = opts(&["", "\"http://e/p\"", "\"_:a\""]);
    let odatasets = opts(&["", "[[\"_:self\",\"http://e/o\",\"_:a\"]]", "[[\"_:value\",\"http://e/o\",\"_:a\"]]"]);
    let mut heads = vec![];
    for (a, i) in inputs.iter().enumerate() {
        for (b, n) in intros.iter().enumerate() {
            for (c, d) in odatasets.iter().enumerate() {
                heads.push((format!("{a}{b}{c}"), i, n, d));
            }
        }
    }
    ctx.par(&heads, |_, (hk, i, n, d)| {
        let head = |ty: &str| with(with(with(json!({ "type": ty }), "input", i), "intro", n), "dataset", d);
        for (ci, cintro) in cintros.iter().enumerate() {
            for (vi, value) in values.iter().enumerate() {
                for (di, cd) in cdatasets.iter().enumerate() {
                    let comp = with(with(json!({ "value": value }), "intro", cintro), "dataset", cd);
                    let k = format!("var|{hk}|{ci}|{vi}|{di}");
                    if ctx.saturated() {
                        return;
                    }
                    for (pi, prop) in props.iter().enumerate() {
                        let item = with(comp.clone(), "property", prop);
                        let mut l = head("record");
                        l["fields"] = json!({"f": item, "g": {"value": {"type": "id"}, "required": true}});
                        check(ctx, &format!("{k}|record{pi}"), &l);
                        let mut l = head("set");
                        l["item"] = item.clone();
                        check(ctx, &format!("{k}|set{pi}"), &l);
                        let mut l = head("tuple");
                        l["items"] = json!([item, {"value": {"type": "id"}}]);
                        check(ctx, &format!("{k}|tuple{pi}"), &l);
                        if !ctx.quick() {
                            l["items"] = json!([{"value": {"type": "id"}, "intro": ["value", "a"]}, item, item]);
                            check(ctx, &format!("{k}|tuple3{pi}"), &l);
                            let mut l = head("record");
                            l["fields"] = json!({"b": {"value": {"type": "id"}, "intro": ["value", "a"]}, "f": item, "z": item});
                            check(ctx, &format!("{k}|record3{pi}"), &l);
                        }
                    }
                    let mut l = head("sum");
                    l["variants"] = json!({"f": comp, "g": {"value": {"type": "id"}}});
                    check(ctx, &format!("{k}|sum"), &l);
                    let names = [(None, None), (Some("a"), None), (None, Some("a")), (Some("value"), Some("self")), (Some("rest"), Some("head"))];
                    for (ni, (h, r)) in names.iter().enumerate() {
                        let node = with(with(comp.clone(), "head", &h.map(|h| json!(h))), "rest", &r.map(|r| json!(r)));
                        let mut l = head("list");
                        l["node"] = node;
                        check(ctx, &format!("{k}|list{ni}"), &l);
                    }
                }
            }
        }
        for (vi, value) in values.iter().enumerate() {
            if value.get("layout").is_some() {
                continue;
            }
            let ends = opts(&["", "\"_:a\"", "\"http://e/n\"", "\"_:value\"", "{\"value\":\"v\",\"language\":\"en\"}"]);
            for (ei, e) in ends.iter().enumerate() {
                for (ti, t) in ends.iter().enumerate() {
                    let mut l = head("list");
                    l["node"] = value.clone();
                    check(ctx, &format!("list|{hk}|{vi}|{ei}|{ti}"), &with(with(l, "head", e), "tail", t));
                }
            }
        }
        let resources = opts(&["", "\"_:self\"", "\"_:a\"", "\"_:value\"", "\"http://e/r\"", "{\"value\":\"v\"}", "\"_:nope\""]);
        let datatypes = opts(&["", "\"http://e/d\"", "\"rel\""]);
        for (ri, r) in resources.iter().enumerate() {
            for ty in ["boolean", "number", "bytes", "string", "id", "unit"] {
                for (ti, t) in datatypes.iter().enumerate() {
                    let mut l = head(ty);
                    if ty != "unit" {
                        l = with(l, "resource", r);
                    } else {
                        l["const"] = json!({"k": [1, null, "s"]});
                    }
                    if ty != "unit" && ty != "id" {
                        if t.is_none() && (ty == "number" || ty == "bytes") {
                            continue;
                        }
                        l = with(l, "datatype", t);
                    }
                    if ti == 1 && (ty == "string" || ty == "id") {
                        l["pattern"] = json!("a*");
                    }
                    check(ctx, &format!("lit|{hk}|{ri}|{ty}|{ti}"), &l);
                }
            }
        }
    });
}

/// Identifiers of nested layouts, defined once or several times.
fn names(ctx: &Ctx) {
    let ids = opts(&["", "\"p:x\"", "\"http://p/x\"", "\"x\"", "\"http://p/y\""]);
    let mut all = vec![];
    for a in 0..ids.len() {
        for b in 0..ids.len() {
            for c in 0..ids.len() {
                for shape in 0..6 {
                    all.push((a, b, c, shape));
                }
            }
        }
    }
    ctx.par(&all, |_, &(a, b, c, shape)| {
        let l1 = with(json!({"type": "string"}), "id", &ids[b]);
        let l2 = with(json!({"type": "id", "base": "http://p/", "prefixes": {"p": "http://p/x/"}}), "id", &ids[c]);
        let body = match shape {
            0 => json!({"type": "record", "fields": {"a": {"value": l1}, "b": {"value": l2}, "c": {"value": "http://p/x"}}}),
            1 => json!({"type": "sum", "variants": {"a": {"value": l1}, "b": {"value": {"layout": l2}}}}),
            2 => json!({"type": "tuple", "items": [{"value": l1}, {"value": l2}, {"value": true}, {"value": false}]}),
            3 => json!({"type": "set", "item": {"value": with(json!({"type": "set", "item": {"value": l1}}), "id", &ids[c])}}),
            4 => json!({"type": "list", "node": with(json!({"type": "list", "node": {"value": {"layout": l1}}}), "id", &ids[c])}),
            _ => json!({"type": "record", "fields": {"u": {"value": with(json!({"type": if b == 0 { "union" } else { "intersection" }}), "id", &ids[b])}}}),
        };
        for (k, outer) in [json!({}), json!({"base": "http://p/"}), json!({"base": "http://p/", "prefixes": {"p": "http://p/"}})].iter().enumerate() {
            // the header of the collection's own layout does not apply to its identifier
            let mut l = with(body.clone(), "id", &ids[a]);
            for (hk, v) in outer.as_object().unwrap() {
                l[hk] = v.clone();
            }
            let wrap = json!({"type": "tuple", "base": "http://p/", "prefixes": {"p": "http://p/"}, "items": [{"value": l}]});
            check(ctx, &format!("name|{a}{b}{c}|{shape}|{k}"), &l);
            check(ctx, &format!("name|{a}{b}{c}|{shape}|{k}w"), &wrap);
        }
    });
}

pub fn c10(ctx: &Ctx) {
    iris(ctx);
    variables(ctx);
    names(ctx);
    check(ctx, "bool|true", &json!(true));
    check(ctx, "bool|false", &json!(false));
}
