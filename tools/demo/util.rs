#![allow(dead_code)]
pub use rdf_types::{dataset::IndexedBTreeDataset, Literal, LiteralType, Quad, Term};
pub use serde_json::json;
pub use treeldr_layouts::{abs, distill, layout::LayoutType, Layouts, Ref, Value};

pub fn iri(s: &str) -> Term { Term::iri(rdf_types::IriBuf::new(s.to_string()).unwrap()) }
pub fn term(s: &str) -> Term {
    if let Some(b) = s.strip_prefix("_:") { return Term::blank(rdf_types::BlankIdBuf::new(format!("_:{b}")).unwrap()); }
    if let Some(l) = s.strip_prefix('"') {
        let (v, t) = l.rsplit_once('"').unwrap();
        let t = if t.is_empty() { "http://www.w3.org/2001/XMLSchema#string".to_string() } else { t[2..].to_string() };
        return Term::Literal(Literal::new(v.to_string(), LiteralType::Any(rdf_types::IriBuf::new(t).unwrap())));
    }
    iri(s)
}
pub fn build(j: serde_json::Value) -> (Layouts, Ref<LayoutType>) {
    let mut b = abs::Builder::new();
    let l: abs::syntax::Layout = serde_json::from_value(j).unwrap();
    let r = l.build(&mut b).unwrap();
    (b.build(), r)
}
pub fn dataset(q: &[[&str; 4]]) -> IndexedBTreeDataset<Term> {
    q.iter().map(|q| Quad(term(q[0]), term(q[1]), term(q[2]), if q[3].is_empty() { None } else { Some(term(q[3])) })).collect()
}
/// The tree, or the error.
pub fn read(j: serde_json::Value, q: &[[&str; 4]], graph: Option<&str>, inputs: &[&str]) -> Result<Value, String> {
    let (layouts, r) = build(j);
    let inputs: Vec<Term> = inputs.iter().map(|i| term(i)).collect();
    let g = graph.map(term);
    distill::hydrate_with(&(), &(), &layouts, &dataset(q), g.as_ref(), &r, &inputs)
        .map(|v| v.into_untyped()).map_err(|e| e.to_string())
}
/// The statements and the input terms, or the error.
pub fn write(j: serde_json::Value, v: serde_json::Value) -> Result<(Vec<String>, Vec<String>), String> {
    let (layouts, r) = build(j);
    let v: Value = serde_json::from_value(v).unwrap();
    distill::dehydrate(&layouts, &v, &r, Default::default())
        .map(|(d, i)| (d.into_iter().map(|q| q.to_string()).collect(), i.iter().map(|t| t.to_string()).collect())).map_err(|e| e.to_string())
}
pub fn value(v: serde_json::Value) -> Value { serde_json::from_value(v).unwrap() }
