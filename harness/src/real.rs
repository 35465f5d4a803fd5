//! Driver of the real code.
use crate::model::*;
use rdf_types::Term;
use serde_json::Value as J;
use treeldr_layouts as tl;
use treeldr_layouts::{layout::LayoutType, Layouts, Ref};

pub struct Real {
    pub layouts: Layouts,
    pub main: Ref<LayoutType>,
}

pub fn parse_layout(j: &J) -> Result<tl::abs::syntax::Layout, String> {
    use json_syntax::{Parse, TryFromJson};
    let text = serde_json::to_string(j).unwrap();
    let (v, map) = json_syntax::Value::parse_str(&text).map_err(|e| format!("json: {e}"))?;
    tl::abs::syntax::Layout::try_from_json(&v, &map).map_err(|e| format!("{e}"))
}

pub fn parse_layout_serde(j: &J) -> Result<tl::abs::syntax::Layout, String> {
    serde_json::from_value(j.clone()).map_err(|e| e.to_string())
}

pub fn load(s: &Sys) -> Result<Real, String> {
    let mut builder = tl::abs::Builder::new();
    let mut main_named = None;
    for (n, l) in &s.named {
        let r = parse_layout_serde(&l.json())?.build(&mut builder).map_err(|e| e.to_string())?;
        if s.main.id.as_deref() == Some(n) {
            main_named = Some(r);
        }
    }
    let main = match main_named {
        Some(r) => r,
        None => parse_layout_serde(&s.main.json())?.build(&mut builder).map_err(|e| e.to_string())?,
    };
    Ok(Real { layouts: builder.build(), main })
}

pub fn herr<RR>(e: &tl::distill::hy::Error<RR>) -> HErr {
    use tl::distill::hy::Error as E;
    match e {
        E::IncompatibleLayout => HErr::Incompatible,
        E::InvalidInputCount { .. } => HErr::InputCount,
        E::DataAmbiguity(_) => HErr::Ambiguous,
        E::MissingData(_) => HErr::Missing,
        E::NoMatchingLiteral => HErr::NoLiteral,
        E::LayoutNotFound(_) => HErr::NotFound,
        _ => HErr::Any,
    }
}

impl Real {
    /// Hydrates from the indexed dataset the tools use, unless it cannot
    /// represent the data faithfully.
    pub fn hydrate(&self, ds: &Ds, g: Option<&Term>, inputs: &[Term]) -> Result<tl::TypedValue, HErr> {
        if ds.iter().any(repeats) {
            self.hydrate_in(&to_flat(ds), g, inputs)
        } else {
            self.hydrate_in(&to_indexed(ds), g, inputs)
        }
    }

    pub fn hydrate_in<D>(&self, ds: &D, g: Option<&Term>, inputs: &[Term]) -> Result<tl::TypedValue, HErr>
    where
        D: rdf_types::dataset::PatternMatchingDataset<Resource = Term>,
    {
        match g {
            None => tl::distill::hydrate(&self.layouts, ds, &self.main, inputs),
            Some(_) => tl::distill::hydrate_with(&(), &(), &self.layouts, ds, g, &self.main, inputs),
        }
        .map_err(|e| herr(&e))
    }

    pub fn dehydrate(&self, v: &tl::Value) -> Result<(Ds, Vec<Term>), String> {
        tl::distill::dehydrate(&self.layouts, v, &self.main, Default::default())
            .map(|(d, t)| (from_btree(&d), t))
            .map_err(|e| e.to_string())
    }
}

/// Does the real hydration outcome agree with the reference?
pub fn same_h(real: &Result<Tree, HErr>, model: &Result<Tree, HErrs>) -> bool {
    match (real, model) {
        (Ok(a), Ok(b)) => agree(a, b),
        (Err(e), Err(es)) => es.contains(&HErr::Any) || es.contains(e),
        _ => false,
    }
}

pub fn show_h(r: &Result<Tree, HErr>) -> String {
    match r {
        Ok(t) => t.show(),
        Err(e) => format!("error {e:?}"),
    }
}
pub fn show_m(r: &Result<Tree, HErrs>) -> String {
    match r {
        Ok(t) => t.show(),
        Err(e) => format!("error {e:?}"),
    }
}

/// A dataset without any index: a plain list of quads, filtered. Its
/// iteration order is the order of the list.
pub struct FlatDs<R>(pub Vec<rdf_types::Quad<R>>);

impl<R> rdf_types::dataset::Dataset for FlatDs<R> {
    type Resource = R;
}

impl<R: PartialEq> rdf_types::dataset::PatternMatchingDataset for FlatDs<R> {
    type QuadPatternMatching<'a, 'p>
        = std::vec::IntoIter<rdf_types::Quad<&'a R>>
    where
        R: 'a,
        R: 'p;

    fn quad_pattern_matching<'p>(
        &self,
        p: rdf_types::pattern::CanonicalQuadPattern<&'p R>,
    ) -> Self::QuadPatternMatching<'_, 'p> {
        use rdf_types::pattern::quad::canonical::*;
        let mut out = vec![];
        for q in &self.0 {
            let ok = (match p.subject() {
                PatternSubject::Any => true,
                PatternSubject::Given(t) => **t == q.0,
            }) && (match p.predicate() {
                PatternPredicate::Any => true,
                PatternPredicate::SameAsSubject => q.1 == q.0,
                PatternPredicate::Given(t) => **t == q.1,
            }) && (match p.object() {
                PatternObject::Any => true,
                PatternObject::SameAsSubject => q.2 == q.0,
                PatternObject::SameAsPredicate => q.2 == q.1,
                PatternObject::Given(t) => **t == q.2,
            }) && (match p.graph() {
                PatternGraph::Any => true,
                PatternGraph::SameAsSubject => q.3.as_ref() == Some(&q.0),
                PatternGraph::SameAsPredicate => q.3.as_ref() == Some(&q.1),
                PatternGraph::SameAsObject => q.3.as_ref() == Some(&q.2),
                PatternGraph::Given(t) => t.map(|t| *t) == q.3.as_ref(),
            });
            if ok {
                out.push(rdf_types::Quad(&q.0, &q.1, &q.2, q.3.as_ref()));
            }
        }
        out.into_iter()
    }
}

pub fn to_flat<'a>(ds: impl IntoIterator<Item = &'a Q4>) -> FlatDs<Term> {
    FlatDs(ds.into_iter().map(|q| rdf_types::Quad(q.0.clone(), q.1.clone(), q.2.clone(), q.3.clone())).collect())
}

/// rdf-types 0.22.5 loses quads repeating a new term when indexing.
pub fn repeats(q: &Q4) -> bool {
    let t = [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()];
    (0..4).any(|i| (0..i).any(|j| t[i].is_some() && t[i] == t[j]))
}
