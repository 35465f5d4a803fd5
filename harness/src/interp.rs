//! An interpretation recording what dehydration does to every resource.
use crate::model::*;
use crate::real::Real;
use iref::IriBuf;
use rdf_types::{
    interpretation::{ReverseIriInterpretation, ReverseIriInterpretationMut, ReverseLiteralInterpretation, ReverseLiteralInterpretationMut},
    Id, Interpretation, InterpretationMut, Literal, Term,
};
use std::collections::BTreeMap;
use treeldr_layouts as tl;

impl From<Term> for R {
    fn from(t: Term) -> R {
        R::T(t)
    }
}

#[derive(Default)]
pub struct Recorder {
    pub iris: BTreeMap<R, Vec<IriBuf>>,
    pub literals: BTreeMap<R, Vec<Literal>>,
    pub fresh: usize,
}

impl Interpretation for Recorder {
    type Resource = R;
}
impl InterpretationMut<()> for Recorder {
    fn new_resource(&mut self, _: &mut ()) -> R {
        self.fresh += 1;
        R::Fresh(self.fresh - 1)
    }
}
impl ReverseIriInterpretation for Recorder {
    type Iri = IriBuf;
    type Iris<'a> = std::vec::IntoIter<&'a IriBuf>;
    fn iris_of<'a>(&'a self, id: &'a R) -> Self::Iris<'a> {
        let mut v: Vec<&IriBuf> = vec![];
        if let R::T(Term::Id(Id::Iri(i))) = id {
            v.push(i);
        }
        v.extend(self.iris.get(id).into_iter().flatten());
        v.into_iter()
    }
}
impl ReverseIriInterpretationMut for Recorder {
    fn assign_iri(&mut self, id: &R, iri: IriBuf) -> bool {
        self.iris.entry(id.clone()).or_default().push(iri);
        true
    }
}
impl ReverseLiteralInterpretation for Recorder {
    type Literal = Literal;
    type Literals<'a> = std::vec::IntoIter<&'a Literal>;
    fn literals_of<'a>(&'a self, id: &'a R) -> Self::Literals<'a> {
        let mut v: Vec<&Literal> = vec![];
        if let R::T(Term::Literal(i)) = id {
            v.push(i);
        }
        v.extend(self.literals.get(id).into_iter().flatten());
        v.into_iter()
    }
}
impl ReverseLiteralInterpretationMut for Recorder {
    fn assign_literal(&mut self, id: &R, l: Literal) -> bool {
        self.literals.entry(id.clone()).or_default().push(l);
        true
    }
}

/// Dehydrates through the recorder, under graph `g`, from the given inputs.
pub fn dehydrate_rec(real: &Real, v: &tl::Value, g: Option<&R>, inputs: &[R]) -> Result<Out, String> {
    let mut rec = Recorder::default();
    let mut ds: rdf_types::dataset::BTreeDataset<R> = Default::default();
    let mut vocabulary = ();
    let mut rdf = tl::distill::RdfContextMut { vocabulary: &mut vocabulary, interpretation: &mut rec };
    tl::distill::dehydrate_with(&mut rdf, &real.layouts, v, g, &real.main, inputs, &mut ds).map_err(|e| e.to_string())?;
    let mut out = Out::default();
    for q in ds.iter() {
        out.quads.insert((q.0.clone(), q.1.clone(), q.2.clone(), q.3.cloned()));
    }
    for (r, ts) in rec.iris {
        out.assign.entry(r).or_default().extend(ts.into_iter().map(Term::iri));
    }
    for (r, ts) in rec.literals {
        out.assign.entry(r).or_default().extend(ts.into_iter().map(Term::Literal));
    }
    out.fresh = rec.fresh;
    Ok(out)
}
