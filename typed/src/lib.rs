//! Values of derived types as trees, uniform access to their derived
//! implementations, and the exploration of these.
pub mod check;
pub use mc;

use mc::{
    model::Tree,
    real::FlatDs,
    vocab::{Part, Voc},
};
use num_rational::BigRational;
use num_traits::ToPrimitive;
use rdf_types::{dataset::BTreeDataset, Id};
use treeldr::{DeserializeLd, RdfContext, RdfContextMut, SerializeLd};

pub trait Glue: Sized {
    fn of(t: &Tree) -> Option<Self>;
    fn to(&self) -> Tree;
}

impl Glue for String {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    fn to(&self) -> Tree {
        Tree::Str(self.clone())
    }
}
impl Glue for bool {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Bool(b) => Some(*b),
            _ => None,
        }
    }
    fn to(&self) -> Tree {
        Tree::Bool(*self)
    }
}
impl Glue for Id {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Str(s) => iref::IriBuf::new(s.clone()).ok().map(Id::Iri),
            _ => None,
        }
    }
    fn to(&self) -> Tree {
        Tree::Str(self.to_string().trim_start_matches('<').trim_end_matches('>').to_owned())
    }
}
impl Glue for () {
    fn of(t: &Tree) -> Option<Self> {
        matches!(t, Tree::Unit).then_some(())
    }
    fn to(&self) -> Tree {
        Tree::Unit
    }
}
impl Glue for treeldr::Always {
    fn of(t: &Tree) -> Option<Self> {
        matches!(t, Tree::Unit).then_some(treeldr::Always)
    }
    fn to(&self) -> Tree {
        Tree::Unit
    }
}
impl Glue for treeldr::Never {
    fn of(_: &Tree) -> Option<Self> {
        None
    }
    fn to(&self) -> Tree {
        match *self {}
    }
}
macro_rules! int {
    ($($t:ty: $f:ident),*) => {$(
        impl Glue for $t {
            fn of(t: &Tree) -> Option<Self> {
                match t {
                    Tree::Num(r) if r.is_integer() => r.to_integer().$f(),
                    _ => None,
                }
            }
            fn to(&self) -> Tree {
                Tree::Num(BigRational::from_integer((*self).into()))
            }
        }
    )*};
}
int!(u8: to_u8, u16: to_u16, u32: to_u32, u64: to_u64, i8: to_i8, i16: to_i16, i32: to_i32, i64: to_i64);

#[macro_export]
macro_rules! leaf {
    ($t:ident) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                Some($t($crate::Glue::of(t)?))
            }
            fn to(&self) -> $crate::mc::model::Tree {
                $crate::Glue::to(&self.0)
            }
        }
    };
}
#[macro_export]
macro_rules! unit {
    ($t:ident) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                matches!(t, $crate::mc::model::Tree::Unit).then_some($t)
            }
            fn to(&self) -> $crate::mc::model::Tree {
                $crate::mc::model::Tree::Unit
            }
        }
    };
}
#[macro_export]
macro_rules! record {
    (@of req $m:ident $n:literal) => {
        $crate::Glue::of($m.get(&$crate::mc::model::s($n))?)?
    };
    (@of opt $m:ident $n:literal) => {
        match $m.get(&$crate::mc::model::s($n)) {
            Some(v) => Some($crate::Glue::of(v)?),
            None => None,
        }
    };
    (@to req $m:ident $n:literal $v:expr) => {
        $m.insert($crate::mc::model::s($n), $crate::Glue::to(&$v));
    };
    (@to opt $m:ident $n:literal $v:expr) => {
        if let Some(v) = &$v {
            $m.insert($crate::mc::model::s($n), $crate::Glue::to(v));
        }
    };
    ($t:ident $($f:ident $n:literal $r:ident),*) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                let $crate::mc::model::Tree::Map(m) = t else { return None };
                let names: &[&str] = &[$($n),*];
                if !m.keys().all(|k| matches!(k, $crate::mc::model::Tree::Str(k) if names.contains(&k.as_str()))) {
                    return None;
                }
                Some($t { $($f: $crate::record!(@of $r m $n)),* })
            }
            fn to(&self) -> $crate::mc::model::Tree {
                let mut m = std::collections::BTreeMap::new();
                $($crate::record!(@to $r m $n self.$f);)*
                $crate::mc::model::Tree::Map(m)
            }
        }
    };
}
#[macro_export]
macro_rules! sum {
    ($t:ident $($i:literal $v:ident),*) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                match t {
                    $($crate::mc::model::Tree::Var($i, v) => Some($t::$v($crate::Glue::of(v)?)),)*
                    _ => None,
                }
            }
            fn to(&self) -> $crate::mc::model::Tree {
                match self {
                    $($t::$v(v) => $crate::mc::model::Tree::Var($i, Box::new($crate::Glue::to(v))),)*
                }
            }
        }
    };
}
#[macro_export]
macro_rules! items {
    ($t:ident) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                let $crate::mc::model::Tree::List(l) = t else { return None };
                Some($t(l.iter().map($crate::Glue::of).collect::<Option<_>>()?))
            }
            fn to(&self) -> $crate::mc::model::Tree {
                $crate::mc::model::Tree::List(self.0.iter().map($crate::Glue::to).collect())
            }
        }
    };
}
#[macro_export]
macro_rules! tuple {
    ($t:ident $n:literal $($i:tt)*) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                let $crate::mc::model::Tree::List(l) = t else { return None };
                if l.len() != $n {
                    return None;
                }
                Some($t($($crate::Glue::of(&l[$i])?),*))
            }
            fn to(&self) -> $crate::mc::model::Tree {
                $crate::mc::model::Tree::List(vec![$($crate::Glue::to(&self.$i)),*])
            }
        }
    };
}

pub type De = fn(&Voc, &Part, &FlatDs<u32>, Option<&u32>, &[u32]) -> Result<Tree, String>;
pub type Ser = fn(&Tree, &mut Voc, &mut Part, &[u32], Option<&u32>, &mut BTreeDataset<u32>) -> Option<Result<(), String>>;

/// A derived type.
pub struct Ops {
    pub de: De,
    /// nothing if the tree is not a value of the type
    pub ser: Ser,
}

fn de<T, const N: usize>(voc: &Voc, part: &Part, ds: &FlatDs<u32>, g: Option<&u32>, inputs: &[u32]) -> Result<Tree, String>
where
    T: Glue + DeserializeLd<N, Voc, Part>,
{
    let inputs: &[u32; N] = inputs.try_into().unwrap();
    T::deserialize_ld_with(RdfContext::new(voc, part), ds, g, inputs).map(|v| v.to()).map_err(|e| e.to_string())
}

fn ser<T, const N: usize>(
    v: &Tree, voc: &mut Voc, part: &mut Part, inputs: &[u32], g: Option<&u32>, out: &mut BTreeDataset<u32>,
) -> Option<Result<(), String>>
where
    T: Glue + SerializeLd<N, Voc, Part>,
{
    let v = T::of(v)?;
    let inputs: &[u32; N] = inputs.try_into().unwrap();
    Some(v.serialize_ld_with(&mut RdfContextMut::new(voc, part), inputs, g, out).map_err(|e| match e {
        treeldr::SerializeError::InvalidId(i) => format!("invalid id {i}"),
        _ => "error".to_owned(),
    }))
}

pub const fn ops<T, const N: usize>() -> Ops
where
    T: Glue + DeserializeLd<N, Voc, Part> + SerializeLd<N, Voc, Part>,
{
    Ops { de: de::<T, N>, ser: ser::<T, N> }
}

/// The tree as a value of a type whose fields are private: what the reference
/// semantics writes, read by the type.
pub fn of_opaque<T, const N: usize>(sy: &mc::model::Sys, t: &Tree) -> Option<T>
where
    T: DeserializeLd<N, Voc, Part>,
{
    use mc::{model::*, vocab::World};
    let mut m = Out::default();
    let ins: Vec<R> = (0..N).map(R::In).collect();
    d_layout(&sy.named, &sy.main, t, None, &ins, &mut m).ok()?;
    let (mut voc, mut part) = World::start(&[], 0, false);
    for c in check::constants(sy) {
        World::res_in(&mut voc, &mut part, &c);
    }
    let mut known: std::collections::BTreeMap<R, u32> = Default::default();
    let mut res = |r: &R, voc: &mut Voc, part: &mut Part| match r {
        R::T(t) => World::res_in(voc, part, t),
        r => *known.entry(r.clone()).or_insert_with(|| rdf_types::InterpretationMut::new_resource(part, voc)),
    };
    let mut ds = vec![];
    for q in &m.quads {
        let mut x = |r: &R| res(r, &mut voc, &mut part);
        ds.push(rdf_types::Quad(x(&q.0), x(&q.1), x(&q.2), q.3.as_ref().map(x)));
    }
    for (r, ts) in &m.assign {
        let r = res(r, &mut voc, &mut part);
        for t in ts {
            part.attach(&mut voc, r, t);
        }
    }
    let ins: Vec<u32> = ins.iter().map(|r| res(r, &mut voc, &mut part)).collect();
    let ins: &[u32; N] = ins.as_slice().try_into().unwrap();
    T::deserialize_ld_with(RdfContext::new(&voc, &part), &FlatDs(ds), None, ins).ok()
}

/// The value of a type whose fields are private: what the type writes, read by
/// the reference semantics.
pub fn to_opaque<T, const N: usize>(sy: &mc::model::Sys, v: &T) -> Tree
where
    T: SerializeLd<N, Voc, Part>,
{
    use mc::{model::*, vocab::*};
    let (mut voc, mut part) = World::start(&[], 0, false);
    for c in check::constants(sy) {
        World::res_in(&mut voc, &mut part, &c);
    }
    let ins: Vec<u32> = (0..N).map(|_| rdf_types::InterpretationMut::new_resource(&mut part, &mut voc)).collect();
    part.assigned.clear();
    let mut ds = BTreeDataset::new();
    let failed = |what: &str| mc::model::s(&format!("a value that cannot be {what}"));
    let inputs: &[u32; N] = ins.as_slice().try_into().unwrap();
    if v.serialize_ld_with(&mut RdfContextMut::new(&mut voc, &mut part), inputs, None, &mut ds).is_err() {
        return failed("written");
    }
    let name = |r: u32| {
        part.assigned
            .iter()
            .find(|(x, _)| *x == r)
            .map(|(_, t)| match t {
                Ok(i) => rdf_types::Term::iri(rdf_types::vocabulary::IriVocabulary::iri(&voc, i).unwrap().to_owned()),
                Err(l) => lit_of(&voc, l),
            })
            .or_else(|| term_of(&voc, &part, r))
            .unwrap_or_else(|| blank(&format!("r{r}")))
    };
    let d: Ds = ds.iter().map(|q| (name(*q.0), name(*q.1), name(*q.2), q.3.map(|g| name(*g)))).collect();
    let ins: Vec<_> = ins.into_iter().map(name).collect();
    let mut hy = Hy::new(&sy.named, &d);
    hy.narrow = true;
    // a `Vec` is a list, in whatever order
    match hydrate_main(&mut hy, sy, None, &ins) {
        Ok(Tree::Bag(v)) => Tree::List(v),
        Ok(v) => v,
        Err(_) => failed("read"),
    }
}

/// Types whose fields are private.
#[macro_export]
macro_rules! opaque {
    ($t:ty, $n:literal, $s:expr) => {
        impl $crate::Glue for $t {
            fn of(t: &$crate::mc::model::Tree) -> Option<Self> {
                $crate::of_opaque::<$t, $n>(&$s, t)
            }
            fn to(&self) -> $crate::mc::model::Tree {
                $crate::to_opaque::<$t, $n>(&$s, self)
            }
        }
    };
}
