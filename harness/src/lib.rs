//! Model-checking harness.
#![allow(dead_code)]

pub mod lits;
pub mod collect;
pub mod compile;
pub mod core;
pub mod dfam;
pub mod fam;
pub mod gfam;
pub mod graphs;
pub mod indep;
pub mod interp;
pub mod model;
pub mod pats;
pub mod real;
pub mod roundtrip;
pub mod rt;
pub mod rustc;
pub mod sums;
pub mod syntax;
pub mod regex;
pub mod automata;
pub mod values;
pub mod cbor;
pub mod cli;
pub mod vocab;
