// Written by `derive-mc --emit`; do not edit.
#![allow(dead_code, non_camel_case_types, unused_variables, unused_mut, unused_must_use)]
use typed::*;

#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, input("v0"), intro(), dataset(), resource("_:v0"))]
pub struct T0(treeldr::rdf_types::Id);
impl treeldr::AsId for T0 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro(), dataset(), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T1(String);
leaf!(T1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, prefix("ex" = "http://e/"))]
pub struct T2(bool);
leaf!(T2);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, input("v0"), intro(), dataset(), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#boolean"))]
pub struct T3(bool);
leaf!(T3);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro(), dataset(), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T4(i64);
leaf!(T4);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro(), dataset(), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T5(u8);
leaf!(T5);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T6;
unit!(T6);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro(), dataset())]
pub struct T7;
unit!(T7);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T8 {
	#[tldr("ex:q")] f: treeldr::rdf_types::Id,
}
record!(T8 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T9 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: T0,
}
record!(T9 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T10 {
	#[tldr("ex:q")] f: Option<treeldr::rdf_types::Id>,
}
record!(T10 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T11 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T0>,
}
record!(T11 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T12 {
	#[tldr("ex:q")] f: Option<treeldr::rdf_types::Id>,
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
}
record!(T12 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T13 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
}
record!(T13 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T14(#[tldr("ex:q")] Vec<treeldr::rdf_types::Id>);
items!(T14);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T15(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] Vec<T0>);
items!(T15);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T16(Vec<treeldr::rdf_types::Id>);
items!(T16);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T17(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T0>);
items!(T17);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T18(#[tldr("ex:q")] treeldr::rdf_types::Id, #[tldr("ex:r")] String);
tuple!(T18 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T19(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T0, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T1);
tuple!(T19 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T20 {
	#[tldr("ex:q")] f: String,
}
record!(T20 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T21 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: T1,
}
record!(T21 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T22 {
	#[tldr("ex:q")] f: Option<String>,
}
record!(T22 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T23 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T1>,
}
record!(T23 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T24 {
	#[tldr("ex:q")] f: Option<String>,
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
}
record!(T24 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T25 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T1>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
}
record!(T25 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T26(#[tldr("ex:q")] Vec<String>);
items!(T26);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T27(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] Vec<T1>);
items!(T27);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T28(Vec<String>);
items!(T28);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T29(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T1>);
items!(T29);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T30(#[tldr("ex:q")] String, #[tldr("ex:r")] String);
tuple!(T30 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T31(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T1, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T1);
tuple!(T31 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T32 {
	#[tldr("ex:q")] f: T2,
}
record!(T32 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T33 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: T3,
}
record!(T33 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T34 {
	#[tldr("ex:q")] f: Option<T2>,
}
record!(T34 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T35 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T3>,
}
record!(T35 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T36 {
	#[tldr("ex:q")] f: Option<T2>,
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
}
record!(T36 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T37 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T3>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
}
record!(T37 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T38(#[tldr("ex:q")] Vec<T2>);
items!(T38);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T39(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] Vec<T3>);
items!(T39);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T40(Vec<T2>);
items!(T40);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T41(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T3>);
items!(T41);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T42(#[tldr("ex:q")] T2, #[tldr("ex:r")] String);
tuple!(T42 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T43(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T3, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T1);
tuple!(T43 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T44 {
	#[tldr("ex:q")] f: i32,
}
record!(T44 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T45 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: T4,
}
record!(T45 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T46 {
	#[tldr("ex:q")] f: Option<i32>,
}
record!(T46 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T47 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T4>,
}
record!(T47 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T48 {
	#[tldr("ex:q")] f: Option<i32>,
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
}
record!(T48 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T49 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T4>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
}
record!(T49 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T50(#[tldr("ex:q")] Vec<i32>);
items!(T50);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T51(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] Vec<T4>);
items!(T51);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T52(Vec<i32>);
items!(T52);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T53(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T4>);
items!(T53);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T54(#[tldr("ex:q")] i32, #[tldr("ex:r")] String);
tuple!(T54 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T55(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T4, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T1);
tuple!(T55 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T56 {
	#[tldr("ex:q")] f: u8,
}
record!(T56 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T57 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: T5,
}
record!(T57 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T58 {
	#[tldr("ex:q")] f: Option<u8>,
}
record!(T58 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T59 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T5>,
}
record!(T59 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T60 {
	#[tldr("ex:q")] f: Option<u8>,
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
}
record!(T60 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T61 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T5>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
}
record!(T61 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T62(#[tldr("ex:q")] Vec<u8>);
items!(T62);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T63(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] Vec<T5>);
items!(T63);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T64(Vec<u8>);
items!(T64);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T65(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T5>);
items!(T65);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T66(#[tldr("ex:q")] u8, #[tldr("ex:r")] String);
tuple!(T66 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T67(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T5, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T1);
tuple!(T67 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T68 {
	#[tldr("ex:q")] f: T6,
}
record!(T68 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T69 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: T7,
}
record!(T69 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T70 {
	#[tldr("ex:q")] f: Option<T6>,
}
record!(T70 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T71 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T7>,
}
record!(T71 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T72 {
	#[tldr("ex:q")] f: Option<T6>,
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
}
record!(T72 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T73 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T7>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
}
record!(T73 f "f" opt, id "id" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T74(#[tldr("ex:q")] Vec<T6>);
items!(T74);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T75(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] Vec<T7>);
items!(T75);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T76(Vec<T6>);
items!(T76);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T77(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T7>);
items!(T77);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T78(#[tldr("ex:q")] T6, #[tldr("ex:r")] String);
tuple!(T78 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T79(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T7, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T1);
tuple!(T79 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T80 {
	#[tldr("ex:q")] g: Option<String>,
	#[tldr("ex:r")] h: i32,
}
record!(T80 g "g" opt, h "h" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T81 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] g: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] h: T4,
}
record!(T81 g "g" opt, h "h" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T82();
tuple!(T82 0 );
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T83();
tuple!(T83 0 );
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T84 {
}
record!(T84 );
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T85 {
}
record!(T85 );
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), dataset(("_:self", "ex:type", "ex:T")))]
pub struct T86 {
	#[tldr("ex:q")] f: Option<String>,
}
record!(T86 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset(("_:v0", "http://e/type", "http://e/T")))]
pub struct T87 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T1>,
}
record!(T87 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:via", "_:v1")))]
pub struct T88 {
	#[tldr(intro("v2"), dataset(("_:v1", "ex:q", "_:v2")), input("_:v2"))] f: String,
}
record!(T88 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/via", "_:v1")))]
pub struct T89 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/q", "_:v2")), input("_:v2"), graph(_))] f: T1,
}
record!(T89 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T90 {
	#[tldr(intro("v1", "v2"), dataset(("_:self", "ex:via", "_:v1"), ("_:v1", "ex:q", "_:v2")), input("_:v2"))] f: i32,
}
record!(T90 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T91 {
	#[tldr(intro("v1", "v2"), dataset(("_:v0", "http://e/via", "_:v1"), ("_:v1", "http://e/q", "_:v2")), input("_:v2"), graph(_))] f: T4,
}
record!(T91 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T92 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), input("_:self"))] b(treeldr::rdf_types::Id),
}
sum!(T92 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T93 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] a(T1),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] b(T0),
}
sum!(T93 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T94 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), input("_:self"))] b(i32),
	#[tldr(intro(), input("_:self"))] c(T2),
}
sum!(T94 0 a, 1 b, 2 c);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T95 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] a(T1),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] b(T4),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] c(T3),
}
sum!(T95 0 a, 1 b, 2 c);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T97 {
	#[tldr("ex:q")] x: String,
}
record!(T97 x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T98 {
	#[tldr("ex:r")] y: i32,
}
record!(T98 y "y" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T96 {
	#[tldr(intro(), input("_:self"))] a(T97),
	#[tldr(intro(), input("_:self"))] b(T98),
}
sum!(T96 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T100 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] x: T1,
}
record!(T100 x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T101 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] y: T4,
}
record!(T101 y "y" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T99 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] a(T100),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] b(T101),
}
sum!(T99 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T102 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] b(i32),
}
sum!(T102 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T103 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] a(T1),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] b(T4),
}
sum!(T103 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T104 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), input("_:self"))] b(T97),
}
sum!(T104 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T105 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] a(T1),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] b(T100),
}
sum!(T105 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), dataset(("_:self", "ex:q", "ex:mark")))]
pub struct T106;
unit!(T106);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro(), dataset(("_:v0", "http://e/q", "http://e/mark")))]
pub struct T107;
unit!(T107);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:q", "_:v1")), resource("_:v1"))]
pub struct T108(String);
leaf!(T108);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T109(String);
leaf!(T109);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), input("v0", "v1"))]
pub struct T110 {
	#[tldr(intro("v2"), dataset(("_:v0", "ex:q", "_:v2"), ("_:v1", "ex:r", "_:v2")), input("_:v2"))] f: String,
	#[tldr(intro(), input("_:v1"))] g: treeldr::rdf_types::Id,
}
record!(T110 f "f" req, g "g" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0", "v1"), intro(), dataset())]
pub struct T111 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/q", "_:v2"), ("_:v1", "http://e/r", "_:v2")), input("_:v2"), graph(_))] f: T1,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] g: T0,
}
record!(T111 f "f" req, g "g" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T112 {
	#[tldr("ex:p")] o: Option<T8>,
}
record!(T112 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T113 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T9>,
}
record!(T113 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T114(#[tldr("ex:p")] Vec<T10>);
items!(T114);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T115 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T13,
}
record!(T115 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T116(#[tldr("ex:s")] String, #[tldr("ex:p")] T12);
tuple!(T116 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T117(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T15>);
items!(T117);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T118 {
	#[tldr("ex:p")] o: T16,
}
record!(T118 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T119(#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] T1, #[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] T17);
tuple!(T119 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T120 {
	#[tldr("ex:p")] o: Option<T18>,
}
record!(T120 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T121 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T19>,
}
record!(T121 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T122(#[tldr("ex:p")] Vec<T20>);
items!(T122);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T123 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] m(T21),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n(T1),
}
sum!(T123 0 m, 1 n);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T124(Vec<T22>);
items!(T124);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T125 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T25>,
}
record!(T125 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T126 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T24>,
}
record!(T126 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T127(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T27>);
items!(T127);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T128 {
	#[tldr("ex:p")] o: Option<T28>,
}
record!(T128 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T129 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T29>,
}
record!(T129 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T130(#[tldr("ex:p")] Vec<T30>);
items!(T130);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T131 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] m(T31),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n(T1),
}
sum!(T131 0 m, 1 n);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T132(Vec<T32>);
items!(T132);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T133 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T35,
}
record!(T133 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T134(#[tldr("ex:s")] String, #[tldr("ex:p")] T34);
tuple!(T134 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T135(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T37>);
items!(T135);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T136 {
	#[tldr("ex:p")] o: T38,
}
record!(T136 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T137(#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] T1, #[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] T39);
tuple!(T137 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T138(#[tldr("ex:p")] Vec<T40>);
items!(T138);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T139 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] m(T41),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n(T1),
}
sum!(T139 0 m, 1 n);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T140(Vec<T42>);
items!(T140);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T141 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T45,
}
record!(T141 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T142(#[tldr("ex:s")] String, #[tldr("ex:p")] T44);
tuple!(T142 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T143 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T47>,
}
record!(T143 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T144 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T46>,
}
record!(T144 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T145(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T49>);
items!(T145);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T146 {
	#[tldr("ex:p")] o: Option<T50>,
}
record!(T146 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T147 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T51>,
}
record!(T147 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T148(Vec<T52>);
items!(T148);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T149 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T55,
}
record!(T149 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T150(#[tldr("ex:s")] String, #[tldr("ex:p")] T54);
tuple!(T150 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T151 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T57>,
}
record!(T151 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T152 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T56>,
}
record!(T152 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T153(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T59>);
items!(T153);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T154 {
	#[tldr("ex:p")] o: T60,
}
record!(T154 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T155(#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] T1, #[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] T61);
tuple!(T155 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T156(#[tldr("ex:p")] Vec<T62>);
items!(T156);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T157 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T65,
}
record!(T157 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T158(#[tldr("ex:s")] String, #[tldr("ex:p")] T64);
tuple!(T158 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T159 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T67>,
}
record!(T159 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T160 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T66>,
}
record!(T160 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T161(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T69>);
items!(T161);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T162 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"))] m(T68),
	#[tldr(intro("v1"), dataset(("_:self", "ex:s", "_:v1")), input("_:v1"))] n(String),
}
sum!(T162 0 m, 1 n);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T163(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T71>);
items!(T163);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T164 {
	#[tldr("ex:p")] o: Option<T72>,
}
record!(T164 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T165 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T73>,
}
record!(T165 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T166(Vec<T74>);
items!(T166);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T167 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T77>,
}
record!(T167 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T168 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T76>,
}
record!(T168 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T169(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T79>);
items!(T169);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T170 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"))] m(T78),
	#[tldr(intro("v1"), dataset(("_:self", "ex:s", "_:v1")), input("_:v1"))] n(String),
}
sum!(T170 0 m, 1 n);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T171(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T81>);
items!(T171);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T172 {
	#[tldr("ex:p")] o: Option<T82>,
}
record!(T172 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T173 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T83>,
}
record!(T173 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T174(Vec<T84>);
items!(T174);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T175 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T87>,
}
record!(T175 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T176 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T86>,
}
record!(T176 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T177(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T89>);
items!(T177);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T178 {
	#[tldr("ex:p")] o: Option<T90>,
}
record!(T178 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T179 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T91>,
}
record!(T179 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T180(Vec<T92>);
items!(T180);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T181 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T95>,
}
record!(T181 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T182 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T94>,
}
record!(T182 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T183(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T99>);
items!(T183);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T184 {
	#[tldr("ex:p")] o: Option<T102>,
}
record!(T184 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T185 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] n: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T103>,
}
record!(T185 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T186(Vec<T104>);
items!(T186);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T187 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: Option<T107>,
}
record!(T187 o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T188 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:s")] n: Option<String>,
	#[tldr("ex:p")] o: Option<T106>,
}
record!(T188 id "id" req, n "n" opt, o "o" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T189(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T109>);
items!(T189);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, prefix("ex" = "http://e/"), dataset(("_:self", "ex:p", "_:self")))]
pub struct T190(treeldr::rdf_types::Id);
impl treeldr::AsId for T190 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T190);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, input("v0"), intro(), dataset(("_:v0", "http://e/p", "_:v0")), resource("_:v0"))]
pub struct T191(treeldr::rdf_types::Id);
impl treeldr::AsId for T191 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T191);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), dataset(("_:self", "ex:p", "_:self")))]
pub struct T192(String);
leaf!(T192);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro(), dataset(("_:v0", "http://e/p", "_:v0")), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T193(String);
leaf!(T193);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, prefix("ex" = "http://e/"), dataset(("_:self", "ex:p", "_:self")))]
pub struct T194(bool);
leaf!(T194);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, input("v0"), intro(), dataset(("_:v0", "http://e/p", "_:v0")), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#boolean"))]
pub struct T195(bool);
leaf!(T195);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), dataset(("_:self", "ex:p", "_:self")), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T196(i64);
leaf!(T196);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro(), dataset(("_:v0", "http://e/p", "_:v0")), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T197(i64);
leaf!(T197);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), dataset(("_:self", "ex:p", "_:self")), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T198(u8);
leaf!(T198);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro(), dataset(("_:v0", "http://e/p", "_:v0")), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T199(u8);
leaf!(T199);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), dataset(("_:self", "ex:p", "_:self")))]
pub struct T200;
unit!(T200);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro(), dataset(("_:v0", "http://e/p", "_:v0")))]
pub struct T201;
unit!(T201);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), datatype("http://e/dt"))]
pub struct T202(String);
leaf!(T202);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro(), dataset(), resource("_:v0"), datatype("http://e/dt"))]
pub struct T203(String);
leaf!(T203);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, prefix("ex" = "http://e/"), resource("ex:k"))]
pub struct T204(treeldr::rdf_types::Id);
impl treeldr::AsId for T204 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T204);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, input("v0"), intro(), dataset(), resource("http://e/k"))]
pub struct T205(treeldr::rdf_types::Id);
impl treeldr::AsId for T205 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T205);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")), resource("_:v1"))]
pub struct T206(treeldr::rdf_types::Id);
impl treeldr::AsId for T206 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T206);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), resource("_:v1"))]
pub struct T207(treeldr::rdf_types::Id);
impl treeldr::AsId for T207 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T207);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, prefix("ex" = "http://e/"), intro("v1", "v2"), dataset(("_:self", "ex:p", "_:v1"), ("_:v1", "ex:q", "_:v2")), resource("_:v2"))]
pub struct T208(treeldr::rdf_types::Id);
impl treeldr::AsId for T208 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T208);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/q", "_:v2")), resource("_:v2"))]
pub struct T209(treeldr::rdf_types::Id);
impl treeldr::AsId for T209 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T209);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")), resource("_:v1"))]
pub struct T210(String);
leaf!(T210);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T211(String);
leaf!(T211);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), intro("v1", "v2"), dataset(("_:self", "ex:p", "_:v1"), ("_:v1", "ex:q", "_:v2")), resource("_:v2"))]
pub struct T212(String);
leaf!(T212);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/q", "_:v2")), resource("_:v2"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T213(String);
leaf!(T213);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")), resource("_:v1"))]
pub struct T214(bool);
leaf!(T214);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#boolean"))]
pub struct T215(bool);
leaf!(T215);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, prefix("ex" = "http://e/"), intro("v1", "v2"), dataset(("_:self", "ex:p", "_:v1"), ("_:v1", "ex:q", "_:v2")), resource("_:v2"))]
pub struct T216(bool);
leaf!(T216);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(boolean, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/q", "_:v2")), resource("_:v2"), datatype("http://www.w3.org/2001/XMLSchema#boolean"))]
pub struct T217(bool);
leaf!(T217);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T218(i64);
leaf!(T218);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T219(i64);
leaf!(T219);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), intro("v1", "v2"), dataset(("_:self", "ex:p", "_:v1"), ("_:v1", "ex:q", "_:v2")), resource("_:v2"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T220(i64);
leaf!(T220);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/q", "_:v2")), resource("_:v2"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T221(i64);
leaf!(T221);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T222(u8);
leaf!(T222);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T223(u8);
leaf!(T223);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), intro("v1", "v2"), dataset(("_:self", "ex:p", "_:v1"), ("_:v1", "ex:q", "_:v2")), resource("_:v2"), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T224(u8);
leaf!(T224);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/q", "_:v2")), resource("_:v2"), datatype("http://www.w3.org/2001/XMLSchema#unsignedByte"))]
pub struct T225(u8);
leaf!(T225);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")))]
pub struct T226;
unit!(T226);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T227;
unit!(T227);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), intro("v1", "v2"), dataset(("_:self", "ex:p", "_:v1"), ("_:v1", "ex:q", "_:v2")))]
pub struct T228;
unit!(T228);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/q", "_:v2")))]
pub struct T229;
unit!(T229);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), input("v0", "v1"))]
pub struct T231 {
	#[tldr(intro("v2"), dataset(("_:v0", "ex:q", "_:v2")), input("_:v2"))] a: String,
	#[tldr(intro("v2"), dataset(("_:v1", "ex:r", "_:v2")), input("_:v2"))] b: Option<String>,
}
record!(T231 a "a" req, b "b" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T230 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:self", "_:v1"))] f: T231,
}
record!(T230 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0", "v1"), intro(), dataset())]
pub struct T233 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/q", "_:v2")), input("_:v2"), graph(_))] a: T1,
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/r", "_:v2")), input("_:v2"), graph(_))] b: Option<T1>,
}
record!(T233 a "a" req, b "b" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T232 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0", "_:v1"), graph(_))] f: T233,
}
record!(T232 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T234(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:self", "_:v1"))] T231);
tuple!(T234 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T235(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0", "_:v1"), graph(_))] T233);
tuple!(T235 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T236(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:self", "_:v1"))] Vec<T231>);
items!(T236);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T237(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0", "_:v1"), graph(_))] Vec<T233>);
items!(T237);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T238 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:self", "_:v1"))] a(T231),
}
sum!(T238 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T239 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0", "_:v1"), graph(_))] a(T233),
}
sum!(T239 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T240 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1", "_:self"))] f: T231,
}
record!(T240 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T241 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1", "_:v0"), graph(_))] f: T233,
}
record!(T241 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T242(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1", "_:self"))] T231);
tuple!(T242 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T243(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1", "_:v0"), graph(_))] T233);
tuple!(T243 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T244(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1", "_:self"))] Vec<T231>);
items!(T244);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T245(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1", "_:v0"), graph(_))] Vec<T233>);
items!(T245);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T246 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1", "_:self"))] a(T231),
}
sum!(T246 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T247 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1", "_:v0"), graph(_))] a(T233),
}
sum!(T247 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T248 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("ex:a", "_:v1"))] f: T231,
}
record!(T248 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T249 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("http://e/a", "_:v1"), graph(_))] f: T233,
}
record!(T249 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T250(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("ex:a", "_:v1"))] T231);
tuple!(T250 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T251(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("http://e/a", "_:v1"), graph(_))] T233);
tuple!(T251 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T252(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("ex:a", "_:v1"))] Vec<T231>);
items!(T252);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T253(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("http://e/a", "_:v1"), graph(_))] Vec<T233>);
items!(T253);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T254 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("ex:a", "_:v1"))] a(T231),
}
sum!(T254 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T255 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("http://e/a", "_:v1"), graph(_))] a(T233),
}
sum!(T255 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T256 {
	#[tldr(intro(), input("_:self", "_:self"))] f: T231,
}
record!(T256 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T257 {
	#[tldr(intro(), dataset(), input("_:v0", "_:v0"), graph(_))] f: T233,
}
record!(T257 f "f" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T258(#[tldr(intro(), input("_:self", "_:self"))] T231);
tuple!(T258 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T259(#[tldr(intro(), dataset(), input("_:v0", "_:v0"), graph(_))] T233);
tuple!(T259 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T260(#[tldr(intro(), input("_:self", "_:self"))] Vec<T231>);
items!(T260);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T261(#[tldr(intro(), dataset(), input("_:v0", "_:v0"), graph(_))] Vec<T233>);
items!(T261);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T262 {
	#[tldr(intro(), input("_:self", "_:self"))] a(T231),
}
sum!(T262 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T263 {
	#[tldr(intro(), dataset(), input("_:v0", "_:v0"), graph(_))] a(T233),
}
sum!(T263 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T264 {
	#[tldr("ex:q")] f: Option<String>,
	#[tldr("ex:q")] g: String,
}
record!(T264 f "f" opt, g "g" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T265 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] f: Option<T1>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] g: T1,
}
record!(T265 f "f" opt, g "g" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T266 {
	#[tldr(intro("v1"), input("_:v1"))] f: Option<String>,
}
record!(T266 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T267 {
	#[tldr(intro("v1"), dataset(), input("_:v1"), graph(_))] f: Option<T1>,
}
record!(T267 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T268(#[tldr(intro("v1"), input("_:v1"))] Vec<String>);
items!(T268);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T269(#[tldr(intro("v1"), dataset(), input("_:v1"), graph(_))] Vec<T1>);
items!(T269);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T270(#[tldr(intro("v1"), input("_:v1"))] treeldr::rdf_types::Id);
tuple!(T270 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T271(#[tldr(intro("v1"), dataset(), input("_:v1"), graph(_))] T0);
tuple!(T271 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), intro("v1"), resource("_:v1"))]
pub struct T272(String);
leaf!(T272);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro("v1"), dataset(), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T273(String);
leaf!(T273);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, prefix("ex" = "http://e/"), intro("v1"), resource("_:v1"))]
pub struct T274(treeldr::rdf_types::Id);
impl treeldr::AsId for T274 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T274);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(id, input("v0"), intro("v1"), dataset(), resource("_:v1"))]
pub struct T275(treeldr::rdf_types::Id);
impl treeldr::AsId for T275 { fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> { self.0.as_id() } }
leaf!(T275);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, prefix("ex" = "http://e/"), intro("v1"), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T276(i64);
leaf!(T276);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(number, input("v0"), intro("v1"), dataset(), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#integer"))]
pub struct T277(i64);
leaf!(T277);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"), intro("v1"), tail("_:v1"))]
pub struct T278(Vec<String>);
items!(T278);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(), head("_:v0"), tail("_:v1"))]
pub struct T279(#[tldr(head("v2"), rest("v3"), intro("v4"), dataset(("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v4"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v4"), graph(_))] Vec<T1>);
items!(T279);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T280(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3")), input("_:v3"))] Vec<String>);
items!(T280);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T281(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3")), input("_:v3"), graph(_))] Vec<T1>);
items!(T281);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"))]
pub struct T282(#[tldr(head("v1"), rest("v2"), intro(), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v1"))] Vec<treeldr::rdf_types::Id>);
items!(T282);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T283(#[tldr(head("v1"), rest("v2"), intro(), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v1"), graph(_))] Vec<T0>);
items!(T283);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, prefix("ex" = "http://e/"), head("ex:b"), tail("_:self"))]
pub struct T284(Vec<treeldr::rdf_types::Id>);
items!(T284);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("http://e/b"), tail("_:v0"))]
pub struct T285(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T0>);
items!(T285);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T286 {
	#[tldr(intro(), input("_:self"))] f: Option<treeldr::rdf_types::Id>,
	#[tldr(intro(), input("_:self"))] g: Option<treeldr::rdf_types::Id>,
}
record!(T286 f "f" opt, g "g" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T287 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] g: Option<T0>,
}
record!(T287 f "f" opt, g "g" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T288 {
	#[tldr(intro(), input("_:self"))] f: Option<treeldr::rdf_types::Id>,
	#[tldr(intro(), input("_:self"))] g: Option<String>,
}
record!(T288 f "f" opt, g "g" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T289 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] g: Option<T1>,
}
record!(T289 f "f" opt, g "g" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T290 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), input("_:self"))] b(String),
	#[tldr(intro(), input("_:self"))] c(i32),
}
sum!(T290 0 a, 1 b, 2 c);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T291 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] a(T1),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] b(T1),
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] c(T4),
}
sum!(T291 0 a, 1 b, 2 c);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T292 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T292 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T293 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T1),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] b(T0),
}
sum!(T293 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:p", "_:v1")))]
pub enum T294 {
	#[tldr(intro("v2"), dataset(("_:v1", "ex:q", "_:v2")), input("_:v2"))] a(String),
	#[tldr(intro("v2"), dataset(("_:v1", "ex:r", "_:v2")), input("_:v2"))] b(String),
}
sum!(T294 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub enum T295 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/q", "_:v2")), input("_:v2"), graph(_))] a(T1),
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/r", "_:v2")), input("_:v2"), graph(_))] b(T1),
}
sum!(T295 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T296 {
	#[tldr(intro("v1", "v2"), dataset(("_:self", "_:v1", "_:v2")), input("_:v1"))] f: Option<treeldr::rdf_types::Id>,
}
record!(T296 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T297 {
	#[tldr(intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v1"), graph(_))] f: Option<T0>,
}
record!(T297 f "f" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T298(#[tldr("ex:p")] Vec<T298>);
items!(T298);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T299(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T299>);
items!(T299);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T300(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] T1, #[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1")), input("_:v1"), graph(_))] T4);
tuple!(T300 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T301 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "ex:g")), input("_:v1"))] x: String,
}
record!(T301 x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T302 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "http://e/g")), input("_:v1"), graph(_))] a(T1),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1", "http://e/g")), input("_:v1"), graph(_))] b(T4),
}
sum!(T302 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T303 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "_:self")), input("_:v1"))] x: String,
}
record!(T303 x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T304 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "_:v0")), input("_:v1"), graph(_))] a(T1),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/r", "_:v1", "_:v0")), input("_:v1"), graph(_))] b(T4),
}
sum!(T304 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T305(#[tldr("ex:p")] Vec<T108>);
items!(T305);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T306(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T108>);
items!(T306);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T307(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T109>);
items!(T307);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T308(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T108>);
items!(T308);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T309(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T109>);
items!(T309);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T310(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T108>);
items!(T310);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T311(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T109>);
items!(T311);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T312(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T108>);
items!(T312);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T313 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(_))] o: T109,
}
record!(T313 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T314 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(Some("_:self")))] o: T108,
}
record!(T314 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T315 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(None))] o: T109,
}
record!(T315 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T316 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("_:v1")))] o: T108,
}
record!(T316 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T317 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T100),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T317 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T318(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T100>);
items!(T318);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T319 {
	#[tldr(intro(), input("_:self"))] o: T97,
}
record!(T319 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T320 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] a(T100),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T320 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T321(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T100>);
items!(T321);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T322 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T97,
}
record!(T322 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T323 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T100),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T323 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T324(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T100>);
items!(T324);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T325 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T97,
}
record!(T325 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T326 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a(T100),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T326 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T327(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T100>);
items!(T327);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T328 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T97,
}
record!(T328 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T329 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T100),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T329 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T330 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(None))] o: T97,
}
record!(T330 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T331 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(Some("_:v1")))] o: T100,
}
record!(T331 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T332 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("ex:g")))] o: T97,
}
record!(T332 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T334 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] x: Option<T1>,
}
record!(T334 id "id" req, x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T333 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T334,
}
record!(T333 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T336 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:q")] x: Option<String>,
}
record!(T336 id "id" req, x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T335(#[tldr("ex:p")] T336);
tuple!(T335 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T337(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T334>);
items!(T337);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T338 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T334,
}
record!(T338 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T339(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] T336);
tuple!(T339 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T340(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T334>);
items!(T340);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T341 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T334,
}
record!(T341 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T342(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T336);
tuple!(T342 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T343(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T334>);
items!(T343);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T344 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T334,
}
record!(T344 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T345(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] T336);
tuple!(T345 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T346(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T334>);
items!(T346);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T347 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T334,
}
record!(T347 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T348(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T336);
tuple!(T348 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T349 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(Some("http://e/g")))] o: T334,
}
record!(T349 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T350 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"))] o: T336,
}
record!(T350 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T351 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(Some("_:v0")))] o: T334,
}
record!(T351 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T352(#[tldr("ex:p")] Vec<T26>);
items!(T352);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T353(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T26>);
items!(T353);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T354(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T27>);
items!(T354);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T355(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T26>);
items!(T355);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T356(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T27>);
items!(T356);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T357(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T26>);
items!(T357);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T358(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T27>);
items!(T358);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T359(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T26>);
items!(T359);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T360 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(_))] o: T27,
}
record!(T360 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T361 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(Some("_:self")))] o: T26,
}
record!(T361 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T362 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(None))] o: T27,
}
record!(T362 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T363 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("_:v1")))] o: T26,
}
record!(T363 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T364 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T103),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T364 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T365(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T103>);
items!(T365);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T366 {
	#[tldr(intro(), input("_:self"))] o: T102,
}
record!(T366 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T367 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] a(T103),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T367 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T368(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T103>);
items!(T368);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T369 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T102,
}
record!(T369 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T370 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T103),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T370 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T371(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T103>);
items!(T371);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T372 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T102,
}
record!(T372 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T373 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a(T103),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T373 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T374(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T103>);
items!(T374);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T375 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T102,
}
record!(T375 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T376 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T103),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T376 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T377 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(None))] o: T102,
}
record!(T377 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T378 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(Some("_:v1")))] o: T103,
}
record!(T378 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T379 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("ex:g")))] o: T102,
}
record!(T379 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro(), dataset(("_:v0", "http://e/q", "http://e/m")))]
pub struct T381;
unit!(T381);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T380 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T381,
}
record!(T380 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), dataset(("_:self", "ex:q", "ex:m")))]
pub struct T383;
unit!(T383);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T382(#[tldr("ex:p")] T383);
tuple!(T382 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T384(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T381>);
items!(T384);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T385 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T381,
}
record!(T385 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T386(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] T383);
tuple!(T386 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T387(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T381>);
items!(T387);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T388 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T381,
}
record!(T388 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T389(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T383);
tuple!(T389 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T390(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T381>);
items!(T390);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T391 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T381,
}
record!(T391 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T392(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] T383);
tuple!(T392 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T393(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T381>);
items!(T393);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T394 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T381,
}
record!(T394 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T395(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T383);
tuple!(T395 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T396 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(Some("http://e/g")))] o: T381,
}
record!(T396 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T397 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"))] o: T383,
}
record!(T397 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T398 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(Some("_:v0")))] o: T381,
}
record!(T398 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T400(#[tldr("ex:q")] String, #[tldr("ex:r")] i32);
tuple!(T400 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T399(#[tldr("ex:p")] Vec<T400>);
items!(T399);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T401(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T300>);
items!(T401);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T402(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T400>);
items!(T402);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T403(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T300>);
items!(T403);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T404(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T400>);
items!(T404);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T405(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T300>);
items!(T405);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T406(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T400>);
items!(T406);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T407(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T300>);
items!(T407);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T408(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T400>);
items!(T408);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T409 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(_))] o: T300,
}
record!(T409 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T410 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(Some("_:self")))] o: T400,
}
record!(T410 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T411 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(None))] o: T300,
}
record!(T411 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T412 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("_:v1")))] o: T400,
}
record!(T412 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T413 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T29,
}
record!(T413 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T414(#[tldr("ex:p")] Vec<T28>);
items!(T414);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T415 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T29),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T415 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T416(#[tldr("ex:p")] T28);
tuple!(T416 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T417 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] o: T29,
}
record!(T417 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T418 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] o: T28,
}
record!(T418 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T419(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] Vec<T29>);
items!(T419);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T420 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] a(T28),
	#[tldr(intro("v1"), dataset(("_:self", "ex:s", "_:v1")), input("_:v1"))] b(String),
}
sum!(T420 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T421(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] T29);
tuple!(T421 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T422 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T28,
}
record!(T422 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T423 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T29,
}
record!(T423 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T424(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T28>);
items!(T424);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T425 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T29),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T425 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T426(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T28);
tuple!(T426 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T427 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(Some("http://e/g")))] o: T29,
}
record!(T427 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T428 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] o: T28,
}
record!(T428 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T429(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] Vec<T29>);
items!(T429);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T430 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] a(T28),
	#[tldr(intro("v1"), dataset(("_:self", "ex:s", "_:v1")), input("_:v1"))] b(String),
}
sum!(T430 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro(), dataset())]
pub struct T431(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] T29);
tuple!(T431 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T432 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T28,
}
record!(T432 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T433 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T29,
}
record!(T433 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T434(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T28>);
items!(T434);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T435 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T29),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T435 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T436(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T28);
tuple!(T436 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T437 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(_))] o: T29,
}
record!(T437 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T438 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(None))] o: T28,
}
record!(T438 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T439 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(Some("http://e/g")))] o: T29,
}
record!(T439 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T440 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "ex:g")), input("_:v1"), graph(Some("_:self")))] o: T28,
}
record!(T440 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T441 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), input("_:v1"), graph(Some("_:v1")))] o: T29,
}
record!(T441 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T442 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"))] o: T28,
}
record!(T442 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T443 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(None))] o: T29,
}
record!(T443 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T444 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("ex:g")))] o: T28,
}
record!(T444 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T445 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v0")), input("_:v1"), graph(Some("_:v0")))] o: T29,
}
record!(T445 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T446 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1", "_:self")), input("_:v1"), graph(Some("_:v1")))] o: T28,
}
record!(T446 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:q", "_:v1", "ex:g")), resource("_:v1"))]
pub struct T448(String);
leaf!(T448);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T447(#[tldr("ex:p")] Vec<T448>);
items!(T447);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "http://e/g")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T450(String);
leaf!(T450);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T449(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T450>);
items!(T449);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T451(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T448>);
items!(T451);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T452(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T450>);
items!(T452);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T453(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T448>);
items!(T453);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T454(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T450>);
items!(T454);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T455(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T448>);
items!(T455);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T456(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T450>);
items!(T456);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T457(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T448>);
items!(T457);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T459 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "http://e/g")), input("_:v1"), graph(_))] x: T1,
}
record!(T459 x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T458 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T459,
}
record!(T458 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T460(#[tldr("ex:p")] T301);
tuple!(T460 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T461(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T459>);
items!(T461);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T462 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T459,
}
record!(T462 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T463(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] T301);
tuple!(T463 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T464(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T459>);
items!(T464);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T465 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T459,
}
record!(T465 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T466(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T301);
tuple!(T466 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T467(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T459>);
items!(T467);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T468 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T459,
}
record!(T468 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T469(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] T301);
tuple!(T469 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T470(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T459>);
items!(T470);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T471 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T459,
}
record!(T471 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T472(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T301);
tuple!(T472 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T474 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "http://e/g")), input("_:v1"), graph(_))] x: Option<T1>,
}
record!(T474 id "id" req, x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T473 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T474),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T473 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T475(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T474>);
items!(T475);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T477 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "ex:g")), input("_:v1"))] x: Option<String>,
}
record!(T477 id "id" req, x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T476 {
	#[tldr(intro(), input("_:self"))] o: T477,
}
record!(T476 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T478 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] a(T474),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T478 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T479(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T474>);
items!(T479);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T480 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T477,
}
record!(T480 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T481 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T474),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T481 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T482(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T474>);
items!(T482);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T483 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T477,
}
record!(T483 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T484 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a(T474),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T484 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T485(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T474>);
items!(T485);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T486 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T477,
}
record!(T486 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T487 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T474),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T487 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T489(#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "ex:g")), input("_:v1"))] Vec<String>);
items!(T489);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T488(#[tldr("ex:p")] Vec<T489>);
items!(T488);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T491(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "http://e/g")), input("_:v1"), graph(_))] Vec<T1>);
items!(T491);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T490(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T491>);
items!(T490);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T492(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T489>);
items!(T492);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T493(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T491>);
items!(T493);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T494(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T489>);
items!(T494);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T495(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T491>);
items!(T495);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T496(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T489>);
items!(T496);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T497(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T491>);
items!(T497);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T498(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T489>);
items!(T498);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T499 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T302,
}
record!(T499 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T501 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "ex:g")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1", "ex:g")), input("_:v1"))] b(i32),
}
sum!(T501 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T500(#[tldr("ex:p")] T501);
tuple!(T500 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T502(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T302>);
items!(T502);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T503 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T302,
}
record!(T503 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T504(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] T501);
tuple!(T504 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T505(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T302>);
items!(T505);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T506 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T302,
}
record!(T506 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T507(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T501);
tuple!(T507 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T508(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T302>);
items!(T508);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T509 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T302,
}
record!(T509 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T510(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] T501);
tuple!(T510 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T511(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T302>);
items!(T511);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T512 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T302,
}
record!(T512 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T513(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T501);
tuple!(T513 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro(), dataset(("_:v0", "http://e/q", "http://e/m", "http://e/g")))]
pub struct T515;
unit!(T515);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T514 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T515),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T514 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T516(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T515>);
items!(T516);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), dataset(("_:self", "ex:q", "ex:m", "ex:g")))]
pub struct T518;
unit!(T518);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T517 {
	#[tldr(intro(), input("_:self"))] o: T518,
}
record!(T517 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T519 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] a(T515),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T519 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T520(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T515>);
items!(T520);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T521 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T518,
}
record!(T521 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T522 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T515),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T522 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T523(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T515>);
items!(T523);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T524 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T518,
}
record!(T524 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T525 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a(T515),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T525 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T526(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T515>);
items!(T526);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T527 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T518,
}
record!(T527 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T528 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T515),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T528 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, prefix("ex" = "http://e/"), intro("v1"), dataset(("_:self", "ex:q", "_:v1", "_:self")), resource("_:v1"))]
pub struct T530(String);
leaf!(T530);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T529(#[tldr("ex:p")] Vec<T530>);
items!(T529);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "_:v0")), resource("_:v1"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T532(String);
leaf!(T532);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T531(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T532>);
items!(T531);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T533(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T530>);
items!(T533);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T534(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T532>);
items!(T534);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T535(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T530>);
items!(T535);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T536(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T532>);
items!(T536);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T537(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T530>);
items!(T537);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T538(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T532>);
items!(T538);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T539(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T530>);
items!(T539);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T541 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "_:v0")), input("_:v1"), graph(_))] x: T1,
}
record!(T541 x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T540 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T541,
}
record!(T540 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T542(#[tldr("ex:p")] T303);
tuple!(T542 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T543(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T541>);
items!(T543);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T544 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T541,
}
record!(T544 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T545(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] T303);
tuple!(T545 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T546(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T541>);
items!(T546);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T547 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T541,
}
record!(T547 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T548(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T303);
tuple!(T548 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T549(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T541>);
items!(T549);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T550 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T541,
}
record!(T550 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T551(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] T303);
tuple!(T551 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T552(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T541>);
items!(T552);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T553 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T541,
}
record!(T553 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T554(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T303);
tuple!(T554 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T556 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] id: T0,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "_:v0")), input("_:v1"), graph(_))] x: Option<T1>,
}
record!(T556 id "id" req, x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T555 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T556),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T555 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T557(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T556>);
items!(T557);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T559 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "_:self")), input("_:v1"))] x: Option<String>,
}
record!(T559 id "id" req, x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T558 {
	#[tldr(intro(), input("_:self"))] o: T559,
}
record!(T558 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T560 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] a(T556),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T560 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T561(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T556>);
items!(T561);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T562 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T559,
}
record!(T562 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T563 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T556),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T563 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T564(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T556>);
items!(T564);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T565 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T559,
}
record!(T565 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T566 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a(T556),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T566 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T567(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T556>);
items!(T567);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T568 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T559,
}
record!(T568 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T569 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T556),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T569 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T571(#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "_:self")), input("_:v1"))] Vec<String>);
items!(T571);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T570(#[tldr("ex:p")] Vec<T571>);
items!(T570);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T573(#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1", "_:v0")), input("_:v1"), graph(_))] Vec<T1>);
items!(T573);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T572(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T573>);
items!(T572);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T574(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] Vec<T571>);
items!(T574);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T575(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T573>);
items!(T575);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T576(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] Vec<T571>);
items!(T576);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T577(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T573>);
items!(T577);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T578(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] Vec<T571>);
items!(T578);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T579(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T573>);
items!(T579);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T580(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] Vec<T571>);
items!(T580);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T581 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T304,
}
record!(T581 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T583 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1", "_:self")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1", "_:self")), input("_:v1"))] b(i32),
}
sum!(T583 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T582(#[tldr("ex:p")] T583);
tuple!(T582 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T584(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T304>);
items!(T584);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T585 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T304,
}
record!(T585 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T586(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] T583);
tuple!(T586 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T587(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T304>);
items!(T587);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T588 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T304,
}
record!(T588 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T589(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] T583);
tuple!(T589 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T590(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T304>);
items!(T590);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T591 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T304,
}
record!(T591 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T592(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] T583);
tuple!(T592 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T593(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T304>);
items!(T593);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T594 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T304,
}
record!(T594 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T595(#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] T583);
tuple!(T595 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(unit, input("v0"), intro(), dataset(("_:v0", "http://e/q", "http://e/m", "_:v0")))]
pub struct T597;
unit!(T597);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T596 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] a(T597),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T596 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T598(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(_))] Vec<T597>);
items!(T598);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"), dataset(("_:self", "ex:q", "ex:m", "_:self")))]
pub struct T600;
unit!(T600);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T599 {
	#[tldr(intro(), input("_:self"))] o: T600,
}
record!(T599 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T601 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] a(T597),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T601 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T602(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(None))] Vec<T597>);
items!(T602);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T603 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T600,
}
record!(T603 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T604 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a(T597),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T604 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T605(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("http://e/g")))] Vec<T597>);
items!(T605);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T606 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T600,
}
record!(T606 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T607 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a(T597),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T607 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro(), dataset(), head("_:v0"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T608(#[tldr(head("v1"), rest("v2"), intro("v3"), dataset(("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#first", "_:v3"), ("_:v1", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v2")), input("_:v3"), graph(Some("_:v0")))] Vec<T597>);
items!(T608);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T609 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T600,
}
record!(T609 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T610 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a(T597),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/s", "_:v1")), input("_:v1"), graph(_))] b(T1),
}
sum!(T610 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T612 {
	#[tldr("ex:p")] o: T108,
}
record!(T612 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T611 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(None))] a: T612,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T611 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T614 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T109,
}
record!(T614 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T613 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a: T614,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T613 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T616 {
	#[tldr(intro(), input("_:self"))] o: T108,
}
record!(T616 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T615 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("ex:g")))] a: T616,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T615 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T618 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T109,
}
record!(T618 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T617 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(_))] a: T618,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T617 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T620 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] o: T108,
}
record!(T620 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T619 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("_:self")))] a: T620,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T619 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T622 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(None))] o: T109,
}
record!(T622 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T621 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(None))] a: T622,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T621 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T624 {
	#[tldr(intro(), input("_:self"), graph(None))] o: T108,
}
record!(T624 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T623 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a: T624,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T623 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T626 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] o: T109,
}
record!(T626 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T625 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a: T626,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T625 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T628 {
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] o: T108,
}
record!(T628 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T627 {
	#[tldr("ex:t")] a: T628,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T627 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T630 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(Some("http://e/g")))] o: T109,
}
record!(T630 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T629 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a: T630,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T629 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T632 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] o: T108,
}
record!(T632 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T631 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(None))] a: T632,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T631 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T634 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T109,
}
record!(T634 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T633 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a: T634,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T633 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T636 {
	#[tldr(intro(), input("_:self"), graph(Some("_:self")))] o: T108,
}
record!(T636 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T635 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("ex:g")))] a: T636,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T635 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T638 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T109,
}
record!(T638 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T637 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(_))] a: T638,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T637 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T640 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T108,
}
record!(T640 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T639 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("_:self")))] a: T640,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T639 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T642 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] o: T100,
}
record!(T642 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T641 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(None))] a: T642,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T641 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T644 {
	#[tldr("ex:p")] o: T97,
}
record!(T644 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T643 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a: T644,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T643 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T646 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] o: T100,
}
record!(T646 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T645 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a: T646,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T645 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T648 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(None))] o: T97,
}
record!(T648 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T647 {
	#[tldr("ex:t")] a: T648,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T647 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T650 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(None))] o: T100,
}
record!(T650 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T649 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a: T650,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T649 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T651 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(None))] a: T322,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T651 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T653 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(None))] o: T100,
}
record!(T653 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T652 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a: T653,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T652 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T655 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("ex:g")))] o: T97,
}
record!(T655 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T654 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("ex:g")))] a: T655,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T654 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T657 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(Some("http://e/g")))] o: T100,
}
record!(T657 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T656 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(_))] a: T657,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T656 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T658 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("_:self")))] a: T325,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T658 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T660 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v0")))] o: T100,
}
record!(T660 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T659 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(None))] a: T660,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T659 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T662 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:self")))] o: T97,
}
record!(T662 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T661 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:t", "_:v1")), input("_:v1"), graph(Some("_:v1")))] a: T662,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T661 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T664 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(Some("_:v0")))] o: T100,
}
record!(T664 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T663 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("http://e/g")))] a: T664,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T663 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T666 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T97,
}
record!(T666 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T665 {
	#[tldr("ex:t")] a: T666,
	#[tldr("ex:z")] z: Option<String>,
}
record!(T665 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T668 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(Some("_:v1")))] o: T100,
}
record!(T668 o "o" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T667 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/t", "_:v1")), input("_:v1"), graph(Some("_:v0")))] a: T668,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/z", "_:v1")), input("_:v1"), graph(_))] z: Option<T1>,
}
record!(T667 a "a" req, z "z" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v0")))]
pub struct T669(#[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T669 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T670(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T670 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v2", "_:v0", "_:v1")))]
pub struct T671(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T671 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v0", "_:v2")))]
pub struct T672(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T672 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T673(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T673 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v2", "_:v1", "http://e/g")))]
pub struct T674(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T674 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")))]
pub struct T675(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T675 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v2", "_:v1", "_:v1", "_:v2")))]
pub struct T676(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T676 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v2", "_:v2", "_:v2")))]
pub struct T677(#[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T677 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("http://e/a", "http://e/p", "_:v2", "http://e/g")))]
pub struct T678(#[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T678 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("http://e/a", "_:v1", "_:v2", "_:v1")))]
pub struct T679(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T679 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("http://e/a", "_:v2", "_:v2", "_:v2")))]
pub struct T680(#[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T680 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub struct T681(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T681 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub struct T682 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T682 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub enum T683 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T683 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1"), ("_:v1", "http://e/p", "_:v2")))]
pub struct T684(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T684 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub struct T685(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T685);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T686(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v2", "http://e/p", "_:v1", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T686);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub struct T687 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T687 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub struct T688(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T688 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub enum T689 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T689 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v0", "_:v1")))]
pub struct T690(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T690);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T691 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T691 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub enum T692 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T692 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v1", "http://e/p", "_:v1")))]
pub struct T693(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T693 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T694(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T694);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T695(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v1", "http://e/p", "_:v2", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T695);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T696 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T696 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T697(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T697 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T698 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T698 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1"), ("_:v0", "_:v1", "_:v2", "_:v2")))]
pub struct T699(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T699 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")))]
pub struct T700(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] T0);
tuple!(T700 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub enum T701 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T701 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g"), ("_:v0", "http://e/p", "_:v2")))]
pub struct T702(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T702 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub struct T703(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T703);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T704(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v1", "http://e/p", "_:v1", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T704);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub struct T705 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T705 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub struct T706(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] T0);
tuple!(T706 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub struct T707 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T707 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub enum T708 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T708 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub struct T709 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T709 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "http://e/g")))]
pub struct T710 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T710 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1"), ("_:v0", "http://e/p", "_:v1")))]
pub struct T711(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T711 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub struct T712(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T712);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T713(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v0", "http://e/p", "_:v2", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T713);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub struct T714 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T714 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub struct T715(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T715 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub struct T716 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T716 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub enum T717 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T717 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1"), ("_:v2", "http://e/p", "_:v2", "_:v2")))]
pub struct T718(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T718 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub enum T719 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "http://e/g")), input("_:v2"), graph(_))] a(T0),
}
sum!(T719 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub struct T720(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T720);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")))]
pub struct T721 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T721 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub struct T722 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T722 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v0"), ("_:v0", "http://e/p", "_:v2", "_:v2")))]
pub struct T723(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T723 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub struct T724(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T724 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub enum T725 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] a(T0),
}
sum!(T725 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub struct T726(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T726);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub struct T727 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T727 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub struct T728 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "http://e/g")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T728 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v0"), ("_:v0", "_:v2", "_:v2")))]
pub struct T729(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T729 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0")))]
pub struct T730(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] T0);
tuple!(T730 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub enum T731 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T731 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T732(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T732);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T733 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T733 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T734 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T734 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g"), ("_:v2", "http://e/p", "_:v1", "_:v1")))]
pub struct T735(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T735 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T736(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T736 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub enum T737 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T737 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T738(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T738);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "http://e/g")))]
pub struct T739 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T739 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub struct T740 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T740 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v0", "_:v1"), ("_:v0", "http://e/p", "_:v2", "_:v1")))]
pub struct T741(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T741 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub struct T742(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T742 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub enum T743 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T743 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub struct T744(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T744);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub struct T745 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T745 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub struct T746 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T746 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v0", "_:v1"), ("_:v0", "_:v1", "_:v2", "_:v2")))]
pub struct T747(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T747 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v0", "_:v1")))]
pub struct T748(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] T0);
tuple!(T748 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub enum T749 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T749 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub struct T750(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T750);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub struct T751 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T751 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub struct T752 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T752 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v1"), ("_:v2", "http://e/p", "_:v1")))]
pub struct T753(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T753 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub struct T754(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T754 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub enum T755 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T755 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub struct T756(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T756);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1")))]
pub struct T757 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T757 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub struct T758 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T758 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g"), ("_:v0", "http://e/p", "_:v2")))]
pub struct T759(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T759 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub struct T760(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T760 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub enum T761 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T761 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub struct T762(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T762);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub struct T763 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T763 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub struct T764 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T764 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g"), ("_:v0", "_:v1", "_:v2", "_:v1")))]
pub struct T765(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T765 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub struct T766(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T766 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "http://e/g")))]
pub enum T767 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T767 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T768(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T768);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T769 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T769 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T770 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T770 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v0", "_:v1", "_:v1", "_:v1"), ("_:v1", "http://e/p", "_:v2", "_:v2")))]
pub struct T771(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T771 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T772(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")), input("_:v2"), graph(_))] T0);
tuple!(T772 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub enum T773 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] a(T0),
}
sum!(T773 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T774(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "http://e/g")), input("_:v2"), graph(_))] Vec<T0>);
items!(T774);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T775 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T775 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v0", "_:v1", "_:v1", "_:v1")))]
pub struct T776 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T776 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub struct T777(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T777 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub struct T778 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T778 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub enum T779 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T779 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v0"), ("_:v1", "http://e/p", "_:v2")))]
pub struct T780(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T780 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub struct T781(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T781);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T782(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v2", "http://e/p", "_:v1", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T782);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub struct T783 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T783 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub struct T784(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T784 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub enum T785 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T785 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0")))]
pub struct T786(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T786);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub struct T787 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T787 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub enum T788 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T788 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g"), ("_:v1", "http://e/p", "_:v1")))]
pub struct T789(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T789 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub struct T790(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T790);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T791(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v1", "http://e/p", "_:v2", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T791);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub struct T792 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T792 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub struct T793(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T793 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub struct T794 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T794 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g"), ("_:v0", "_:v1", "_:v2", "_:v2")))]
pub struct T795(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T795 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "http://e/g")))]
pub struct T796(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] T0);
tuple!(T796 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub enum T797 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T797 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1"), ("_:v0", "http://e/p", "_:v2")))]
pub struct T798(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T798 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub struct T799(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T799);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T800(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v1", "http://e/p", "_:v1", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T800);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub struct T801 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T801 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub struct T802(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] T0);
tuple!(T802 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub struct T803 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T803 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub enum T804 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T804 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub struct T805 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T805 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v0", "_:v1")))]
pub struct T806 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T806 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v1"), ("_:v0", "http://e/p", "_:v1")))]
pub struct T807(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T807 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub struct T808(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T808);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T809(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v0", "http://e/p", "_:v2", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T809);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub struct T810 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T810 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub struct T811(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T811 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub struct T812 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T812 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub enum T813 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T813 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v1"), ("_:v2", "http://e/p", "_:v2", "_:v2")))]
pub struct T814(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T814 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub enum T815 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "http://e/g")), input("_:v2"), graph(_))] a(T0),
}
sum!(T815 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub struct T816(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T816);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1")))]
pub struct T817 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T817 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T818(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v0", "http://e/p", "_:v1", "_:v1"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T818);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub struct T819 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T819 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub struct T820(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T820 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub struct T821 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T821 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub enum T822 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T822 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g"), ("_:v2", "http://e/p", "_:v1", "_:v2")))]
pub struct T823(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T823 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub struct T824(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T824);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g"), ("_:v0", "_:v1", "_:v2", "http://e/g")))]
pub struct T825(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T825 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub struct T826(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T826 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "http://e/g")))]
pub enum T827 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] a(T0),
}
sum!(T827 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub struct T828 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T828 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub struct T829(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T829 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub struct T830 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T830 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub enum T831 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T831 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1"), ("_:v1", "http://e/p", "_:v2", "_:v2")))]
pub struct T832(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T832 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub struct T833(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T833);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(list, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), head("_:v1"), tail("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"))]
pub struct T834(#[tldr(head("v2"), rest("v3"), intro(), dataset(("_:v2", "http://e/p", "_:v2"), ("_:v2", "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest", "_:v3")), input("_:v2"), graph(_))] Vec<T0>);
items!(T834);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub struct T835 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T835 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")))]
pub struct T836 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T836 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1"), ("_:v0", "_:v2", "_:v2", "_:v1")))]
pub struct T837(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T837 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub struct T838(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T838 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub enum T839 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T839 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub struct T840(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] Vec<T0>);
items!(T840);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub struct T841 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T841 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub struct T842 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T842 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v0"), ("_:v2", "http://e/p", "_:v2")))]
pub struct T843(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T843 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub struct T844(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T844 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub enum T845 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v1")), input("_:v2"), graph(_))] a(T0),
}
sum!(T845 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0")))]
pub struct T846(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] Vec<T0>);
items!(T846);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T847 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T847 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T848 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T848 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g"), ("_:v1", "http://e/p", "_:v1")))]
pub struct T849(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v0"), graph(_))] T0);
tuple!(T849 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T850(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T850 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub enum T851 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T851 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T852(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T852);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T853 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T853 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T854 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T854 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g"), ("_:v0", "_:v2", "_:v2", "http://e/g")))]
pub struct T855(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T855 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "http://e/g")))]
pub struct T856(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T856 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub enum T857 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T857 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub struct T858(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T858);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub struct T859 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T859 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub struct T860 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T860 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v0", "_:v1"), ("_:v2", "http://e/p", "_:v1", "_:v2")))]
pub struct T861(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T861 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub struct T862(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] T0);
tuple!(T862 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub enum T863 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "http://e/g")), input("_:v2"), graph(_))] a(T0),
}
sum!(T863 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub struct T864(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T864);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v0", "_:v1")))]
pub struct T865 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T865 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T866 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T866 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v1"), ("_:v0", "http://e/p", "_:v2", "_:v2")))]
pub struct T867(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T867 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T868(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T868 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub enum T869 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] a(T0),
}
sum!(T869 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T870(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T870);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T871 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T871 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T872 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "http://e/g")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T872 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v1"), ("_:v0", "_:v2", "_:v2")))]
pub struct T873(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T873 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1")))]
pub struct T874(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] T0);
tuple!(T874 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub enum T875 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] a(T0),
}
sum!(T875 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub struct T876(#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T876);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub struct T877 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T877 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub struct T878 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T878 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g"), ("_:v2", "http://e/p", "_:v1", "_:v1")))]
pub struct T879(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T879 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub struct T880(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] T0);
tuple!(T880 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub enum T881 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T881 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub struct T882(#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2", "_:v2")), input("_:v2"), graph(_))] Vec<T0>);
items!(T882);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "http://e/g")))]
pub struct T883 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "_:v1")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T883 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub struct T884 {
	#[tldr(intro("v2"), dataset(("_:v0", "http://e/p", "_:v1", "_:v1")), input("_:v0"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T884 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v1", "_:v1"), ("_:v0", "http://e/p", "_:v2", "_:v1")))]
pub struct T885(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T885 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub struct T886(#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v1")), input("_:v0"), graph(_))] T0);
tuple!(T886 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub enum T887 {
	#[tldr(intro("v2"), dataset(("_:v1", "http://e/p", "_:v2")), input("_:v2"), graph(_))] a(T0),
}
sum!(T887 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub struct T888(#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v1")), input("_:v2"), graph(_))] Vec<T0>);
items!(T888);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub struct T889 {
	#[tldr(intro("v2"), dataset(("_:v2", "http://e/p", "_:v2")), input("_:v2"), graph(_))] f: Option<T0>,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T889 f "f" opt, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub struct T890 {
	#[tldr(intro("v2"), dataset(("_:v0", "_:v1", "_:v2")), input("_:v2"), graph(_))] f: T0,
	#[tldr(intro(), dataset(), input("_:v1"), graph(_))] k: T0,
}
record!(T890 f "f" req, k "k" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1", "v2"), dataset(("_:v1", "_:v1", "_:v1", "_:v1"), ("_:v0", "_:v1", "_:v2", "_:v2")))]
pub struct T891(#[tldr(intro(), dataset(), input("_:v1"), graph(_))] T0, #[tldr(intro(), dataset(), input("_:v2"), graph(_))] T0);
tuple!(T891 2 0 1);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(tuple, input("v0"), intro("v1"), dataset(("_:v1", "_:v1", "_:v1", "_:v1")))]
pub struct T892(#[tldr(intro("v2"), dataset(("_:v0", "_:v2", "_:v2", "http://e/g")), input("_:v2"), graph(_))] T0);
tuple!(T892 1 0);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T893 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), input("_:self"))] b(T336),
}
sum!(T893 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T894 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(String),
}
sum!(T894 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T895 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] b(i32),
}
sum!(T895 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T896 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] b(String),
}
sum!(T896 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T898 {
	#[tldr("ex:q")] x: Option<String>,
}
record!(T898 x "x" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T897 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T1")), input("_:self"))] b(T898),
}
sum!(T897 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T899 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T2")), input("_:self"))] b(T898),
}
sum!(T899 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T900 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(T28),
}
sum!(T900 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T901 {
	#[tldr(intro(), input("_:self"))] a(String),
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] b(T97),
}
sum!(T901 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T902 {
	#[tldr(intro(), input("_:self"))] a(String),
}
sum!(T902 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T903 {
	#[tldr(intro(), input("_:self"))] a(i32),
	#[tldr(intro(), input("_:self"))] b(T2),
}
sum!(T903 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T904 {
	#[tldr(intro(), input("_:self"))] a(i32),
	#[tldr(intro(), input("_:self"))] b(T6),
}
sum!(T904 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T905 {
	#[tldr(intro(), input("_:self"))] a(i32),
	#[tldr(intro(), input("_:self"))] b(T28),
}
sum!(T905 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T906 {
	#[tldr(intro(), input("_:self"))] a(i32),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T906 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T907 {
	#[tldr(intro(), input("_:self"))] a(i32),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T907 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T908 {
	#[tldr(intro(), input("_:self"))] a(T2),
	#[tldr(intro(), input("_:self"))] b(treeldr::rdf_types::Id),
}
sum!(T908 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T910 {
	#[tldr("ex:q")] x: Option<String>,
	#[tldr("ex:r")] y: Option<i32>,
}
record!(T910 x "x" opt, y "y" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T909 {
	#[tldr(intro(), input("_:self"))] a(T2),
	#[tldr(intro(), input("_:self"))] b(T910),
}
sum!(T909 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T911 {
	#[tldr(intro(), input("_:self"))] a(T2),
	#[tldr(intro("v1", "v2"), dataset(("_:self", "ex:q", "_:v1"), ("_:v1", "ex:r", "_:v2")), input("_:v2"))] b(i32),
}
sum!(T911 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T913 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] m(String),
	#[tldr(intro(), input("_:self"))] n(i32),
}
sum!(T913 0 m, 1 n);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T912 {
	#[tldr(intro(), input("_:self"))] a(T2),
	#[tldr(intro(), input("_:self"))] b(T913),
}
sum!(T912 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T914 {
	#[tldr(intro(), input("_:self"))] a(treeldr::rdf_types::Id),
	#[tldr(intro(), input("_:self"))] b(T97),
}
sum!(T914 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T915 {
	#[tldr(intro(), input("_:self"))] a(treeldr::rdf_types::Id),
	#[tldr(intro(), input("_:self"))] b(T26),
}
sum!(T915 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T916 {
	#[tldr(intro(), input("_:self"))] a(treeldr::rdf_types::Id),
	#[tldr(intro(), input("_:self"))] b(T400),
}
sum!(T916 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T919 {
	#[tldr("ex:r")] z: i32,
}
record!(T919 z "z" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T918 {
	#[tldr(intro(), input("_:self"))] id: treeldr::rdf_types::Id,
	#[tldr("ex:q")] x: T919,
}
record!(T918 id "id" req, x "x" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T917 {
	#[tldr(intro(), input("_:self"))] a(treeldr::rdf_types::Id),
	#[tldr(intro(), input("_:self"))] b(T918),
}
sum!(T917 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T920 {
	#[tldr(intro(), input("_:self"))] a(T6),
	#[tldr(intro(), input("_:self"))] b(T28),
}
sum!(T920 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T921 {
	#[tldr(intro(), input("_:self"))] a(T6),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T921 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T922 {
	#[tldr(intro(), input("_:self"))] a(T6),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T922 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T923 {
	#[tldr(intro(), input("_:self"))] a(T97),
	#[tldr(intro(), input("_:self"))] b(T28),
}
sum!(T923 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T924 {
	#[tldr(intro(), input("_:self"))] a(T97),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T924 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T925 {
	#[tldr(intro(), input("_:self"))] a(T97),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T925 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T926 {
	#[tldr(intro(), input("_:self"))] a(T910),
	#[tldr(intro(), input("_:self"))] b(T28),
}
sum!(T926 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T927 {
	#[tldr(intro(), input("_:self"))] a(T910),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T927 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T928 {
	#[tldr(intro(), input("_:self"))] a(T910),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T928 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T929 {
	#[tldr(intro(), input("_:self"))] a(T336),
	#[tldr(intro(), input("_:self"))] b(T28),
}
sum!(T929 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T930 {
	#[tldr(intro(), input("_:self"))] a(T336),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T930 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T931 {
	#[tldr(intro(), input("_:self"))] a(T336),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T931 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T932 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(String),
}
sum!(T932 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T933 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] b(i32),
}
sum!(T933 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T934 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] b(String),
}
sum!(T934 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T935 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T1")), input("_:self"))] b(T898),
}
sum!(T935 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T936 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T2")), input("_:self"))] b(T898),
}
sum!(T936 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T937 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(T28),
}
sum!(T937 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T938 {
	#[tldr(intro(), input("_:self"))] a(T26),
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] b(T97),
}
sum!(T938 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T939 {
	#[tldr(intro(), input("_:self"))] a(T26),
}
sum!(T939 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T940 {
	#[tldr(intro(), input("_:self"))] a(T400),
	#[tldr(intro(), input("_:self"))] b(T28),
}
sum!(T940 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T941 {
	#[tldr(intro(), input("_:self"))] a(T400),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T941 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T942 {
	#[tldr(intro(), input("_:self"))] a(T400),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T942 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T943 {
	#[tldr(intro(), input("_:self"))] a(T28),
	#[tldr(intro("v1", "v2"), dataset(("_:self", "ex:q", "_:v1"), ("_:v1", "ex:r", "_:v2")), input("_:v2"))] b(i32),
}
sum!(T943 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T944 {
	#[tldr(intro(), input("_:self"))] a(T28),
	#[tldr(intro(), input("_:self"))] b(T913),
}
sum!(T944 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T945 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(treeldr::rdf_types::Id),
}
sum!(T945 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T946 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T946 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T947 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] a(treeldr::rdf_types::Id),
	#[tldr(intro("v1"), input("_:v1"))] b(String),
}
sum!(T947 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T948 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(i32),
	#[tldr(intro("v1", "v2"), dataset(("_:self", "ex:q", "_:v1"), ("_:v1", "ex:r", "_:v2")), input("_:v2"))] b(i32),
}
sum!(T948 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T949 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(i32),
	#[tldr(intro(), input("_:self"))] b(T913),
}
sum!(T949 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T950 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T1")), input("_:self"))] b(T898),
}
sum!(T950 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T951 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T2")), input("_:self"))] b(T898),
}
sum!(T951 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T952 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(T28),
}
sum!(T952 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T953 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(String),
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] b(T97),
}
sum!(T953 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T954 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:r", "_:v1")), input("_:v1"))] a(String),
}
sum!(T954 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T955 {
	#[tldr(intro("v1", "v2"), dataset(("_:self", "ex:q", "_:v1"), ("_:v1", "ex:r", "_:v2")), input("_:v2"))] a(i32),
	#[tldr(intro(), input("_:self"))] b(T918),
}
sum!(T955 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T956 {
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T1")), input("_:self"))] a(T898),
	#[tldr(intro(), input("_:self"))] b(T913),
}
sum!(T956 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T957 {
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T2")), input("_:self"))] a(T898),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] b(T28),
}
sum!(T957 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T958 {
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T2")), input("_:self"))] a(T898),
	#[tldr(intro(), input("_:self"), graph(Some("ex:g")))] b(T97),
}
sum!(T958 0 a, 1 b);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T959 {
	#[tldr(intro(), dataset(("_:self", "ex:type", "ex:T2")), input("_:self"))] a(T898),
}
sum!(T959 0 a);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T961 {
	#[tldr(intro(), input("_:self"))] kids: T960,
	#[tldr("ex:q")] v: Option<String>,
}
record!(T961 kids "kids" req, v "v" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, prefix("ex" = "http://e/"))]
pub struct T960(#[tldr("ex:p")] Vec<T961>);
items!(T960);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(string, input("v0"), intro(), dataset(), resource("_:v0"), datatype("http://www.w3.org/2001/XMLSchema#string"))]
pub struct T964(String);
leaf!(T964);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T963 {
	#[tldr(intro(), dataset(), input("_:v0"), graph(_))] kids: T962,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] v: Option<T964>,
}
record!(T963 kids "kids" req, v "v" opt);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(set, input("v0"), intro(), dataset())]
pub struct T962(#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] Vec<T963>);
items!(T962);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub struct T965 {
	#[tldr("ex:q")] r#match: Option<treeldr::rdf_types::Id>,
	#[tldr("ex:p")] r#type: String,
}
record!(T965 r#match "match" opt, r#type "type" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(record, input("v0"), intro(), dataset())]
pub struct T966 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] r#match: Option<T0>,
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] r#type: T1,
}
record!(T966 r#match "match" opt, r#type "type" req);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(prefix("ex" = "http://e/"))]
pub enum T967 {
	#[tldr(intro("v1"), dataset(("_:self", "ex:p", "_:v1")), input("_:v1"))] r#box(String),
	#[tldr(intro("v1"), dataset(("_:self", "ex:q", "_:v1")), input("_:v1"))] r#move(treeldr::rdf_types::Id),
}
sum!(T967 0 r#box, 1 r#move);
#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
#[tldr(sum, input("v0"), intro(), dataset())]
pub enum T968 {
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/p", "_:v1")), input("_:v1"), graph(_))] r#box(T1),
	#[tldr(intro("v1"), dataset(("_:v0", "http://e/q", "_:v1")), input("_:v1"), graph(_))] r#move(T0),
}
sum!(T968 0 r#box, 1 r#move);

pub const ALL: &[(&str, Ops)] = &[
    ("id~Short", ops::<treeldr::rdf_types::Id, 1>()),
    ("id~Long", ops::<T0, 1>()),
    ("str~Short", ops::<String, 1>()),
    ("str~Long", ops::<T1, 1>()),
    ("bool~Short", ops::<T2, 1>()),
    ("bool~Long", ops::<T3, 1>()),
    ("int~Short", ops::<i32, 1>()),
    ("int~Long", ops::<T4, 1>()),
    ("dec~Short", ops::<u8, 1>()),
    ("dec~Long", ops::<T5, 1>()),
    ("unit~Short", ops::<T6, 1>()),
    ("unit~Long", ops::<T7, 1>()),
    ("rec!(id)~Short", ops::<T8, 1>()),
    ("rec!(id)~Long", ops::<T9, 1>()),
    ("rec?(id)~Short", ops::<T10, 1>()),
    ("rec?(id)~Long", ops::<T11, 1>()),
    ("recid(id)~Short", ops::<T12, 1>()),
    ("recid(id)~Long", ops::<T13, 1>()),
    ("set(id)~Short", ops::<T14, 1>()),
    ("set(id)~Long", ops::<T15, 1>()),
    ("list(id)~Short", ops::<T16, 1>()),
    ("list(id)~Long", ops::<T17, 1>()),
    ("tup(id,str)~Short", ops::<T18, 1>()),
    ("tup(id,str)~Long", ops::<T19, 1>()),
    ("rec!(str)~Short", ops::<T20, 1>()),
    ("rec!(str)~Long", ops::<T21, 1>()),
    ("rec?(str)~Short", ops::<T22, 1>()),
    ("rec?(str)~Long", ops::<T23, 1>()),
    ("recid(str)~Short", ops::<T24, 1>()),
    ("recid(str)~Long", ops::<T25, 1>()),
    ("set(str)~Short", ops::<T26, 1>()),
    ("set(str)~Long", ops::<T27, 1>()),
    ("list(str)~Short", ops::<T28, 1>()),
    ("list(str)~Long", ops::<T29, 1>()),
    ("tup(str,str)~Short", ops::<T30, 1>()),
    ("tup(str,str)~Long", ops::<T31, 1>()),
    ("rec!(bool)~Short", ops::<T32, 1>()),
    ("rec!(bool)~Long", ops::<T33, 1>()),
    ("rec?(bool)~Short", ops::<T34, 1>()),
    ("rec?(bool)~Long", ops::<T35, 1>()),
    ("recid(bool)~Short", ops::<T36, 1>()),
    ("recid(bool)~Long", ops::<T37, 1>()),
    ("set(bool)~Short", ops::<T38, 1>()),
    ("set(bool)~Long", ops::<T39, 1>()),
    ("list(bool)~Short", ops::<T40, 1>()),
    ("list(bool)~Long", ops::<T41, 1>()),
    ("tup(bool,str)~Short", ops::<T42, 1>()),
    ("tup(bool,str)~Long", ops::<T43, 1>()),
    ("rec!(int)~Short", ops::<T44, 1>()),
    ("rec!(int)~Long", ops::<T45, 1>()),
    ("rec?(int)~Short", ops::<T46, 1>()),
    ("rec?(int)~Long", ops::<T47, 1>()),
    ("recid(int)~Short", ops::<T48, 1>()),
    ("recid(int)~Long", ops::<T49, 1>()),
    ("set(int)~Short", ops::<T50, 1>()),
    ("set(int)~Long", ops::<T51, 1>()),
    ("list(int)~Short", ops::<T52, 1>()),
    ("list(int)~Long", ops::<T53, 1>()),
    ("tup(int,str)~Short", ops::<T54, 1>()),
    ("tup(int,str)~Long", ops::<T55, 1>()),
    ("rec!(dec)~Short", ops::<T56, 1>()),
    ("rec!(dec)~Long", ops::<T57, 1>()),
    ("rec?(dec)~Short", ops::<T58, 1>()),
    ("rec?(dec)~Long", ops::<T59, 1>()),
    ("recid(dec)~Short", ops::<T60, 1>()),
    ("recid(dec)~Long", ops::<T61, 1>()),
    ("set(dec)~Short", ops::<T62, 1>()),
    ("set(dec)~Long", ops::<T63, 1>()),
    ("list(dec)~Short", ops::<T64, 1>()),
    ("list(dec)~Long", ops::<T65, 1>()),
    ("tup(dec,str)~Short", ops::<T66, 1>()),
    ("tup(dec,str)~Long", ops::<T67, 1>()),
    ("rec!(unit)~Short", ops::<T68, 1>()),
    ("rec!(unit)~Long", ops::<T69, 1>()),
    ("rec?(unit)~Short", ops::<T70, 1>()),
    ("rec?(unit)~Long", ops::<T71, 1>()),
    ("recid(unit)~Short", ops::<T72, 1>()),
    ("recid(unit)~Long", ops::<T73, 1>()),
    ("set(unit)~Short", ops::<T74, 1>()),
    ("set(unit)~Long", ops::<T75, 1>()),
    ("list(unit)~Short", ops::<T76, 1>()),
    ("list(unit)~Long", ops::<T77, 1>()),
    ("tup(unit,str)~Short", ops::<T78, 1>()),
    ("tup(unit,str)~Long", ops::<T79, 1>()),
    ("rec2(str,int)~Short", ops::<T80, 1>()),
    ("rec2(str,int)~Long", ops::<T81, 1>()),
    ("tup0~Short", ops::<T82, 1>()),
    ("tup0~Long", ops::<T83, 1>()),
    ("rec0~Short", ops::<T84, 1>()),
    ("rec0~Long", ops::<T85, 1>()),
    ("typed(rec)~Short", ops::<T86, 1>()),
    ("typed(rec)~Long", ops::<T87, 1>()),
    ("chain(rec)~Short", ops::<T88, 1>()),
    ("chain(rec)~Long", ops::<T89, 1>()),
    ("twohop(rec)~Short", ops::<T90, 1>()),
    ("twohop(rec)~Long", ops::<T91, 1>()),
    ("sum(str|id)~Short", ops::<T92, 1>()),
    ("sum(str|id)~Long", ops::<T93, 1>()),
    ("sum(str|int|bool)~Short", ops::<T94, 1>()),
    ("sum(str|int|bool)~Long", ops::<T95, 1>()),
    ("sum(recA|recB)~Short", ops::<T96, 1>()),
    ("sum(recA|recB)~Long", ops::<T99, 1>()),
    ("sum(prop|prop)~Short", ops::<T102, 1>()),
    ("sum(prop|prop)~Long", ops::<T103, 1>()),
    ("sum(str|rec)~Short", ops::<T104, 1>()),
    ("sum(str|rec)~Long", ops::<T105, 1>()),
    ("unitmark~Short", ops::<T106, 1>()),
    ("unitmark~Long", ops::<T107, 1>()),
    ("strpath~Short", ops::<T108, 1>()),
    ("strpath~Long", ops::<T109, 1>()),
    ("rec2in~Short", ops::<T110, 2>()),
    ("rec2in~Long", ops::<T111, 2>()),
    ("rec?(rec!(id))~Short", ops::<T112, 1>()),
    ("recid2(rec!(id))~Long", ops::<T113, 1>()),
    ("set(rec?(id))~Short", ops::<T114, 1>()),
    ("rec!(recid(id))~Long", ops::<T115, 1>()),
    ("tup(str,recid(id))~Short", ops::<T116, 1>()),
    ("set(set(id))~Long", ops::<T117, 1>()),
    ("rec!(list(id))~Short", ops::<T118, 1>()),
    ("tup(str,list(id))~Long", ops::<T119, 1>()),
    ("rec?(tup(id,str))~Short", ops::<T120, 1>()),
    ("recid2(tup(id,str))~Long", ops::<T121, 1>()),
    ("set(rec!(str))~Short", ops::<T122, 1>()),
    ("sum(rec!(str)|str)~Long", ops::<T123, 1>()),
    ("list(rec?(str))~Short", ops::<T124, 1>()),
    ("rec?(recid(str))~Long", ops::<T125, 1>()),
    ("recid2(recid(str))~Short", ops::<T126, 1>()),
    ("list(set(str))~Long", ops::<T127, 1>()),
    ("rec?(list(str))~Short", ops::<T128, 1>()),
    ("recid2(list(str))~Long", ops::<T129, 1>()),
    ("set(tup(str,str))~Short", ops::<T130, 1>()),
    ("sum(tup(str,str)|str)~Long", ops::<T131, 1>()),
    ("list(rec!(bool))~Short", ops::<T132, 1>()),
    ("rec!(rec?(bool))~Long", ops::<T133, 1>()),
    ("tup(str,rec?(bool))~Short", ops::<T134, 1>()),
    ("set(recid(bool))~Long", ops::<T135, 1>()),
    ("rec!(set(bool))~Short", ops::<T136, 1>()),
    ("tup(str,set(bool))~Long", ops::<T137, 1>()),
    ("set(list(bool))~Short", ops::<T138, 1>()),
    ("sum(list(bool)|str)~Long", ops::<T139, 1>()),
    ("list(tup(bool,str))~Short", ops::<T140, 1>()),
    ("rec!(rec!(int))~Long", ops::<T141, 1>()),
    ("tup(str,rec!(int))~Short", ops::<T142, 1>()),
    ("rec?(rec?(int))~Long", ops::<T143, 1>()),
    ("recid2(rec?(int))~Short", ops::<T144, 1>()),
    ("list(recid(int))~Long", ops::<T145, 1>()),
    ("rec?(set(int))~Short", ops::<T146, 1>()),
    ("recid2(set(int))~Long", ops::<T147, 1>()),
    ("list(list(int))~Short", ops::<T148, 1>()),
    ("rec!(tup(int,str))~Long", ops::<T149, 1>()),
    ("tup(str,tup(int,str))~Short", ops::<T150, 1>()),
    ("rec?(rec!(dec))~Long", ops::<T151, 1>()),
    ("recid2(rec!(dec))~Short", ops::<T152, 1>()),
    ("set(rec?(dec))~Long", ops::<T153, 1>()),
    ("rec!(recid(dec))~Short", ops::<T154, 1>()),
    ("tup(str,recid(dec))~Long", ops::<T155, 1>()),
    ("set(set(dec))~Short", ops::<T156, 1>()),
    ("rec!(list(dec))~Long", ops::<T157, 1>()),
    ("tup(str,list(dec))~Short", ops::<T158, 1>()),
    ("rec?(tup(dec,str))~Long", ops::<T159, 1>()),
    ("recid2(tup(dec,str))~Short", ops::<T160, 1>()),
    ("set(rec!(unit))~Long", ops::<T161, 1>()),
    ("sum(rec!(unit)|str)~Short", ops::<T162, 1>()),
    ("list(rec?(unit))~Long", ops::<T163, 1>()),
    ("rec?(recid(unit))~Short", ops::<T164, 1>()),
    ("recid2(recid(unit))~Long", ops::<T165, 1>()),
    ("list(set(unit))~Short", ops::<T166, 1>()),
    ("rec?(list(unit))~Long", ops::<T167, 1>()),
    ("recid2(list(unit))~Short", ops::<T168, 1>()),
    ("set(tup(unit,str))~Long", ops::<T169, 1>()),
    ("sum(tup(unit,str)|str)~Short", ops::<T170, 1>()),
    ("list(rec2(str,int))~Long", ops::<T171, 1>()),
    ("rec?(tup0)~Short", ops::<T172, 1>()),
    ("recid2(tup0)~Long", ops::<T173, 1>()),
    ("list(rec0)~Short", ops::<T174, 1>()),
    ("rec?(typed(rec))~Long", ops::<T175, 1>()),
    ("recid2(typed(rec))~Short", ops::<T176, 1>()),
    ("list(chain(rec))~Long", ops::<T177, 1>()),
    ("rec?(twohop(rec))~Short", ops::<T178, 1>()),
    ("recid2(twohop(rec))~Long", ops::<T179, 1>()),
    ("list(sum(str|id))~Short", ops::<T180, 1>()),
    ("rec?(sum(str|int|bool))~Long", ops::<T181, 1>()),
    ("recid2(sum(str|int|bool))~Short", ops::<T182, 1>()),
    ("list(sum(recA|recB))~Long", ops::<T183, 1>()),
    ("rec?(sum(prop|prop))~Short", ops::<T184, 1>()),
    ("recid2(sum(prop|prop))~Long", ops::<T185, 1>()),
    ("list(sum(str|rec))~Short", ops::<T186, 1>()),
    ("rec?(unitmark)~Long", ops::<T187, 1>()),
    ("recid2(unitmark)~Short", ops::<T188, 1>()),
    ("list(strpath)~Long", ops::<T189, 1>()),
    ("leafself:id~Short", ops::<T190, 1>()),
    ("leafself:id~Long", ops::<T191, 1>()),
    ("leafself:str~Short", ops::<T192, 1>()),
    ("leafself:str~Long", ops::<T193, 1>()),
    ("leafself:bool~Short", ops::<T194, 1>()),
    ("leafself:bool~Long", ops::<T195, 1>()),
    ("leafself:int~Short", ops::<T196, 1>()),
    ("leafself:int~Long", ops::<T197, 1>()),
    ("leafself:dec~Short", ops::<T198, 1>()),
    ("leafself:dec~Long", ops::<T199, 1>()),
    ("leafself:unit~Short", ops::<T200, 1>()),
    ("leafself:unit~Long", ops::<T201, 1>()),
    ("str:custom~Short", ops::<T202, 1>()),
    ("str:custom~Long", ops::<T203, 1>()),
    ("viaconst:id~Short", ops::<T204, 1>()),
    ("viaconst:id~Long", ops::<T205, 1>()),
    ("leafintro:id~Short", ops::<T206, 1>()),
    ("leafintro:id~Long", ops::<T207, 1>()),
    ("leafchain:id~Short", ops::<T208, 1>()),
    ("leafchain:id~Long", ops::<T209, 1>()),
    ("leafintro:str~Short", ops::<T210, 1>()),
    ("leafintro:str~Long", ops::<T211, 1>()),
    ("leafchain:str~Short", ops::<T212, 1>()),
    ("leafchain:str~Long", ops::<T213, 1>()),
    ("leafintro:bool~Short", ops::<T214, 1>()),
    ("leafintro:bool~Long", ops::<T215, 1>()),
    ("leafchain:bool~Short", ops::<T216, 1>()),
    ("leafchain:bool~Long", ops::<T217, 1>()),
    ("leafintro:int~Short", ops::<T218, 1>()),
    ("leafintro:int~Long", ops::<T219, 1>()),
    ("leafchain:int~Short", ops::<T220, 1>()),
    ("leafchain:int~Long", ops::<T221, 1>()),
    ("leafintro:dec~Short", ops::<T222, 1>()),
    ("leafintro:dec~Long", ops::<T223, 1>()),
    ("leafchain:dec~Short", ops::<T224, 1>()),
    ("leafchain:dec~Long", ops::<T225, 1>()),
    ("leafintro:unit~Short", ops::<T226, 1>()),
    ("leafintro:unit~Long", ops::<T227, 1>()),
    ("leafchain:unit~Short", ops::<T228, 1>()),
    ("leafchain:unit~Long", ops::<T229, 1>()),
    ("two:order:record~Short", ops::<T230, 1>()),
    ("two:order:record~Long", ops::<T232, 1>()),
    ("two:order:tuple~Short", ops::<T234, 1>()),
    ("two:order:tuple~Long", ops::<T235, 1>()),
    ("two:order:set~Short", ops::<T236, 1>()),
    ("two:order:set~Long", ops::<T237, 1>()),
    ("two:order:sum~Short", ops::<T238, 1>()),
    ("two:order:sum~Long", ops::<T239, 1>()),
    ("two:swap:record~Short", ops::<T240, 1>()),
    ("two:swap:record~Long", ops::<T241, 1>()),
    ("two:swap:tuple~Short", ops::<T242, 1>()),
    ("two:swap:tuple~Long", ops::<T243, 1>()),
    ("two:swap:set~Short", ops::<T244, 1>()),
    ("two:swap:set~Long", ops::<T245, 1>()),
    ("two:swap:sum~Short", ops::<T246, 1>()),
    ("two:swap:sum~Long", ops::<T247, 1>()),
    ("two:const:record~Short", ops::<T248, 1>()),
    ("two:const:record~Long", ops::<T249, 1>()),
    ("two:const:tuple~Short", ops::<T250, 1>()),
    ("two:const:tuple~Long", ops::<T251, 1>()),
    ("two:const:set~Short", ops::<T252, 1>()),
    ("two:const:set~Long", ops::<T253, 1>()),
    ("two:const:sum~Short", ops::<T254, 1>()),
    ("two:const:sum~Long", ops::<T255, 1>()),
    ("two:same:record~Short", ops::<T256, 1>()),
    ("two:same:record~Long", ops::<T257, 1>()),
    ("two:same:tuple~Short", ops::<T258, 1>()),
    ("two:same:tuple~Long", ops::<T259, 1>()),
    ("two:same:set~Short", ops::<T260, 1>()),
    ("two:same:set~Long", ops::<T261, 1>()),
    ("two:same:sum~Short", ops::<T262, 1>()),
    ("two:same:sum~Long", ops::<T263, 1>()),
    ("rec:dup~Short", ops::<T264, 1>()),
    ("rec:dup~Long", ops::<T265, 1>()),
    ("rec:free~Short", ops::<T266, 1>()),
    ("rec:free~Long", ops::<T267, 1>()),
    ("set:free~Short", ops::<T268, 1>()),
    ("set:free~Long", ops::<T269, 1>()),
    ("tup:free~Short", ops::<T270, 1>()),
    ("tup:free~Long", ops::<T271, 1>()),
    ("str:free~Short", ops::<T272, 1>()),
    ("str:free~Long", ops::<T273, 1>()),
    ("id:free~Short", ops::<T274, 1>()),
    ("id:free~Long", ops::<T275, 1>()),
    ("int:free~Short", ops::<T276, 1>()),
    ("int:free~Long", ops::<T277, 1>()),
    ("list:freetail~Short", ops::<T278, 1>()),
    ("list:freetail~Long", ops::<T279, 1>()),
    ("list:norest~Short", ops::<T280, 1>()),
    ("list:norest~Long", ops::<T281, 1>()),
    ("list:constnode~Short", ops::<T282, 1>()),
    ("list:constnode~Long", ops::<T283, 1>()),
    ("list:headconst~Short", ops::<T284, 1>()),
    ("list:headconst~Long", ops::<T285, 1>()),
    ("rec:ids~Short", ops::<T286, 1>()),
    ("rec:ids~Long", ops::<T287, 1>()),
    ("rec:idlit~Short", ops::<T288, 1>()),
    ("rec:idlit~Long", ops::<T289, 1>()),
    ("sum:overlap~Short", ops::<T290, 1>()),
    ("sum:overlap~Long", ops::<T291, 1>()),
    ("sum:varpath~Short", ops::<T292, 1>()),
    ("sum:varpath~Long", ops::<T293, 1>()),
    ("sum:intro~Short", ops::<T294, 1>()),
    ("sum:intro~Long", ops::<T295, 1>()),
    ("rec:predvar~Short", ops::<T296, 1>()),
    ("rec:predvar~Long", ops::<T297, 1>()),
    ("recursive:set~Short", ops::<T298, 1>()),
    ("recursive:set~Long", ops::<T299, 1>()),
    ("tup@-~Long", ops::<T300, 1>()),
    ("rec@g~Short", ops::<T301, 1>()),
    ("sum@g~Long", ops::<T302, 1>()),
    ("rec@v0~Short", ops::<T303, 1>()),
    ("sum@v0~Long", ops::<T304, 1>()),
    ("set[-,inherit](path@-)~Short", ops::<T305, 1>()),
    ("set[-,default](path@-)~Short", ops::<T306, 1>()),
    ("list[-,default](path@-)~Long", ops::<T307, 1>()),
    ("set[-,g](path@-)~Short", ops::<T308, 1>()),
    ("list[-,g](path@-)~Long", ops::<T309, 1>()),
    ("set[-,self](path@-)~Short", ops::<T310, 1>()),
    ("list[-,self](path@-)~Long", ops::<T311, 1>()),
    ("set[-,value](path@-)~Short", ops::<T312, 1>()),
    ("rec[g,inherit](path@-)~Long", ops::<T313, 1>()),
    ("rec[g,self](path@-)~Short", ops::<T314, 1>()),
    ("rec[v0,default](path@-)~Long", ops::<T315, 1>()),
    ("rec[v0,value](path@-)~Short", ops::<T316, 1>()),
    ("sum[-,inherit](rec@-)~Long", ops::<T317, 1>()),
    ("list[-,inherit](rec@-)~Long", ops::<T318, 1>()),
    ("on[inherit](rec@-)~Short", ops::<T319, 1>()),
    ("sum[-,default](rec@-)~Long", ops::<T320, 1>()),
    ("list[-,default](rec@-)~Long", ops::<T321, 1>()),
    ("on[default](rec@-)~Short", ops::<T322, 1>()),
    ("sum[-,g](rec@-)~Long", ops::<T323, 1>()),
    ("list[-,g](rec@-)~Long", ops::<T324, 1>()),
    ("on[g](rec@-)~Short", ops::<T325, 1>()),
    ("sum[-,self](rec@-)~Long", ops::<T326, 1>()),
    ("list[-,self](rec@-)~Long", ops::<T327, 1>()),
    ("on[self](rec@-)~Short", ops::<T328, 1>()),
    ("sum[-,value](rec@-)~Long", ops::<T329, 1>()),
    ("rec[g,default](rec@-)~Short", ops::<T330, 1>()),
    ("rec[g,value](rec@-)~Long", ops::<T331, 1>()),
    ("rec[v0,g](rec@-)~Short", ops::<T332, 1>()),
    ("rec[-,inherit](recopt@-)~Long", ops::<T333, 1>()),
    ("tup[-,inherit](recopt@-)~Short", ops::<T335, 1>()),
    ("list[-,inherit](recopt@-)~Long", ops::<T337, 1>()),
    ("rec[-,default](recopt@-)~Long", ops::<T338, 1>()),
    ("tup[-,default](recopt@-)~Short", ops::<T339, 1>()),
    ("list[-,default](recopt@-)~Long", ops::<T340, 1>()),
    ("rec[-,g](recopt@-)~Long", ops::<T341, 1>()),
    ("tup[-,g](recopt@-)~Short", ops::<T342, 1>()),
    ("list[-,g](recopt@-)~Long", ops::<T343, 1>()),
    ("rec[-,self](recopt@-)~Long", ops::<T344, 1>()),
    ("tup[-,self](recopt@-)~Short", ops::<T345, 1>()),
    ("list[-,self](recopt@-)~Long", ops::<T346, 1>()),
    ("rec[-,value](recopt@-)~Long", ops::<T347, 1>()),
    ("tup[-,value](recopt@-)~Short", ops::<T348, 1>()),
    ("rec[g,g](recopt@-)~Long", ops::<T349, 1>()),
    ("rec[v0,inherit](recopt@-)~Short", ops::<T350, 1>()),
    ("rec[v0,self](recopt@-)~Long", ops::<T351, 1>()),
    ("set[-,inherit](set@-)~Short", ops::<T352, 1>()),
    ("set[-,default](set@-)~Short", ops::<T353, 1>()),
    ("list[-,default](set@-)~Long", ops::<T354, 1>()),
    ("set[-,g](set@-)~Short", ops::<T355, 1>()),
    ("list[-,g](set@-)~Long", ops::<T356, 1>()),
    ("set[-,self](set@-)~Short", ops::<T357, 1>()),
    ("list[-,self](set@-)~Long", ops::<T358, 1>()),
    ("set[-,value](set@-)~Short", ops::<T359, 1>()),
    ("rec[g,inherit](set@-)~Long", ops::<T360, 1>()),
    ("rec[g,self](set@-)~Short", ops::<T361, 1>()),
    ("rec[v0,default](set@-)~Long", ops::<T362, 1>()),
    ("rec[v0,value](set@-)~Short", ops::<T363, 1>()),
    ("sum[-,inherit](sum@-)~Long", ops::<T364, 1>()),
    ("list[-,inherit](sum@-)~Long", ops::<T365, 1>()),
    ("on[inherit](sum@-)~Short", ops::<T366, 1>()),
    ("sum[-,default](sum@-)~Long", ops::<T367, 1>()),
    ("list[-,default](sum@-)~Long", ops::<T368, 1>()),
    ("on[default](sum@-)~Short", ops::<T369, 1>()),
    ("sum[-,g](sum@-)~Long", ops::<T370, 1>()),
    ("list[-,g](sum@-)~Long", ops::<T371, 1>()),
    ("on[g](sum@-)~Short", ops::<T372, 1>()),
    ("sum[-,self](sum@-)~Long", ops::<T373, 1>()),
    ("list[-,self](sum@-)~Long", ops::<T374, 1>()),
    ("on[self](sum@-)~Short", ops::<T375, 1>()),
    ("sum[-,value](sum@-)~Long", ops::<T376, 1>()),
    ("rec[g,default](sum@-)~Short", ops::<T377, 1>()),
    ("rec[g,value](sum@-)~Long", ops::<T378, 1>()),
    ("rec[v0,g](sum@-)~Short", ops::<T379, 1>()),
    ("rec[-,inherit](unit@-)~Long", ops::<T380, 1>()),
    ("tup[-,inherit](unit@-)~Short", ops::<T382, 1>()),
    ("list[-,inherit](unit@-)~Long", ops::<T384, 1>()),
    ("rec[-,default](unit@-)~Long", ops::<T385, 1>()),
    ("tup[-,default](unit@-)~Short", ops::<T386, 1>()),
    ("list[-,default](unit@-)~Long", ops::<T387, 1>()),
    ("rec[-,g](unit@-)~Long", ops::<T388, 1>()),
    ("tup[-,g](unit@-)~Short", ops::<T389, 1>()),
    ("list[-,g](unit@-)~Long", ops::<T390, 1>()),
    ("rec[-,self](unit@-)~Long", ops::<T391, 1>()),
    ("tup[-,self](unit@-)~Short", ops::<T392, 1>()),
    ("list[-,self](unit@-)~Long", ops::<T393, 1>()),
    ("rec[-,value](unit@-)~Long", ops::<T394, 1>()),
    ("tup[-,value](unit@-)~Short", ops::<T395, 1>()),
    ("rec[g,g](unit@-)~Long", ops::<T396, 1>()),
    ("rec[v0,inherit](unit@-)~Short", ops::<T397, 1>()),
    ("rec[v0,self](unit@-)~Long", ops::<T398, 1>()),
    ("set[-,inherit](tup@-)~Short", ops::<T399, 1>()),
    ("list[-,inherit](tup@-)~Long", ops::<T401, 1>()),
    ("set[-,default](tup@-)~Short", ops::<T402, 1>()),
    ("list[-,default](tup@-)~Long", ops::<T403, 1>()),
    ("set[-,g](tup@-)~Short", ops::<T404, 1>()),
    ("list[-,g](tup@-)~Long", ops::<T405, 1>()),
    ("set[-,self](tup@-)~Short", ops::<T406, 1>()),
    ("list[-,self](tup@-)~Long", ops::<T407, 1>()),
    ("set[-,value](tup@-)~Short", ops::<T408, 1>()),
    ("rec[g,inherit](tup@-)~Long", ops::<T409, 1>()),
    ("rec[g,self](tup@-)~Short", ops::<T410, 1>()),
    ("rec[v0,default](tup@-)~Long", ops::<T411, 1>()),
    ("rec[v0,value](tup@-)~Short", ops::<T412, 1>()),
    ("rec[-,inherit](list@-)~Long", ops::<T413, 1>()),
    ("set[-,inherit](list@-)~Short", ops::<T414, 1>()),
    ("sum[-,inherit](list@-)~Long", ops::<T415, 1>()),
    ("tup[-,inherit](list@-)~Short", ops::<T416, 1>()),
    ("on[inherit](list@-)~Long", ops::<T417, 1>()),
    ("rec[-,default](list@-)~Short", ops::<T418, 1>()),
    ("set[-,default](list@-)~Long", ops::<T419, 1>()),
    ("sum[-,default](list@-)~Short", ops::<T420, 1>()),
    ("tup[-,default](list@-)~Long", ops::<T421, 1>()),
    ("on[default](list@-)~Short", ops::<T422, 1>()),
    ("rec[-,g](list@-)~Long", ops::<T423, 1>()),
    ("set[-,g](list@-)~Short", ops::<T424, 1>()),
    ("sum[-,g](list@-)~Long", ops::<T425, 1>()),
    ("tup[-,g](list@-)~Short", ops::<T426, 1>()),
    ("on[g](list@-)~Long", ops::<T427, 1>()),
    ("rec[-,self](list@-)~Short", ops::<T428, 1>()),
    ("set[-,self](list@-)~Long", ops::<T429, 1>()),
    ("sum[-,self](list@-)~Short", ops::<T430, 1>()),
    ("tup[-,self](list@-)~Long", ops::<T431, 1>()),
    ("on[self](list@-)~Short", ops::<T432, 1>()),
    ("rec[-,value](list@-)~Long", ops::<T433, 1>()),
    ("set[-,value](list@-)~Short", ops::<T434, 1>()),
    ("sum[-,value](list@-)~Long", ops::<T435, 1>()),
    ("tup[-,value](list@-)~Short", ops::<T436, 1>()),
    ("rec[g,inherit](list@-)~Long", ops::<T437, 1>()),
    ("rec[g,default](list@-)~Short", ops::<T438, 1>()),
    ("rec[g,g](list@-)~Long", ops::<T439, 1>()),
    ("rec[g,self](list@-)~Short", ops::<T440, 1>()),
    ("rec[g,value](list@-)~Long", ops::<T441, 1>()),
    ("rec[v0,inherit](list@-)~Short", ops::<T442, 1>()),
    ("rec[v0,default](list@-)~Long", ops::<T443, 1>()),
    ("rec[v0,g](list@-)~Short", ops::<T444, 1>()),
    ("rec[v0,self](list@-)~Long", ops::<T445, 1>()),
    ("rec[v0,value](list@-)~Short", ops::<T446, 1>()),
    ("set[-,inherit](path@g)~Short", ops::<T447, 1>()),
    ("list[-,inherit](path@g)~Long", ops::<T449, 1>()),
    ("set[-,default](path@g)~Short", ops::<T451, 1>()),
    ("list[-,default](path@g)~Long", ops::<T452, 1>()),
    ("set[-,g](path@g)~Short", ops::<T453, 1>()),
    ("list[-,g](path@g)~Long", ops::<T454, 1>()),
    ("set[-,self](path@g)~Short", ops::<T455, 1>()),
    ("list[-,self](path@g)~Long", ops::<T456, 1>()),
    ("set[-,value](path@g)~Short", ops::<T457, 1>()),
    ("rec[-,inherit](rec@g)~Long", ops::<T458, 1>()),
    ("tup[-,inherit](rec@g)~Short", ops::<T460, 1>()),
    ("list[-,inherit](rec@g)~Long", ops::<T461, 1>()),
    ("rec[-,default](rec@g)~Long", ops::<T462, 1>()),
    ("tup[-,default](rec@g)~Short", ops::<T463, 1>()),
    ("list[-,default](rec@g)~Long", ops::<T464, 1>()),
    ("rec[-,g](rec@g)~Long", ops::<T465, 1>()),
    ("tup[-,g](rec@g)~Short", ops::<T466, 1>()),
    ("list[-,g](rec@g)~Long", ops::<T467, 1>()),
    ("rec[-,self](rec@g)~Long", ops::<T468, 1>()),
    ("tup[-,self](rec@g)~Short", ops::<T469, 1>()),
    ("list[-,self](rec@g)~Long", ops::<T470, 1>()),
    ("rec[-,value](rec@g)~Long", ops::<T471, 1>()),
    ("tup[-,value](rec@g)~Short", ops::<T472, 1>()),
    ("sum[-,inherit](recopt@g)~Long", ops::<T473, 1>()),
    ("list[-,inherit](recopt@g)~Long", ops::<T475, 1>()),
    ("on[inherit](recopt@g)~Short", ops::<T476, 1>()),
    ("sum[-,default](recopt@g)~Long", ops::<T478, 1>()),
    ("list[-,default](recopt@g)~Long", ops::<T479, 1>()),
    ("on[default](recopt@g)~Short", ops::<T480, 1>()),
    ("sum[-,g](recopt@g)~Long", ops::<T481, 1>()),
    ("list[-,g](recopt@g)~Long", ops::<T482, 1>()),
    ("on[g](recopt@g)~Short", ops::<T483, 1>()),
    ("sum[-,self](recopt@g)~Long", ops::<T484, 1>()),
    ("list[-,self](recopt@g)~Long", ops::<T485, 1>()),
    ("on[self](recopt@g)~Short", ops::<T486, 1>()),
    ("sum[-,value](recopt@g)~Long", ops::<T487, 1>()),
    ("set[-,inherit](set@g)~Short", ops::<T488, 1>()),
    ("list[-,inherit](set@g)~Long", ops::<T490, 1>()),
    ("set[-,default](set@g)~Short", ops::<T492, 1>()),
    ("list[-,default](set@g)~Long", ops::<T493, 1>()),
    ("set[-,g](set@g)~Short", ops::<T494, 1>()),
    ("list[-,g](set@g)~Long", ops::<T495, 1>()),
    ("set[-,self](set@g)~Short", ops::<T496, 1>()),
    ("list[-,self](set@g)~Long", ops::<T497, 1>()),
    ("set[-,value](set@g)~Short", ops::<T498, 1>()),
    ("rec[-,inherit](sum@g)~Long", ops::<T499, 1>()),
    ("tup[-,inherit](sum@g)~Short", ops::<T500, 1>()),
    ("list[-,inherit](sum@g)~Long", ops::<T502, 1>()),
    ("rec[-,default](sum@g)~Long", ops::<T503, 1>()),
    ("tup[-,default](sum@g)~Short", ops::<T504, 1>()),
    ("list[-,default](sum@g)~Long", ops::<T505, 1>()),
    ("rec[-,g](sum@g)~Long", ops::<T506, 1>()),
    ("tup[-,g](sum@g)~Short", ops::<T507, 1>()),
    ("list[-,g](sum@g)~Long", ops::<T508, 1>()),
    ("rec[-,self](sum@g)~Long", ops::<T509, 1>()),
    ("tup[-,self](sum@g)~Short", ops::<T510, 1>()),
    ("list[-,self](sum@g)~Long", ops::<T511, 1>()),
    ("rec[-,value](sum@g)~Long", ops::<T512, 1>()),
    ("tup[-,value](sum@g)~Short", ops::<T513, 1>()),
    ("sum[-,inherit](unit@g)~Long", ops::<T514, 1>()),
    ("list[-,inherit](unit@g)~Long", ops::<T516, 1>()),
    ("on[inherit](unit@g)~Short", ops::<T517, 1>()),
    ("sum[-,default](unit@g)~Long", ops::<T519, 1>()),
    ("list[-,default](unit@g)~Long", ops::<T520, 1>()),
    ("on[default](unit@g)~Short", ops::<T521, 1>()),
    ("sum[-,g](unit@g)~Long", ops::<T522, 1>()),
    ("list[-,g](unit@g)~Long", ops::<T523, 1>()),
    ("on[g](unit@g)~Short", ops::<T524, 1>()),
    ("sum[-,self](unit@g)~Long", ops::<T525, 1>()),
    ("list[-,self](unit@g)~Long", ops::<T526, 1>()),
    ("on[self](unit@g)~Short", ops::<T527, 1>()),
    ("sum[-,value](unit@g)~Long", ops::<T528, 1>()),
    ("set[-,inherit](path@v0)~Short", ops::<T529, 1>()),
    ("list[-,inherit](path@v0)~Long", ops::<T531, 1>()),
    ("set[-,default](path@v0)~Short", ops::<T533, 1>()),
    ("list[-,default](path@v0)~Long", ops::<T534, 1>()),
    ("set[-,g](path@v0)~Short", ops::<T535, 1>()),
    ("list[-,g](path@v0)~Long", ops::<T536, 1>()),
    ("set[-,self](path@v0)~Short", ops::<T537, 1>()),
    ("list[-,self](path@v0)~Long", ops::<T538, 1>()),
    ("set[-,value](path@v0)~Short", ops::<T539, 1>()),
    ("rec[-,inherit](rec@v0)~Long", ops::<T540, 1>()),
    ("tup[-,inherit](rec@v0)~Short", ops::<T542, 1>()),
    ("list[-,inherit](rec@v0)~Long", ops::<T543, 1>()),
    ("rec[-,default](rec@v0)~Long", ops::<T544, 1>()),
    ("tup[-,default](rec@v0)~Short", ops::<T545, 1>()),
    ("list[-,default](rec@v0)~Long", ops::<T546, 1>()),
    ("rec[-,g](rec@v0)~Long", ops::<T547, 1>()),
    ("tup[-,g](rec@v0)~Short", ops::<T548, 1>()),
    ("list[-,g](rec@v0)~Long", ops::<T549, 1>()),
    ("rec[-,self](rec@v0)~Long", ops::<T550, 1>()),
    ("tup[-,self](rec@v0)~Short", ops::<T551, 1>()),
    ("list[-,self](rec@v0)~Long", ops::<T552, 1>()),
    ("rec[-,value](rec@v0)~Long", ops::<T553, 1>()),
    ("tup[-,value](rec@v0)~Short", ops::<T554, 1>()),
    ("sum[-,inherit](recopt@v0)~Long", ops::<T555, 1>()),
    ("list[-,inherit](recopt@v0)~Long", ops::<T557, 1>()),
    ("on[inherit](recopt@v0)~Short", ops::<T558, 1>()),
    ("sum[-,default](recopt@v0)~Long", ops::<T560, 1>()),
    ("list[-,default](recopt@v0)~Long", ops::<T561, 1>()),
    ("on[default](recopt@v0)~Short", ops::<T562, 1>()),
    ("sum[-,g](recopt@v0)~Long", ops::<T563, 1>()),
    ("list[-,g](recopt@v0)~Long", ops::<T564, 1>()),
    ("on[g](recopt@v0)~Short", ops::<T565, 1>()),
    ("sum[-,self](recopt@v0)~Long", ops::<T566, 1>()),
    ("list[-,self](recopt@v0)~Long", ops::<T567, 1>()),
    ("on[self](recopt@v0)~Short", ops::<T568, 1>()),
    ("sum[-,value](recopt@v0)~Long", ops::<T569, 1>()),
    ("set[-,inherit](set@v0)~Short", ops::<T570, 1>()),
    ("list[-,inherit](set@v0)~Long", ops::<T572, 1>()),
    ("set[-,default](set@v0)~Short", ops::<T574, 1>()),
    ("list[-,default](set@v0)~Long", ops::<T575, 1>()),
    ("set[-,g](set@v0)~Short", ops::<T576, 1>()),
    ("list[-,g](set@v0)~Long", ops::<T577, 1>()),
    ("set[-,self](set@v0)~Short", ops::<T578, 1>()),
    ("list[-,self](set@v0)~Long", ops::<T579, 1>()),
    ("set[-,value](set@v0)~Short", ops::<T580, 1>()),
    ("rec[-,inherit](sum@v0)~Long", ops::<T581, 1>()),
    ("tup[-,inherit](sum@v0)~Short", ops::<T582, 1>()),
    ("list[-,inherit](sum@v0)~Long", ops::<T584, 1>()),
    ("rec[-,default](sum@v0)~Long", ops::<T585, 1>()),
    ("tup[-,default](sum@v0)~Short", ops::<T586, 1>()),
    ("list[-,default](sum@v0)~Long", ops::<T587, 1>()),
    ("rec[-,g](sum@v0)~Long", ops::<T588, 1>()),
    ("tup[-,g](sum@v0)~Short", ops::<T589, 1>()),
    ("list[-,g](sum@v0)~Long", ops::<T590, 1>()),
    ("rec[-,self](sum@v0)~Long", ops::<T591, 1>()),
    ("tup[-,self](sum@v0)~Short", ops::<T592, 1>()),
    ("list[-,self](sum@v0)~Long", ops::<T593, 1>()),
    ("rec[-,value](sum@v0)~Long", ops::<T594, 1>()),
    ("tup[-,value](sum@v0)~Short", ops::<T595, 1>()),
    ("sum[-,inherit](unit@v0)~Long", ops::<T596, 1>()),
    ("list[-,inherit](unit@v0)~Long", ops::<T598, 1>()),
    ("on[inherit](unit@v0)~Short", ops::<T599, 1>()),
    ("sum[-,default](unit@v0)~Long", ops::<T601, 1>()),
    ("list[-,default](unit@v0)~Long", ops::<T602, 1>()),
    ("on[default](unit@v0)~Short", ops::<T603, 1>()),
    ("sum[-,g](unit@v0)~Long", ops::<T604, 1>()),
    ("list[-,g](unit@v0)~Long", ops::<T605, 1>()),
    ("on[g](unit@v0)~Short", ops::<T606, 1>()),
    ("sum[-,self](unit@v0)~Long", ops::<T607, 1>()),
    ("list[-,self](unit@v0)~Long", ops::<T608, 1>()),
    ("on[self](unit@v0)~Short", ops::<T609, 1>()),
    ("sum[-,value](unit@v0)~Long", ops::<T610, 1>()),
    ("rec3[default](rec[-,inherit](path@-))~Short", ops::<T611, 1>()),
    ("rec3[value](rec[-,inherit](path@-))~Long", ops::<T613, 1>()),
    ("rec3[g](on[inherit](path@-))~Short", ops::<T615, 1>()),
    ("rec3[inherit](rec[-,default](path@-))~Long", ops::<T617, 1>()),
    ("rec3[self](rec[-,default](path@-))~Short", ops::<T619, 1>()),
    ("rec3[default](on[default](path@-))~Long", ops::<T621, 1>()),
    ("rec3[value](on[default](path@-))~Short", ops::<T623, 1>()),
    ("rec3[g](rec[-,g](path@-))~Long", ops::<T625, 1>()),
    ("rec3[inherit](on[g](path@-))~Short", ops::<T627, 1>()),
    ("rec3[self](on[g](path@-))~Long", ops::<T629, 1>()),
    ("rec3[default](rec[-,self](path@-))~Short", ops::<T631, 1>()),
    ("rec3[value](rec[-,self](path@-))~Long", ops::<T633, 1>()),
    ("rec3[g](on[self](path@-))~Short", ops::<T635, 1>()),
    ("rec3[inherit](rec[-,value](path@-))~Long", ops::<T637, 1>()),
    ("rec3[self](rec[-,value](path@-))~Short", ops::<T639, 1>()),
    ("rec3[default](rec[-,inherit](rec@-))~Long", ops::<T641, 1>()),
    ("rec3[value](rec[-,inherit](rec@-))~Short", ops::<T643, 1>()),
    ("rec3[g](on[inherit](rec@-))~Long", ops::<T645, 1>()),
    ("rec3[inherit](rec[-,default](rec@-))~Short", ops::<T647, 1>()),
    ("rec3[self](rec[-,default](rec@-))~Long", ops::<T649, 1>()),
    ("rec3[default](on[default](rec@-))~Short", ops::<T651, 1>()),
    ("rec3[value](on[default](rec@-))~Long", ops::<T652, 1>()),
    ("rec3[g](rec[-,g](rec@-))~Short", ops::<T654, 1>()),
    ("rec3[inherit](on[g](rec@-))~Long", ops::<T656, 1>()),
    ("rec3[self](on[g](rec@-))~Short", ops::<T658, 1>()),
    ("rec3[default](rec[-,self](rec@-))~Long", ops::<T659, 1>()),
    ("rec3[value](rec[-,self](rec@-))~Short", ops::<T661, 1>()),
    ("rec3[g](on[self](rec@-))~Long", ops::<T663, 1>()),
    ("rec3[inherit](rec[-,value](rec@-))~Short", ops::<T665, 1>()),
    ("rec3[self](rec[-,value](rec@-))~Long", ops::<T667, 1>()),
    ("pat[0p0,,header]~Long", ops::<T669, 1>()),
    ("pat[010@g,,header]~Long", ops::<T670, 1>()),
    ("pat[020@1,,header]~Long", ops::<T671, 1>()),
    ("pat[1p0@2,,header]~Long", ops::<T672, 1>()),
    ("pat[111,,header]~Long", ops::<T673, 1>()),
    ("pat[121@g,,header]~Long", ops::<T674, 1>()),
    ("pat[2p1@1,,header]~Long", ops::<T675, 1>()),
    ("pat[211@2,,header]~Long", ops::<T676, 1>()),
    ("pat[222,,header]~Long", ops::<T677, 1>()),
    ("pat[ap2@g,,header]~Long", ops::<T678, 1>()),
    ("pat[a12@1,,header]~Long", ops::<T679, 1>()),
    ("pat[a22@2,,header]~Long", ops::<T680, 1>()),
    ("pat[0p0@1,0p1@1,item]~Long", ops::<T681, 1>()),
    ("pat[0p0@1,0p2@1,field]~Long", ops::<T682, 1>()),
    ("pat[0p0@1,1p1,variant]~Long", ops::<T683, 1>()),
    ("pat[0p0@1,1p2,header]~Long", ops::<T684, 1>()),
    ("pat[0p0@1,1p2@2,set]~Long", ops::<T685, 1>()),
    ("pat[0p0@1,2p1@1,node]~Long", ops::<T686, 1>()),
    ("pat[0p0@1,2p2@1,optional]~Long", ops::<T687, 1>()),
    ("pat[0p0@1,012,item]~Long", ops::<T688, 1>()),
    ("pat[0p0@1,012@2,variant]~Long", ops::<T689, 1>()),
    ("pat[0p0@1,022@1,set]~Long", ops::<T690, 1>()),
    ("pat[0p1,0p1@1,field]~Long", ops::<T691, 1>()),
    ("pat[0p1,0p2,variant]~Long", ops::<T692, 1>()),
    ("pat[0p1,1p1,header]~Long", ops::<T693, 1>()),
    ("pat[0p1,1p1@2,set]~Long", ops::<T694, 1>()),
    ("pat[0p1,1p2@1,node]~Long", ops::<T695, 1>()),
    ("pat[0p1,2p1@1,optional]~Long", ops::<T696, 1>()),
    ("pat[0p1,2p2,item]~Long", ops::<T697, 1>()),
    ("pat[0p1,012,field]~Long", ops::<T698, 1>()),
    ("pat[0p1,012@2,header]~Long", ops::<T699, 1>()),
    ("pat[0p1,022@g,item]~Long", ops::<T700, 1>()),
    ("pat[0p1@g,0p1,variant]~Long", ops::<T701, 1>()),
    ("pat[0p1@g,0p2,header]~Long", ops::<T702, 1>()),
    ("pat[0p1@g,0p2@2,set]~Long", ops::<T703, 1>()),
    ("pat[0p1@g,1p1@1,node]~Long", ops::<T704, 1>()),
    ("pat[0p1@g,1p2@1,optional]~Long", ops::<T705, 1>()),
    ("pat[0p1@g,2p1,item]~Long", ops::<T706, 1>()),
    ("pat[0p1@g,2p2,field]~Long", ops::<T707, 1>()),
    ("pat[0p1@g,2p2@2,variant]~Long", ops::<T708, 1>()),
    ("pat[0p1@g,012@1,optional]~Long", ops::<T709, 1>()),
    ("pat[0p1@g,022@g,field]~Long", ops::<T710, 1>()),
    ("pat[0p1@1,0p1,header]~Long", ops::<T711, 1>()),
    ("pat[0p1@1,0p1@2,set]~Long", ops::<T712, 1>()),
    ("pat[0p1@1,0p2@1,node]~Long", ops::<T713, 1>()),
    ("pat[0p1@1,1p1@1,optional]~Long", ops::<T714, 1>()),
    ("pat[0p1@1,1p2,item]~Long", ops::<T715, 1>()),
    ("pat[0p1@1,2p1,field]~Long", ops::<T716, 1>()),
    ("pat[0p1@1,2p1@2,variant]~Long", ops::<T717, 1>()),
    ("pat[0p1@1,2p2@2,header]~Long", ops::<T718, 1>()),
    ("pat[0p1@1,012@g,variant]~Long", ops::<T719, 1>()),
    ("pat[0p1@1,022,set]~Long", ops::<T720, 1>()),
    ("pat[0p1@1,022@2,optional]~Long", ops::<T721, 1>()),
    ("pat[010,0p1@2,field]~Long", ops::<T722, 1>()),
    ("pat[010,0p2@2,header]~Long", ops::<T723, 1>()),
    ("pat[010,1p1@1,item]~Long", ops::<T724, 1>()),
    ("pat[010,1p2@1,variant]~Long", ops::<T725, 1>()),
    ("pat[010,2p1@1,set]~Long", ops::<T726, 1>()),
    ("pat[010,2p2@1,optional]~Long", ops::<T727, 1>()),
    ("pat[010,012@g,field]~Long", ops::<T728, 1>()),
    ("pat[010,022,header]~Long", ops::<T729, 1>()),
    ("pat[010,022@1,item]~Long", ops::<T730, 1>()),
    ("pat[010@g,0p1@1,variant]~Long", ops::<T731, 1>()),
    ("pat[010@g,0p2@1,set]~Long", ops::<T732, 1>()),
    ("pat[010@g,1p1@1,optional]~Long", ops::<T733, 1>()),
    ("pat[010@g,1p2@1,field]~Long", ops::<T734, 1>()),
    ("pat[010@g,2p1@1,header]~Long", ops::<T735, 1>()),
    ("pat[010@g,2p2,item]~Long", ops::<T736, 1>()),
    ("pat[010@g,012,variant]~Long", ops::<T737, 1>()),
    ("pat[010@g,012@2,set]~Long", ops::<T738, 1>()),
    ("pat[010@g,022@1,optional]~Long", ops::<T739, 1>()),
    ("pat[010@1,0p1@1,field]~Long", ops::<T740, 1>()),
    ("pat[010@1,0p2@1,header]~Long", ops::<T741, 1>()),
    ("pat[010@1,1p1,item]~Long", ops::<T742, 1>()),
    ("pat[010@1,1p2,variant]~Long", ops::<T743, 1>()),
    ("pat[010@1,2p1,set]~Long", ops::<T744, 1>()),
    ("pat[010@1,2p2,optional]~Long", ops::<T745, 1>()),
    ("pat[010@1,012,field]~Long", ops::<T746, 1>()),
    ("pat[010@1,012@2,header]~Long", ops::<T747, 1>()),
    ("pat[010@1,022@g,item]~Long", ops::<T748, 1>()),
    ("pat[011,0p1,variant]~Long", ops::<T749, 1>()),
    ("pat[011,0p2,set]~Long", ops::<T750, 1>()),
    ("pat[011,1p1,optional]~Long", ops::<T751, 1>()),
    ("pat[011,1p2,field]~Long", ops::<T752, 1>()),
    ("pat[011,2p1,header]~Long", ops::<T753, 1>()),
    ("pat[011,2p1@2,item]~Long", ops::<T754, 1>()),
    ("pat[011,2p2@2,variant]~Long", ops::<T755, 1>()),
    ("pat[011,012@1,set]~Long", ops::<T756, 1>()),
    ("pat[011,022@g,optional]~Long", ops::<T757, 1>()),
    ("pat[011@g,0p1,field]~Long", ops::<T758, 1>()),
    ("pat[011@g,0p2,header]~Long", ops::<T759, 1>()),
    ("pat[011@g,0p2@2,item]~Long", ops::<T760, 1>()),
    ("pat[011@g,1p1@2,variant]~Long", ops::<T761, 1>()),
    ("pat[011@g,1p2@2,set]~Long", ops::<T762, 1>()),
    ("pat[011@g,2p1@2,optional]~Long", ops::<T763, 1>()),
    ("pat[011@g,2p2@2,field]~Long", ops::<T764, 1>()),
    ("pat[011@g,012@1,header]~Long", ops::<T765, 1>()),
    ("pat[011@g,022,item]~Long", ops::<T766, 1>()),
    ("pat[011@g,022@2,variant]~Long", ops::<T767, 1>()),
    ("pat[011@1,0p1@2,set]~Long", ops::<T768, 1>()),
    ("pat[011@1,0p2@2,optional]~Long", ops::<T769, 1>()),
    ("pat[011@1,1p1@2,field]~Long", ops::<T770, 1>()),
    ("pat[011@1,1p2@2,header]~Long", ops::<T771, 1>()),
    ("pat[011@1,2p1@1,item]~Long", ops::<T772, 1>()),
    ("pat[011@1,2p2@1,variant]~Long", ops::<T773, 1>()),
    ("pat[011@1,012@g,set]~Long", ops::<T774, 1>()),
    ("pat[011@1,022,optional]~Long", ops::<T775, 1>()),
    ("pat[011@1,022@2,field]~Long", ops::<T776, 1>()),
    ("pat[1p0,0p1@1,item]~Long", ops::<T777, 1>()),
    ("pat[1p0,0p2@1,field]~Long", ops::<T778, 1>()),
    ("pat[1p0,1p1,variant]~Long", ops::<T779, 1>()),
    ("pat[1p0,1p2,header]~Long", ops::<T780, 1>()),
    ("pat[1p0,1p2@2,set]~Long", ops::<T781, 1>()),
    ("pat[1p0,2p1@1,node]~Long", ops::<T782, 1>()),
    ("pat[1p0,2p2@1,optional]~Long", ops::<T783, 1>()),
    ("pat[1p0,012,item]~Long", ops::<T784, 1>()),
    ("pat[1p0,012@2,variant]~Long", ops::<T785, 1>()),
    ("pat[1p0,022@1,set]~Long", ops::<T786, 1>()),
    ("pat[1p0@g,0p1@1,field]~Long", ops::<T787, 1>()),
    ("pat[1p0@g,0p2,variant]~Long", ops::<T788, 1>()),
    ("pat[1p0@g,1p1,header]~Long", ops::<T789, 1>()),
    ("pat[1p0@g,1p1@2,set]~Long", ops::<T790, 1>()),
    ("pat[1p0@g,1p2@1,node]~Long", ops::<T791, 1>()),
    ("pat[1p0@g,2p1@1,optional]~Long", ops::<T792, 1>()),
    ("pat[1p0@g,2p2,item]~Long", ops::<T793, 1>()),
    ("pat[1p0@g,012,field]~Long", ops::<T794, 1>()),
    ("pat[1p0@g,012@2,header]~Long", ops::<T795, 1>()),
    ("pat[1p0@g,022@g,item]~Long", ops::<T796, 1>()),
    ("pat[1p0@1,0p1,variant]~Long", ops::<T797, 1>()),
    ("pat[1p0@1,0p2,header]~Long", ops::<T798, 1>()),
    ("pat[1p0@1,0p2@2,set]~Long", ops::<T799, 1>()),
    ("pat[1p0@1,1p1@1,node]~Long", ops::<T800, 1>()),
    ("pat[1p0@1,1p2@1,optional]~Long", ops::<T801, 1>()),
    ("pat[1p0@1,2p1,item]~Long", ops::<T802, 1>()),
    ("pat[1p0@1,2p2,field]~Long", ops::<T803, 1>()),
    ("pat[1p0@1,2p2@2,variant]~Long", ops::<T804, 1>()),
    ("pat[1p0@1,012@1,optional]~Long", ops::<T805, 1>()),
    ("pat[1p0@1,022@g,field]~Long", ops::<T806, 1>()),
    ("pat[1p1,0p1,header]~Long", ops::<T807, 1>()),
    ("pat[1p1,0p1@2,set]~Long", ops::<T808, 1>()),
    ("pat[1p1,0p2@1,node]~Long", ops::<T809, 1>()),
    ("pat[1p1,1p1@1,optional]~Long", ops::<T810, 1>()),
    ("pat[1p1,1p2,item]~Long", ops::<T811, 1>()),
    ("pat[1p1,2p1,field]~Long", ops::<T812, 1>()),
    ("pat[1p1,2p1@2,variant]~Long", ops::<T813, 1>()),
    ("pat[1p1,2p2@2,header]~Long", ops::<T814, 1>()),
    ("pat[1p1,012@g,variant]~Long", ops::<T815, 1>()),
    ("pat[1p1,022,set]~Long", ops::<T816, 1>()),
    ("pat[1p1,022@2,optional]~Long", ops::<T817, 1>()),
    ("pat[1p1@g,0p1@1,node]~Long", ops::<T818, 1>()),
    ("pat[1p1@g,0p2@1,optional]~Long", ops::<T819, 1>()),
    ("pat[1p1@g,1p1,item]~Long", ops::<T820, 1>()),
    ("pat[1p1@g,1p2,field]~Long", ops::<T821, 1>()),
    ("pat[1p1@g,1p2@2,variant]~Long", ops::<T822, 1>()),
    ("pat[1p1@g,2p1@2,header]~Long", ops::<T823, 1>()),
    ("pat[1p1@g,2p2@1,set]~Long", ops::<T824, 1>()),
    ("pat[1p1@g,012@g,header]~Long", ops::<T825, 1>()),
    ("pat[1p1@g,012@2,item]~Long", ops::<T826, 1>()),
    ("pat[1p1@g,022@1,variant]~Long", ops::<T827, 1>()),
    ("pat[1p1@1,0p1@1,optional]~Long", ops::<T828, 1>()),
    ("pat[1p1@1,0p2,item]~Long", ops::<T829, 1>()),
    ("pat[1p1@1,1p1,field]~Long", ops::<T830, 1>()),
    ("pat[1p1@1,1p1@2,variant]~Long", ops::<T831, 1>()),
    ("pat[1p1@1,1p2@2,header]~Long", ops::<T832, 1>()),
    ("pat[1p1@1,2p1@1,set]~Long", ops::<T833, 1>()),
    ("pat[1p1@1,2p2,node]~Long", ops::<T834, 1>()),
    ("pat[1p1@1,012,optional]~Long", ops::<T835, 1>()),
    ("pat[1p1@1,012@2,field]~Long", ops::<T836, 1>()),
    ("pat[1p1@1,022@1,header]~Long", ops::<T837, 1>()),
    ("pat[110,0p1,item]~Long", ops::<T838, 1>()),
    ("pat[110,0p2,variant]~Long", ops::<T839, 1>()),
    ("pat[110,1p1,set]~Long", ops::<T840, 1>()),
    ("pat[110,1p2,optional]~Long", ops::<T841, 1>()),
    ("pat[110,2p1,field]~Long", ops::<T842, 1>()),
    ("pat[110,2p2,header]~Long", ops::<T843, 1>()),
    ("pat[110,2p2@2,item]~Long", ops::<T844, 1>()),
    ("pat[110,012@1,variant]~Long", ops::<T845, 1>()),
    ("pat[110,022@g,set]~Long", ops::<T846, 1>()),
    ("pat[110@g,0p1,optional]~Long", ops::<T847, 1>()),
    ("pat[110@g,0p2,field]~Long", ops::<T848, 1>()),
    ("pat[110@g,1p1,header]~Long", ops::<T849, 1>()),
    ("pat[110@g,1p1@2,item]~Long", ops::<T850, 1>()),
    ("pat[110@g,1p2@2,variant]~Long", ops::<T851, 1>()),
    ("pat[110@g,2p1@2,set]~Long", ops::<T852, 1>()),
    ("pat[110@g,2p2@2,optional]~Long", ops::<T853, 1>()),
    ("pat[110@g,012@1,field]~Long", ops::<T854, 1>()),
    ("pat[110@g,022@g,header]~Long", ops::<T855, 1>()),
    ("pat[110@g,022@2,item]~Long", ops::<T856, 1>()),
    ("pat[110@1,0p1@2,variant]~Long", ops::<T857, 1>()),
    ("pat[110@1,0p2@2,set]~Long", ops::<T858, 1>()),
    ("pat[110@1,1p1@2,optional]~Long", ops::<T859, 1>()),
    ("pat[110@1,1p2@2,field]~Long", ops::<T860, 1>()),
    ("pat[110@1,2p1@2,header]~Long", ops::<T861, 1>()),
    ("pat[110@1,2p2@1,item]~Long", ops::<T862, 1>()),
    ("pat[110@1,012@g,variant]~Long", ops::<T863, 1>()),
    ("pat[110@1,022,set]~Long", ops::<T864, 1>()),
    ("pat[110@1,022@2,optional]~Long", ops::<T865, 1>()),
    ("pat[111,0p1@2,field]~Long", ops::<T866, 1>()),
    ("pat[111,0p2@2,header]~Long", ops::<T867, 1>()),
    ("pat[111,1p1@1,item]~Long", ops::<T868, 1>()),
    ("pat[111,1p2@1,variant]~Long", ops::<T869, 1>()),
    ("pat[111,2p1@1,set]~Long", ops::<T870, 1>()),
    ("pat[111,2p2@1,optional]~Long", ops::<T871, 1>()),
    ("pat[111,012@g,field]~Long", ops::<T872, 1>()),
    ("pat[111,022,header]~Long", ops::<T873, 1>()),
    ("pat[111,022@1,item]~Long", ops::<T874, 1>()),
    ("pat[111@g,0p1@1,variant]~Long", ops::<T875, 1>()),
    ("pat[111@g,0p2@1,set]~Long", ops::<T876, 1>()),
    ("pat[111@g,1p1@1,optional]~Long", ops::<T877, 1>()),
    ("pat[111@g,1p2@1,field]~Long", ops::<T878, 1>()),
    ("pat[111@g,2p1@1,header]~Long", ops::<T879, 1>()),
    ("pat[111@g,2p2,item]~Long", ops::<T880, 1>()),
    ("pat[111@g,012,variant]~Long", ops::<T881, 1>()),
    ("pat[111@g,012@2,set]~Long", ops::<T882, 1>()),
    ("pat[111@g,022@1,optional]~Long", ops::<T883, 1>()),
    ("pat[111@1,0p1@1,field]~Long", ops::<T884, 1>()),
    ("pat[111@1,0p2@1,header]~Long", ops::<T885, 1>()),
    ("pat[111@1,1p1,item]~Long", ops::<T886, 1>()),
    ("pat[111@1,1p2,variant]~Long", ops::<T887, 1>()),
    ("pat[111@1,2p1,set]~Long", ops::<T888, 1>()),
    ("pat[111@1,2p2,optional]~Long", ops::<T889, 1>()),
    ("pat[111@1,012,field]~Long", ops::<T890, 1>()),
    ("pat[111@1,012@2,header]~Long", ops::<T891, 1>()),
    ("pat[111@1,022@g,item]~Long", ops::<T892, 1>()),
    ("sum(str,recid)~Short", ops::<T893, 1>()),
    ("sum(str,q:str)~Short", ops::<T894, 1>()),
    ("sum(str,r:int)~Short", ops::<T895, 1>()),
    ("sum(str,r:str)~Short", ops::<T896, 1>()),
    ("sum(str,mark1)~Short", ops::<T897, 1>()),
    ("sum(str,mark2)~Short", ops::<T899, 1>()),
    ("sum(str,qlist)~Short", ops::<T900, 1>()),
    ("sum(str,graph)~Short", ops::<T901, 1>()),
    ("sum(str,never)~Short", ops::<T902, 1>()),
    ("sum(int,bool)~Short", ops::<T903, 1>()),
    ("sum(int,unit)~Short", ops::<T904, 1>()),
    ("sum(int,list)~Short", ops::<T905, 1>()),
    ("sum(int,q:id)~Short", ops::<T906, 1>()),
    ("sum(int,free)~Short", ops::<T907, 1>()),
    ("sum(bool,id)~Short", ops::<T908, 1>()),
    ("sum(bool,recopt)~Short", ops::<T909, 1>()),
    ("sum(bool,qr)~Short", ops::<T911, 1>()),
    ("sum(bool,nested)~Short", ops::<T912, 1>()),
    ("sum(id,rec)~Short", ops::<T914, 1>()),
    ("sum(id,set)~Short", ops::<T915, 1>()),
    ("sum(id,tup)~Short", ops::<T916, 1>()),
    ("sum(id,failing)~Short", ops::<T917, 1>()),
    ("sum(unit,list)~Short", ops::<T920, 1>()),
    ("sum(unit,q:id)~Short", ops::<T921, 1>()),
    ("sum(unit,free)~Short", ops::<T922, 1>()),
    ("sum(rec,list)~Short", ops::<T923, 1>()),
    ("sum(rec,q:id)~Short", ops::<T924, 1>()),
    ("sum(rec,free)~Short", ops::<T925, 1>()),
    ("sum(recopt,list)~Short", ops::<T926, 1>()),
    ("sum(recopt,q:id)~Short", ops::<T927, 1>()),
    ("sum(recopt,free)~Short", ops::<T928, 1>()),
    ("sum(recid,list)~Short", ops::<T929, 1>()),
    ("sum(recid,q:id)~Short", ops::<T930, 1>()),
    ("sum(recid,free)~Short", ops::<T931, 1>()),
    ("sum(set,q:str)~Short", ops::<T932, 1>()),
    ("sum(set,r:int)~Short", ops::<T933, 1>()),
    ("sum(set,r:str)~Short", ops::<T934, 1>()),
    ("sum(set,mark1)~Short", ops::<T935, 1>()),
    ("sum(set,mark2)~Short", ops::<T936, 1>()),
    ("sum(set,qlist)~Short", ops::<T937, 1>()),
    ("sum(set,graph)~Short", ops::<T938, 1>()),
    ("sum(set,never)~Short", ops::<T939, 1>()),
    ("sum(tup,list)~Short", ops::<T940, 1>()),
    ("sum(tup,q:id)~Short", ops::<T941, 1>()),
    ("sum(tup,free)~Short", ops::<T942, 1>()),
    ("sum(list,qr)~Short", ops::<T943, 1>()),
    ("sum(list,nested)~Short", ops::<T944, 1>()),
    ("sum(q:str,q:id)~Short", ops::<T945, 1>()),
    ("sum(q:str,free)~Short", ops::<T946, 1>()),
    ("sum(q:id,free)~Short", ops::<T947, 1>()),
    ("sum(r:int,qr)~Short", ops::<T948, 1>()),
    ("sum(r:int,nested)~Short", ops::<T949, 1>()),
    ("sum(r:str,mark1)~Short", ops::<T950, 1>()),
    ("sum(r:str,mark2)~Short", ops::<T951, 1>()),
    ("sum(r:str,qlist)~Short", ops::<T952, 1>()),
    ("sum(r:str,graph)~Short", ops::<T953, 1>()),
    ("sum(r:str,never)~Short", ops::<T954, 1>()),
    ("sum(qr,failing)~Short", ops::<T955, 1>()),
    ("sum(mark1,nested)~Short", ops::<T956, 1>()),
    ("sum(mark2,qlist)~Short", ops::<T957, 1>()),
    ("sum(mark2,graph)~Short", ops::<T958, 1>()),
    ("sum(mark2,never)~Short", ops::<T959, 1>()),
    ("recursive:kids~Short", ops::<T960, 1>()),
    ("recursive:kids~Long", ops::<T962, 1>()),
    ("keywords~Short", ops::<T965, 1>()),
    ("keywords~Long", ops::<T966, 1>()),
    ("keywords:sum~Short", ops::<T967, 1>()),
    ("keywords:sum~Long", ops::<T968, 1>()),
];
