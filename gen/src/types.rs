// Written by `mc --emit-gen`; do not edit.
#![allow(dead_code, non_camel_case_types, unused_imports, unused_variables, unused_mut, unused_must_use)]
use typed::{ops, Ops};

pub mod s0 { use typed::*; treeldr::tldr_include!("layouts/s0.json"); leaf!(S0T0); }
pub mod s1 { use typed::*; treeldr::tldr_include!("layouts/s1.json"); leaf!(S1T0); }
pub mod s2 { use typed::*; treeldr::tldr_include!("layouts/s2.json"); leaf!(S2T0); }
pub mod s3 { use typed::*; treeldr::tldr_include!("layouts/s3.json"); leaf!(S3T0); }
pub mod s4 { use typed::*; treeldr::tldr_include!("layouts/s4.json"); leaf!(S4T0); }
pub mod s5 { use typed::*; treeldr::tldr_include!("layouts/s5.json"); unit!(S5T0); }
pub mod s6 { use typed::*; treeldr::tldr_include!("layouts/s6.json"); record!(S6T0 f "f" req); }
pub mod s7 { use typed::*; treeldr::tldr_include!("layouts/s7.json"); record!(S7T0 f "f" opt); }
pub mod s8 { use typed::*; treeldr::tldr_include!("layouts/s8.json"); record!(S8T0 f "f" opt, id "id" req); }
pub mod s9 { use typed::*; treeldr::tldr_include!("layouts/s9.json"); items!(S9T0); }
pub mod s10 { use typed::*; treeldr::tldr_include!("layouts/s10.json"); items!(S10T0); }
pub mod s11 { use typed::*; treeldr::tldr_include!("layouts/s11.json"); tuple!(S11T0 2 0 1); }
pub mod s12 { use typed::*; treeldr::tldr_include!("layouts/s12.json"); record!(S12T0 f "f" req); }
pub mod s13 { use typed::*; treeldr::tldr_include!("layouts/s13.json"); record!(S13T0 f "f" opt); }
pub mod s14 { use typed::*; treeldr::tldr_include!("layouts/s14.json"); record!(S14T0 f "f" opt, id "id" req); }
pub mod s15 { use typed::*; treeldr::tldr_include!("layouts/s15.json"); items!(S15T0); }
pub mod s16 { use typed::*; treeldr::tldr_include!("layouts/s16.json"); items!(S16T0); }
pub mod s17 { use typed::*; treeldr::tldr_include!("layouts/s17.json"); tuple!(S17T0 2 0 1); }
pub mod s18 { use typed::*; treeldr::tldr_include!("layouts/s18.json"); record!(S18T0 f "f" req); }
pub mod s19 { use typed::*; treeldr::tldr_include!("layouts/s19.json"); record!(S19T0 f "f" opt); }
pub mod s20 { use typed::*; treeldr::tldr_include!("layouts/s20.json"); record!(S20T0 f "f" opt, id "id" req); }
pub mod s21 { use typed::*; treeldr::tldr_include!("layouts/s21.json"); items!(S21T0); }
pub mod s22 { use typed::*; treeldr::tldr_include!("layouts/s22.json"); items!(S22T0); }
pub mod s23 { use typed::*; treeldr::tldr_include!("layouts/s23.json"); tuple!(S23T0 2 0 1); }
pub mod s24 { use typed::*; treeldr::tldr_include!("layouts/s24.json"); record!(S24T0 f "f" req); }
pub mod s25 { use typed::*; treeldr::tldr_include!("layouts/s25.json"); record!(S25T0 f "f" opt); }
pub mod s26 { use typed::*; treeldr::tldr_include!("layouts/s26.json"); record!(S26T0 f "f" opt, id "id" req); }
pub mod s27 { use typed::*; treeldr::tldr_include!("layouts/s27.json"); items!(S27T0); }
pub mod s28 { use typed::*; treeldr::tldr_include!("layouts/s28.json"); items!(S28T0); }
pub mod s29 { use typed::*; treeldr::tldr_include!("layouts/s29.json"); tuple!(S29T0 2 0 1); }
pub mod s30 { use typed::*; treeldr::tldr_include!("layouts/s30.json"); record!(S30T0 f "f" req); }
pub mod s31 { use typed::*; treeldr::tldr_include!("layouts/s31.json"); record!(S31T0 f "f" opt); }
pub mod s32 { use typed::*; treeldr::tldr_include!("layouts/s32.json"); record!(S32T0 f "f" opt, id "id" req); }
pub mod s33 { use typed::*; treeldr::tldr_include!("layouts/s33.json"); items!(S33T0); }
pub mod s34 { use typed::*; treeldr::tldr_include!("layouts/s34.json"); items!(S34T0); }
pub mod s35 { use typed::*; treeldr::tldr_include!("layouts/s35.json"); tuple!(S35T0 2 0 1); }
pub mod s36 { use typed::*; treeldr::tldr_include!("layouts/s36.json"); record!(S36T0 f "f" req); }
pub mod s37 { use typed::*; treeldr::tldr_include!("layouts/s37.json"); record!(S37T0 f "f" opt); }
pub mod s38 { use typed::*; treeldr::tldr_include!("layouts/s38.json"); record!(S38T0 f "f" opt, id "id" req); }
pub mod s39 { use typed::*; treeldr::tldr_include!("layouts/s39.json"); items!(S39T0); }
pub mod s40 { use typed::*; treeldr::tldr_include!("layouts/s40.json"); items!(S40T0); }
pub mod s41 { use typed::*; treeldr::tldr_include!("layouts/s41.json"); tuple!(S41T0 2 0 1); }
pub mod s42 { use typed::*; treeldr::tldr_include!("layouts/s42.json"); record!(S42T0 g "g" opt, h "h" req); }
pub mod s43 { use typed::*; treeldr::tldr_include!("layouts/s43.json"); tuple!(S43T0 0 ); }
pub mod s44 { use typed::*; treeldr::tldr_include!("layouts/s44.json"); record!(S44T0 ); }
pub mod s45 { use typed::*; treeldr::tldr_include!("layouts/s45.json"); record!(S45T0 f "f" opt); }
pub mod s46 { use typed::*; treeldr::tldr_include!("layouts/s46.json"); record!(S46T0 f "f" req); }
pub mod s47 { use typed::*; treeldr::tldr_include!("layouts/s47.json"); record!(S47T0 f "f" req); }
pub mod s48 { use typed::*; treeldr::tldr_include!("layouts/s48.json"); sum!(S48T0 0 a, 1 b); }
pub mod s49 { use typed::*; treeldr::tldr_include!("layouts/s49.json"); sum!(S49T0 0 a, 1 b, 2 c); }
pub mod s50 { use typed::*; treeldr::tldr_include!("layouts/s50.json"); sum!(S50T0 0 a, 1 b); record!(S50T1 x "x" req); record!(SomeThingS502 y "y" req); }
pub mod s51 { use typed::*; treeldr::tldr_include!("layouts/s51.json"); sum!(S51T0 0 a, 1 b); }
pub mod s52 { use typed::*; treeldr::tldr_include!("layouts/s52.json"); sum!(S52T0 0 a, 1 b); record!(S52T1 x "x" req); }
pub mod s53 { use typed::*; treeldr::tldr_include!("layouts/s53.json"); unit!(S53T0); }
pub mod s54 { use typed::*; treeldr::tldr_include!("layouts/s54.json"); leaf!(S54T0); }
pub mod s55 { use typed::*; treeldr::tldr_include!("layouts/s55.json"); record!(S55T0 f "f" req, g "g" req); }
pub mod s56 { use typed::*; treeldr::tldr_include!("layouts/s56.json"); record!(S56T0 o "o" opt); record!(S56T1 f "f" req); }
pub mod s57 { use typed::*; treeldr::tldr_include!("layouts/s57.json"); items!(S57T0); record!(S57T1 f "f" opt); }
pub mod s58 { use typed::*; treeldr::tldr_include!("layouts/s58.json"); tuple!(S58T0 2 0 1); record!(S58T1 f "f" opt, id "id" req); }
pub mod s59 { use typed::*; treeldr::tldr_include!("layouts/s59.json"); record!(S59T0 o "o" req); items!(S59T1); }
pub mod s60 { use typed::*; treeldr::tldr_include!("layouts/s60.json"); record!(S60T0 o "o" opt); tuple!(S60T1 2 0 1); }
pub mod s61 { use typed::*; treeldr::tldr_include!("layouts/s61.json"); items!(S61T0); record!(S61T1 f "f" req); }
pub mod s62 { use typed::*; treeldr::tldr_include!("layouts/s62.json"); items!(S62T0); record!(S62T1 f "f" opt); }
pub mod s63 { use typed::*; treeldr::tldr_include!("layouts/s63.json"); record!(S63T0 id "id" req, n "n" opt, o "o" opt); record!(S63T1 f "f" opt, id "id" req); }
pub mod s64 { use typed::*; treeldr::tldr_include!("layouts/s64.json"); record!(S64T0 o "o" opt); items!(S64T1); }
pub mod s65 { use typed::*; treeldr::tldr_include!("layouts/s65.json"); items!(S65T0); tuple!(S65T1 2 0 1); }
pub mod s66 { use typed::*; treeldr::tldr_include!("layouts/s66.json"); items!(S66T0); record!(S66T1 f "f" req); }
pub mod s67 { use typed::*; treeldr::tldr_include!("layouts/s67.json"); tuple!(S67T0 2 0 1); record!(S67T1 f "f" opt); }
pub mod s68 { use typed::*; treeldr::tldr_include!("layouts/s68.json"); record!(S68T0 o "o" req); items!(S68T1); }
pub mod s69 { use typed::*; treeldr::tldr_include!("layouts/s69.json"); items!(S69T0); items!(S69T1); }
pub mod s70 { use typed::*; treeldr::tldr_include!("layouts/s70.json"); items!(S70T0); tuple!(S70T1 2 0 1); }
pub mod s71 { use typed::*; treeldr::tldr_include!("layouts/s71.json"); tuple!(S71T0 2 0 1); record!(S71T1 f "f" req); }
pub mod s72 { use typed::*; treeldr::tldr_include!("layouts/s72.json"); record!(S72T0 id "id" req, n "n" opt, o "o" opt); record!(S72T1 f "f" opt); }
pub mod s73 { use typed::*; treeldr::tldr_include!("layouts/s73.json"); record!(S73T0 o "o" opt); items!(S73T1); }
pub mod s74 { use typed::*; treeldr::tldr_include!("layouts/s74.json"); items!(S74T0); items!(S74T1); }
pub mod s75 { use typed::*; treeldr::tldr_include!("layouts/s75.json"); tuple!(S75T0 2 0 1); tuple!(S75T1 2 0 1); }
pub mod s76 { use typed::*; treeldr::tldr_include!("layouts/s76.json"); record!(S76T0 id "id" req, n "n" opt, o "o" opt); record!(S76T1 f "f" req); }
pub mod s77 { use typed::*; treeldr::tldr_include!("layouts/s77.json"); record!(S77T0 o "o" req); record!(S77T1 f "f" opt, id "id" req); }
pub mod s78 { use typed::*; treeldr::tldr_include!("layouts/s78.json"); items!(S78T0); items!(S78T1); }
pub mod s79 { use typed::*; treeldr::tldr_include!("layouts/s79.json"); tuple!(S79T0 2 0 1); items!(S79T1); }
pub mod s80 { use typed::*; treeldr::tldr_include!("layouts/s80.json"); record!(S80T0 id "id" req, n "n" opt, o "o" opt); tuple!(S80T1 2 0 1); }
pub mod s81 { use typed::*; treeldr::tldr_include!("layouts/s81.json"); sum!(S81T0 0 m, 1 n); record!(S81T1 f "f" req); }
pub mod s82 { use typed::*; treeldr::tldr_include!("layouts/s82.json"); record!(S82T0 o "o" opt); record!(S82T1 f "f" opt, id "id" req); }
pub mod s83 { use typed::*; treeldr::tldr_include!("layouts/s83.json"); items!(S83T0); items!(S83T1); }
pub mod s84 { use typed::*; treeldr::tldr_include!("layouts/s84.json"); record!(S84T0 id "id" req, n "n" opt, o "o" opt); items!(S84T1); }
pub mod s85 { use typed::*; treeldr::tldr_include!("layouts/s85.json"); sum!(S85T0 0 m, 1 n); tuple!(S85T1 2 0 1); }
pub mod s86 { use typed::*; treeldr::tldr_include!("layouts/s86.json"); record!(S86T0 o "o" opt); tuple!(S86T1 0 ); }
pub mod s87 { use typed::*; treeldr::tldr_include!("layouts/s87.json"); items!(S87T0); record!(S87T1 ); }
pub mod s88 { use typed::*; treeldr::tldr_include!("layouts/s88.json"); record!(S88T0 id "id" req, n "n" opt, o "o" opt); record!(S88T1 f "f" opt); }
pub mod s89 { use typed::*; treeldr::tldr_include!("layouts/s89.json"); record!(S89T0 o "o" opt); record!(S89T1 f "f" req); }
pub mod s90 { use typed::*; treeldr::tldr_include!("layouts/s90.json"); items!(S90T0); sum!(S90T1 0 a, 1 b); }
pub mod s91 { use typed::*; treeldr::tldr_include!("layouts/s91.json"); record!(S91T0 id "id" req, n "n" opt, o "o" opt); sum!(S91T1 0 a, 1 b, 2 c); }
pub mod s92 { use typed::*; treeldr::tldr_include!("layouts/s92.json"); record!(S92T0 o "o" opt); sum!(S92T1 0 a, 1 b); }
pub mod s93 { use typed::*; treeldr::tldr_include!("layouts/s93.json"); items!(S93T0); sum!(S93T1 0 a, 1 b); record!(SomeThingS932 x "x" req); }
pub mod s94 { use typed::*; treeldr::tldr_include!("layouts/s94.json"); record!(S94T0 id "id" req, n "n" opt, o "o" opt); unit!(S94T1); }
pub mod s95 { use typed::*; treeldr::tldr_include!("layouts/s95.json"); leaf!(S95T0); }
pub mod s96 { use typed::*; treeldr::tldr_include!("layouts/s96.json"); leaf!(S96T0); }
pub mod s97 { use typed::*; treeldr::tldr_include!("layouts/s97.json"); leaf!(S97T0); }
pub mod s98 { use typed::*; treeldr::tldr_include!("layouts/s98.json"); leaf!(S98T0); }
pub mod s99 { use typed::*; treeldr::tldr_include!("layouts/s99.json"); leaf!(S99T0); }
pub mod s100 { use typed::*; treeldr::tldr_include!("layouts/s100.json"); unit!(S100T0); }
pub mod s101 { use typed::*; treeldr::tldr_include!("layouts/s101.json"); leaf!(S101T0); }
pub mod s102 { use typed::*; treeldr::tldr_include!("layouts/s102.json"); leaf!(S102T0); }
pub mod s103 { use typed::*; treeldr::tldr_include!("layouts/s103.json"); leaf!(S103T0); }
pub mod s104 { use typed::*; treeldr::tldr_include!("layouts/s104.json"); leaf!(S104T0); }
pub mod s105 { use typed::*; treeldr::tldr_include!("layouts/s105.json"); leaf!(S105T0); }
pub mod s106 { use typed::*; treeldr::tldr_include!("layouts/s106.json"); leaf!(S106T0); }
pub mod s107 { use typed::*; treeldr::tldr_include!("layouts/s107.json"); leaf!(S107T0); }
pub mod s108 { use typed::*; treeldr::tldr_include!("layouts/s108.json"); leaf!(S108T0); }
pub mod s109 { use typed::*; treeldr::tldr_include!("layouts/s109.json"); leaf!(S109T0); }
pub mod s110 { use typed::*; treeldr::tldr_include!("layouts/s110.json"); leaf!(S110T0); }
pub mod s111 { use typed::*; treeldr::tldr_include!("layouts/s111.json"); leaf!(S111T0); }
pub mod s112 { use typed::*; treeldr::tldr_include!("layouts/s112.json"); leaf!(S112T0); }
pub mod s113 { use typed::*; treeldr::tldr_include!("layouts/s113.json"); unit!(S113T0); }
pub mod s114 { use typed::*; treeldr::tldr_include!("layouts/s114.json"); unit!(S114T0); }
pub mod s115 { use typed::*; treeldr::tldr_include!("layouts/s115.json"); record!(S115T0 f "f" req); record!(S115T1 a "a" req, b "b" opt); }
pub mod s116 { use typed::*; treeldr::tldr_include!("layouts/s116.json"); tuple!(S116T0 1 0); record!(S116T1 a "a" req, b "b" opt); }
pub mod s117 { use typed::*; treeldr::tldr_include!("layouts/s117.json"); items!(S117T0); record!(S117T1 a "a" req, b "b" opt); }
pub mod s118 { use typed::*; treeldr::tldr_include!("layouts/s118.json"); sum!(S118T0 0 a); record!(S118T1 a "a" req, b "b" opt); }
pub mod s119 { use typed::*; treeldr::tldr_include!("layouts/s119.json"); record!(S119T0 f "f" req); record!(S119T1 a "a" req, b "b" opt); }
pub mod s120 { use typed::*; treeldr::tldr_include!("layouts/s120.json"); tuple!(S120T0 1 0); record!(S120T1 a "a" req, b "b" opt); }
pub mod s121 { use typed::*; treeldr::tldr_include!("layouts/s121.json"); items!(S121T0); record!(S121T1 a "a" req, b "b" opt); }
pub mod s122 { use typed::*; treeldr::tldr_include!("layouts/s122.json"); sum!(S122T0 0 a); record!(S122T1 a "a" req, b "b" opt); }
pub mod s123 { use typed::*; treeldr::tldr_include!("layouts/s123.json"); record!(S123T0 f "f" req); record!(S123T1 a "a" req, b "b" opt); }
pub mod s124 { use typed::*; treeldr::tldr_include!("layouts/s124.json"); tuple!(S124T0 1 0); record!(S124T1 a "a" req, b "b" opt); }
pub mod s125 { use typed::*; treeldr::tldr_include!("layouts/s125.json"); items!(S125T0); record!(S125T1 a "a" req, b "b" opt); }
pub mod s126 { use typed::*; treeldr::tldr_include!("layouts/s126.json"); sum!(S126T0 0 a); record!(S126T1 a "a" req, b "b" opt); }
pub mod s127 { use typed::*; treeldr::tldr_include!("layouts/s127.json"); record!(S127T0 f "f" req); record!(S127T1 a "a" req, b "b" opt); }
pub mod s128 { use typed::*; treeldr::tldr_include!("layouts/s128.json"); tuple!(S128T0 1 0); record!(S128T1 a "a" req, b "b" opt); }
pub mod s129 { use typed::*; treeldr::tldr_include!("layouts/s129.json"); items!(S129T0); record!(S129T1 a "a" req, b "b" opt); }
pub mod s130 { use typed::*; treeldr::tldr_include!("layouts/s130.json"); sum!(S130T0 0 a); record!(S130T1 a "a" req, b "b" opt); }
pub mod s131 { use typed::*; treeldr::tldr_include!("layouts/s131.json"); record!(S131T0 f "f" opt, g "g" req); }
pub mod s132 { use typed::*; treeldr::tldr_include!("layouts/s132.json"); record!(S132T0 f "f" opt); }
pub mod s133 { use typed::*; treeldr::tldr_include!("layouts/s133.json"); items!(S133T0); }
pub mod s134 { use typed::*; treeldr::tldr_include!("layouts/s134.json"); tuple!(S134T0 1 0); }
pub mod s135 { use typed::*; treeldr::tldr_include!("layouts/s135.json"); leaf!(S135T0); }
pub mod s136 { use typed::*; treeldr::tldr_include!("layouts/s136.json"); leaf!(S136T0); }
pub mod s137 { use typed::*; treeldr::tldr_include!("layouts/s137.json"); leaf!(S137T0); }
pub mod s138 { use typed::*; treeldr::tldr_include!("layouts/s138.json"); items!(S138T0); }
pub mod s139 { use typed::*; treeldr::tldr_include!("layouts/s139.json"); items!(S139T0); }
pub mod s140 { use typed::*; treeldr::tldr_include!("layouts/s140.json"); items!(S140T0); }
pub mod s141 { use typed::*; treeldr::tldr_include!("layouts/s141.json"); items!(S141T0); }
pub mod s142 { use typed::*; treeldr::tldr_include!("layouts/s142.json"); record!(S142T0 f "f" opt, g "g" opt); }
pub mod s143 { use typed::*; treeldr::tldr_include!("layouts/s143.json"); record!(S143T0 f "f" opt, g "g" opt); }
pub mod s144 { use typed::*; treeldr::tldr_include!("layouts/s144.json"); sum!(S144T0 0 a, 1 b, 2 c); }
pub mod s145 { use typed::*; treeldr::tldr_include!("layouts/s145.json"); sum!(S145T0 0 a, 1 b); }
pub mod s146 { use typed::*; treeldr::tldr_include!("layouts/s146.json"); sum!(S146T0 0 a, 1 b); }
pub mod s147 { use typed::*; treeldr::tldr_include!("layouts/s147.json"); record!(S147T0 f "f" opt); }
pub mod s148 { use typed::*; treeldr::tldr_include!("layouts/s148-0.json"); items!(S); }
pub mod s149 { use typed::*; treeldr::tldr_include!("layouts/s149.json"); tuple!(S149T0 2 0 1); leaf!(S149T1); leaf!(SomeThingS1492); }
pub mod s150 { use typed::*; treeldr::tldr_include!("layouts/s150.json"); sum!(S150T0 0 a, 1 b); leaf!(S150T1); leaf!(SomeThingS1502); }
pub mod s151 { use typed::*; treeldr::tldr_include!("layouts/s151.json"); sum!(S151T0 0 a, 1 b); leaf!(S151T1); leaf!(SomeThingS1512); }
pub mod s152 { use typed::*; treeldr::tldr_include!("layouts/s152.json"); items!(S152T0); leaf!(S152T1); }
pub mod s153 { use typed::*; treeldr::tldr_include!("layouts/s153.json"); items!(S153T0); leaf!(S153T1); }
pub mod s154 { use typed::*; treeldr::tldr_include!("layouts/s154.json"); items!(S154T0); leaf!(S154T1); }
pub mod s155 { use typed::*; treeldr::tldr_include!("layouts/s155.json"); items!(S155T0); leaf!(S155T1); }
pub mod s156 { use typed::*; treeldr::tldr_include!("layouts/s156.json"); record!(S156T0 o "o" req); leaf!(S156T1); }
pub mod s157 { use typed::*; treeldr::tldr_include!("layouts/s157.json"); record!(S157T0 o "o" req); leaf!(S157T1); }
pub mod s158 { use typed::*; treeldr::tldr_include!("layouts/s158.json"); items!(S158T0); record!(S158T1 x "x" req); leaf!(SomeThingS1582); }
pub mod s159 { use typed::*; treeldr::tldr_include!("layouts/s159.json"); sum!(S159T0 0 a, 1 b); record!(S159T1 x "x" req); leaf!(SomeThingS1592); leaf!(T3); }
pub mod s160 { use typed::*; treeldr::tldr_include!("layouts/s160.json"); record!(S160T0 o "o" req); record!(S160T1 x "x" req); }
pub mod s161 { use typed::*; treeldr::tldr_include!("layouts/s161.json"); items!(S161T0); record!(S161T1 x "x" req); leaf!(SomeThingS1612); }
pub mod s162 { use typed::*; treeldr::tldr_include!("layouts/s162.json"); sum!(S162T0 0 a, 1 b); record!(S162T1 x "x" req); leaf!(SomeThingS1622); leaf!(T3); }
pub mod s163 { use typed::*; treeldr::tldr_include!("layouts/s163.json"); record!(S163T0 o "o" req); record!(S163T1 x "x" req); }
pub mod s164 { use typed::*; treeldr::tldr_include!("layouts/s164.json"); record!(S164T0 o "o" req); record!(S164T1 x "x" req); }
pub mod s165 { use typed::*; treeldr::tldr_include!("layouts/s165.json"); record!(S165T0 o "o" req); record!(S165T1 x "x" req); }
pub mod s166 { use typed::*; treeldr::tldr_include!("layouts/s166.json"); tuple!(S166T0 1 0); record!(S166T1 id "id" req, x "x" opt); }
pub mod s167 { use typed::*; treeldr::tldr_include!("layouts/s167.json"); record!(S167T0 o "o" req); record!(S167T1 id "id" req, x "x" opt); leaf!(SomeThingS1672); leaf!(T3); }
pub mod s168 { use typed::*; treeldr::tldr_include!("layouts/s168.json"); items!(S168T0); record!(S168T1 id "id" req, x "x" opt); leaf!(SomeThingS1682); leaf!(T3); }
pub mod s169 { use typed::*; treeldr::tldr_include!("layouts/s169.json"); tuple!(S169T0 1 0); record!(S169T1 id "id" req, x "x" opt); }
pub mod s170 { use typed::*; treeldr::tldr_include!("layouts/s170.json"); record!(S170T0 o "o" req); record!(S170T1 id "id" req, x "x" opt); leaf!(SomeThingS1702); leaf!(T3); }
pub mod s171 { use typed::*; treeldr::tldr_include!("layouts/s171.json"); items!(S171T0); record!(S171T1 id "id" req, x "x" opt); leaf!(SomeThingS1712); leaf!(T3); }
pub mod s172 { use typed::*; treeldr::tldr_include!("layouts/s172.json"); tuple!(S172T0 1 0); record!(S172T1 id "id" req, x "x" opt); }
pub mod s173 { use typed::*; treeldr::tldr_include!("layouts/s173.json"); record!(S173T0 o "o" req); record!(S173T1 id "id" req, x "x" opt); }
pub mod s174 { use typed::*; treeldr::tldr_include!("layouts/s174.json"); items!(S174T0); items!(S174T1); }
pub mod s175 { use typed::*; treeldr::tldr_include!("layouts/s175.json"); items!(S175T0); items!(S175T1); leaf!(SomeThingS1752); }
pub mod s176 { use typed::*; treeldr::tldr_include!("layouts/s176.json"); items!(S176T0); items!(S176T1); leaf!(SomeThingS1762); }
pub mod s177 { use typed::*; treeldr::tldr_include!("layouts/s177.json"); items!(S177T0); items!(S177T1); leaf!(SomeThingS1772); }
pub mod s178 { use typed::*; treeldr::tldr_include!("layouts/s178.json"); record!(S178T0 o "o" req); items!(S178T1); leaf!(SomeThingS1782); }
pub mod s179 { use typed::*; treeldr::tldr_include!("layouts/s179.json"); record!(S179T0 o "o" req); items!(S179T1); leaf!(SomeThingS1792); }
pub mod s180 { use typed::*; treeldr::tldr_include!("layouts/s180.json"); sum!(S180T0 0 a, 1 b); sum!(S180T1 0 a, 1 b); leaf!(SomeThingS1802); leaf!(T3); leaf!(S180T4); }
pub mod s181 { use typed::*; treeldr::tldr_include!("layouts/s181.json"); record!(S181T0 o "o" req); sum!(S181T1 0 a, 1 b); }
pub mod s182 { use typed::*; treeldr::tldr_include!("layouts/s182.json"); items!(S182T0); sum!(S182T1 0 a, 1 b); leaf!(SomeThingS1822); leaf!(T3); }
pub mod s183 { use typed::*; treeldr::tldr_include!("layouts/s183.json"); sum!(S183T0 0 a, 1 b); sum!(S183T1 0 a, 1 b); leaf!(SomeThingS1832); leaf!(T3); leaf!(S183T4); }
pub mod s184 { use typed::*; treeldr::tldr_include!("layouts/s184.json"); record!(S184T0 o "o" req); sum!(S184T1 0 a, 1 b); }
pub mod s185 { use typed::*; treeldr::tldr_include!("layouts/s185.json"); items!(S185T0); sum!(S185T1 0 a, 1 b); leaf!(SomeThingS1852); leaf!(T3); }
pub mod s186 { use typed::*; treeldr::tldr_include!("layouts/s186.json"); sum!(S186T0 0 a, 1 b); sum!(S186T1 0 a, 1 b); leaf!(SomeThingS1862); leaf!(T3); leaf!(S186T4); }
pub mod s187 { use typed::*; treeldr::tldr_include!("layouts/s187.json"); record!(S187T0 o "o" req); sum!(S187T1 0 a, 1 b); leaf!(SomeThingS1872); leaf!(T3); }
pub mod s188 { use typed::*; treeldr::tldr_include!("layouts/s188.json"); record!(S188T0 o "o" req); unit!(S188T1); }
pub mod s189 { use typed::*; treeldr::tldr_include!("layouts/s189.json"); items!(S189T0); unit!(S189T1); }
pub mod s190 { use typed::*; treeldr::tldr_include!("layouts/s190.json"); tuple!(S190T0 1 0); unit!(S190T1); }
pub mod s191 { use typed::*; treeldr::tldr_include!("layouts/s191.json"); record!(S191T0 o "o" req); unit!(S191T1); }
pub mod s192 { use typed::*; treeldr::tldr_include!("layouts/s192.json"); items!(S192T0); unit!(S192T1); }
pub mod s193 { use typed::*; treeldr::tldr_include!("layouts/s193.json"); tuple!(S193T0 1 0); unit!(S193T1); }
pub mod s194 { use typed::*; treeldr::tldr_include!("layouts/s194.json"); record!(S194T0 o "o" req); unit!(S194T1); }
pub mod s195 { use typed::*; treeldr::tldr_include!("layouts/s195.json"); record!(S195T0 o "o" req); unit!(S195T1); }
pub mod s196 { use typed::*; treeldr::tldr_include!("layouts/s196.json"); record!(S196T0 o "o" req); unit!(S196T1); }
pub mod s197 { use typed::*; treeldr::tldr_include!("layouts/s197.json"); items!(S197T0); tuple!(S197T1 2 0 1); leaf!(SomeThingS1972); leaf!(T3); }
pub mod s198 { use typed::*; treeldr::tldr_include!("layouts/s198.json"); items!(S198T0); tuple!(S198T1 2 0 1); leaf!(SomeThingS1982); leaf!(T3); }
pub mod s199 { use typed::*; treeldr::tldr_include!("layouts/s199.json"); items!(S199T0); tuple!(S199T1 2 0 1); leaf!(SomeThingS1992); leaf!(T3); }
pub mod s200 { use typed::*; treeldr::tldr_include!("layouts/s200.json"); items!(S200T0); tuple!(S200T1 2 0 1); leaf!(SomeThingS2002); leaf!(T3); }
pub mod s201 { use typed::*; treeldr::tldr_include!("layouts/s201.json"); record!(S201T0 o "o" req); tuple!(S201T1 2 0 1); leaf!(SomeThingS2012); leaf!(T3); }
pub mod s202 { use typed::*; treeldr::tldr_include!("layouts/s202.json"); record!(S202T0 o "o" req); tuple!(S202T1 2 0 1); leaf!(SomeThingS2022); leaf!(T3); }
pub mod s203 { use typed::*; treeldr::tldr_include!("layouts/s203.json"); record!(S203T0 o "o" req); items!(S203T1); leaf!(SomeThingS2032); }
pub mod s204 { use typed::*; treeldr::tldr_include!("layouts/s204.json"); sum!(S204T0 0 a, 1 b); items!(S204T1); leaf!(SomeThingS2042); leaf!(T3); }
pub mod s205 { use typed::*; treeldr::tldr_include!("layouts/s205.json"); record!(S205T0 o "o" req); items!(S205T1); leaf!(SomeThingS2052); }
pub mod s206 { use typed::*; treeldr::tldr_include!("layouts/s206.json"); items!(S206T0); items!(S206T1); leaf!(SomeThingS2062); }
pub mod s207 { use typed::*; treeldr::tldr_include!("layouts/s207.json"); tuple!(S207T0 1 0); items!(S207T1); leaf!(SomeThingS2072); }
pub mod s208 { use typed::*; treeldr::tldr_include!("layouts/s208.json"); record!(S208T0 o "o" req); items!(S208T1); leaf!(SomeThingS2082); }
pub mod s209 { use typed::*; treeldr::tldr_include!("layouts/s209.json"); sum!(S209T0 0 a, 1 b); items!(S209T1); leaf!(SomeThingS2092); leaf!(T3); }
pub mod s210 { use typed::*; treeldr::tldr_include!("layouts/s210.json"); record!(S210T0 o "o" req); items!(S210T1); leaf!(SomeThingS2102); }
pub mod s211 { use typed::*; treeldr::tldr_include!("layouts/s211.json"); items!(S211T0); items!(S211T1); leaf!(SomeThingS2112); }
pub mod s212 { use typed::*; treeldr::tldr_include!("layouts/s212.json"); tuple!(S212T0 1 0); items!(S212T1); leaf!(SomeThingS2122); }
pub mod s213 { use typed::*; treeldr::tldr_include!("layouts/s213.json"); record!(S213T0 o "o" req); items!(S213T1); leaf!(SomeThingS2132); }
pub mod s214 { use typed::*; treeldr::tldr_include!("layouts/s214.json"); sum!(S214T0 0 a, 1 b); items!(S214T1); leaf!(SomeThingS2142); leaf!(T3); }
pub mod s215 { use typed::*; treeldr::tldr_include!("layouts/s215.json"); record!(S215T0 o "o" req); items!(S215T1); leaf!(SomeThingS2152); }
pub mod s216 { use typed::*; treeldr::tldr_include!("layouts/s216.json"); record!(S216T0 o "o" req); items!(S216T1); leaf!(SomeThingS2162); }
pub mod s217 { use typed::*; treeldr::tldr_include!("layouts/s217.json"); record!(S217T0 o "o" req); items!(S217T1); leaf!(SomeThingS2172); }
pub mod s218 { use typed::*; treeldr::tldr_include!("layouts/s218.json"); record!(S218T0 o "o" req); items!(S218T1); leaf!(SomeThingS2182); }
pub mod s219 { use typed::*; treeldr::tldr_include!("layouts/s219.json"); record!(S219T0 o "o" req); items!(S219T1); leaf!(SomeThingS2192); }
pub mod s220 { use typed::*; treeldr::tldr_include!("layouts/s220.json"); items!(S220T0); leaf!(S220T1); }
pub mod s221 { use typed::*; treeldr::tldr_include!("layouts/s221.json"); items!(S221T0); leaf!(S221T1); }
pub mod s222 { use typed::*; treeldr::tldr_include!("layouts/s222.json"); items!(S222T0); leaf!(S222T1); }
pub mod s223 { use typed::*; treeldr::tldr_include!("layouts/s223.json"); items!(S223T0); leaf!(S223T1); }
pub mod s224 { use typed::*; treeldr::tldr_include!("layouts/s224.json"); items!(S224T0); leaf!(S224T1); }
pub mod s225 { use typed::*; treeldr::tldr_include!("layouts/s225.json"); tuple!(S225T0 1 0); record!(S225T1 x "x" req); }
pub mod s226 { use typed::*; treeldr::tldr_include!("layouts/s226.json"); record!(S226T0 o "o" req); record!(S226T1 x "x" req); leaf!(SomeThingS2262); }
pub mod s227 { use typed::*; treeldr::tldr_include!("layouts/s227.json"); items!(S227T0); record!(S227T1 x "x" req); leaf!(SomeThingS2272); }
pub mod s228 { use typed::*; treeldr::tldr_include!("layouts/s228.json"); tuple!(S228T0 1 0); record!(S228T1 x "x" req); }
pub mod s229 { use typed::*; treeldr::tldr_include!("layouts/s229.json"); record!(S229T0 o "o" req); record!(S229T1 x "x" req); leaf!(SomeThingS2292); }
pub mod s230 { use typed::*; treeldr::tldr_include!("layouts/s230.json"); items!(S230T0); record!(S230T1 x "x" req); leaf!(SomeThingS2302); }
pub mod s231 { use typed::*; treeldr::tldr_include!("layouts/s231.json"); tuple!(S231T0 1 0); record!(S231T1 x "x" req); }
pub mod s232 { use typed::*; treeldr::tldr_include!("layouts/s232.json"); items!(S232T0); record!(S232T1 id "id" req, x "x" opt); leaf!(SomeThingS2322); leaf!(T3); }
pub mod s233 { use typed::*; treeldr::tldr_include!("layouts/s233.json"); sum!(S233T0 0 a, 1 b); record!(S233T1 id "id" req, x "x" opt); leaf!(SomeThingS2332); leaf!(T3); leaf!(S233T4); }
pub mod s234 { use typed::*; treeldr::tldr_include!("layouts/s234.json"); record!(S234T0 o "o" req); record!(S234T1 id "id" req, x "x" opt); }
pub mod s235 { use typed::*; treeldr::tldr_include!("layouts/s235.json"); items!(S235T0); record!(S235T1 id "id" req, x "x" opt); leaf!(SomeThingS2352); leaf!(T3); }
pub mod s236 { use typed::*; treeldr::tldr_include!("layouts/s236.json"); sum!(S236T0 0 a, 1 b); record!(S236T1 id "id" req, x "x" opt); leaf!(SomeThingS2362); leaf!(T3); leaf!(S236T4); }
pub mod s237 { use typed::*; treeldr::tldr_include!("layouts/s237.json"); record!(S237T0 o "o" req); record!(S237T1 id "id" req, x "x" opt); }
pub mod s238 { use typed::*; treeldr::tldr_include!("layouts/s238.json"); items!(S238T0); items!(S238T1); }
pub mod s239 { use typed::*; treeldr::tldr_include!("layouts/s239.json"); items!(S239T0); items!(S239T1); }
pub mod s240 { use typed::*; treeldr::tldr_include!("layouts/s240.json"); items!(S240T0); items!(S240T1); }
pub mod s241 { use typed::*; treeldr::tldr_include!("layouts/s241.json"); items!(S241T0); items!(S241T1); }
pub mod s242 { use typed::*; treeldr::tldr_include!("layouts/s242.json"); items!(S242T0); items!(S242T1); }
pub mod s243 { use typed::*; treeldr::tldr_include!("layouts/s243.json"); tuple!(S243T0 1 0); sum!(S243T1 0 a, 1 b); }
pub mod s244 { use typed::*; treeldr::tldr_include!("layouts/s244.json"); record!(S244T0 o "o" req); sum!(S244T1 0 a, 1 b); leaf!(SomeThingS2442); leaf!(T3); }
pub mod s245 { use typed::*; treeldr::tldr_include!("layouts/s245.json"); items!(S245T0); sum!(S245T1 0 a, 1 b); leaf!(SomeThingS2452); leaf!(T3); }
pub mod s246 { use typed::*; treeldr::tldr_include!("layouts/s246.json"); tuple!(S246T0 1 0); sum!(S246T1 0 a, 1 b); }
pub mod s247 { use typed::*; treeldr::tldr_include!("layouts/s247.json"); record!(S247T0 o "o" req); sum!(S247T1 0 a, 1 b); leaf!(SomeThingS2472); leaf!(T3); }
pub mod s248 { use typed::*; treeldr::tldr_include!("layouts/s248.json"); items!(S248T0); sum!(S248T1 0 a, 1 b); leaf!(SomeThingS2482); leaf!(T3); }
pub mod s249 { use typed::*; treeldr::tldr_include!("layouts/s249.json"); tuple!(S249T0 1 0); sum!(S249T1 0 a, 1 b); }
pub mod s250 { use typed::*; treeldr::tldr_include!("layouts/s250.json"); items!(S250T0); unit!(S250T1); }
pub mod s251 { use typed::*; treeldr::tldr_include!("layouts/s251.json"); sum!(S251T0 0 a, 1 b); unit!(S251T1); leaf!(SomeThingS2512); }
pub mod s252 { use typed::*; treeldr::tldr_include!("layouts/s252.json"); record!(S252T0 o "o" req); unit!(S252T1); }
pub mod s253 { use typed::*; treeldr::tldr_include!("layouts/s253.json"); items!(S253T0); unit!(S253T1); }
pub mod s254 { use typed::*; treeldr::tldr_include!("layouts/s254.json"); sum!(S254T0 0 a, 1 b); unit!(S254T1); leaf!(SomeThingS2542); }
pub mod s255 { use typed::*; treeldr::tldr_include!("layouts/s255.json"); record!(S255T0 o "o" req); unit!(S255T1); }
pub mod s256 { use typed::*; treeldr::tldr_include!("layouts/s256.json"); items!(S256T0); leaf!(S256T1); }
pub mod s257 { use typed::*; treeldr::tldr_include!("layouts/s257.json"); items!(S257T0); leaf!(S257T1); }
pub mod s258 { use typed::*; treeldr::tldr_include!("layouts/s258.json"); items!(S258T0); leaf!(S258T1); }
pub mod s259 { use typed::*; treeldr::tldr_include!("layouts/s259.json"); items!(S259T0); leaf!(S259T1); }
pub mod s260 { use typed::*; treeldr::tldr_include!("layouts/s260.json"); items!(S260T0); leaf!(S260T1); }
pub mod s261 { use typed::*; treeldr::tldr_include!("layouts/s261.json"); tuple!(S261T0 1 0); record!(S261T1 x "x" req); }
pub mod s262 { use typed::*; treeldr::tldr_include!("layouts/s262.json"); record!(S262T0 o "o" req); record!(S262T1 x "x" req); leaf!(SomeThingS2622); }
pub mod s263 { use typed::*; treeldr::tldr_include!("layouts/s263.json"); items!(S263T0); record!(S263T1 x "x" req); leaf!(SomeThingS2632); }
pub mod s264 { use typed::*; treeldr::tldr_include!("layouts/s264.json"); tuple!(S264T0 1 0); record!(S264T1 x "x" req); }
pub mod s265 { use typed::*; treeldr::tldr_include!("layouts/s265.json"); record!(S265T0 o "o" req); record!(S265T1 x "x" req); leaf!(SomeThingS2652); }
pub mod s266 { use typed::*; treeldr::tldr_include!("layouts/s266.json"); items!(S266T0); record!(S266T1 x "x" req); leaf!(SomeThingS2662); }
pub mod s267 { use typed::*; treeldr::tldr_include!("layouts/s267.json"); tuple!(S267T0 1 0); record!(S267T1 x "x" req); }
pub mod s268 { use typed::*; treeldr::tldr_include!("layouts/s268.json"); items!(S268T0); record!(S268T1 id "id" req, x "x" opt); leaf!(SomeThingS2682); leaf!(T3); }
pub mod s269 { use typed::*; treeldr::tldr_include!("layouts/s269.json"); sum!(S269T0 0 a, 1 b); record!(S269T1 id "id" req, x "x" opt); leaf!(SomeThingS2692); leaf!(T3); leaf!(S269T4); }
pub mod s270 { use typed::*; treeldr::tldr_include!("layouts/s270.json"); record!(S270T0 o "o" req); record!(S270T1 id "id" req, x "x" opt); }
pub mod s271 { use typed::*; treeldr::tldr_include!("layouts/s271.json"); items!(S271T0); record!(S271T1 id "id" req, x "x" opt); leaf!(SomeThingS2712); leaf!(T3); }
pub mod s272 { use typed::*; treeldr::tldr_include!("layouts/s272.json"); sum!(S272T0 0 a, 1 b); record!(S272T1 id "id" req, x "x" opt); leaf!(SomeThingS2722); leaf!(T3); leaf!(S272T4); }
pub mod s273 { use typed::*; treeldr::tldr_include!("layouts/s273.json"); record!(S273T0 o "o" req); record!(S273T1 id "id" req, x "x" opt); }
pub mod s274 { use typed::*; treeldr::tldr_include!("layouts/s274.json"); items!(S274T0); items!(S274T1); }
pub mod s275 { use typed::*; treeldr::tldr_include!("layouts/s275.json"); items!(S275T0); items!(S275T1); }
pub mod s276 { use typed::*; treeldr::tldr_include!("layouts/s276.json"); items!(S276T0); items!(S276T1); }
pub mod s277 { use typed::*; treeldr::tldr_include!("layouts/s277.json"); items!(S277T0); items!(S277T1); }
pub mod s278 { use typed::*; treeldr::tldr_include!("layouts/s278.json"); items!(S278T0); items!(S278T1); }
pub mod s279 { use typed::*; treeldr::tldr_include!("layouts/s279.json"); tuple!(S279T0 1 0); sum!(S279T1 0 a, 1 b); }
pub mod s280 { use typed::*; treeldr::tldr_include!("layouts/s280.json"); record!(S280T0 o "o" req); sum!(S280T1 0 a, 1 b); leaf!(SomeThingS2802); leaf!(T3); }
pub mod s281 { use typed::*; treeldr::tldr_include!("layouts/s281.json"); items!(S281T0); sum!(S281T1 0 a, 1 b); leaf!(SomeThingS2812); leaf!(T3); }
pub mod s282 { use typed::*; treeldr::tldr_include!("layouts/s282.json"); tuple!(S282T0 1 0); sum!(S282T1 0 a, 1 b); }
pub mod s283 { use typed::*; treeldr::tldr_include!("layouts/s283.json"); record!(S283T0 o "o" req); sum!(S283T1 0 a, 1 b); leaf!(SomeThingS2832); leaf!(T3); }
pub mod s284 { use typed::*; treeldr::tldr_include!("layouts/s284.json"); items!(S284T0); sum!(S284T1 0 a, 1 b); leaf!(SomeThingS2842); leaf!(T3); }
pub mod s285 { use typed::*; treeldr::tldr_include!("layouts/s285.json"); tuple!(S285T0 1 0); sum!(S285T1 0 a, 1 b); }
pub mod s286 { use typed::*; treeldr::tldr_include!("layouts/s286.json"); items!(S286T0); unit!(S286T1); }
pub mod s287 { use typed::*; treeldr::tldr_include!("layouts/s287.json"); sum!(S287T0 0 a, 1 b); unit!(S287T1); leaf!(SomeThingS2872); }
pub mod s288 { use typed::*; treeldr::tldr_include!("layouts/s288.json"); record!(S288T0 o "o" req); unit!(S288T1); }
pub mod s289 { use typed::*; treeldr::tldr_include!("layouts/s289.json"); items!(S289T0); unit!(S289T1); }
pub mod s290 { use typed::*; treeldr::tldr_include!("layouts/s290.json"); sum!(S290T0 0 a, 1 b); unit!(S290T1); leaf!(SomeThingS2902); }
pub mod s291 { use typed::*; treeldr::tldr_include!("layouts/s291.json"); record!(S291T0 o "o" req); unit!(S291T1); }
pub mod s292 { use typed::*; treeldr::tldr_include!("layouts/s292.json"); record!(S292T0 a "a" req, z "z" opt); record!(S292T1 o "o" req); leaf!(SomeThingS2922); }
pub mod s293 { use typed::*; treeldr::tldr_include!("layouts/s293.json"); record!(S293T0 a "a" req, z "z" opt); record!(S293T1 o "o" req); leaf!(SomeThingS2932); }
pub mod s294 { use typed::*; treeldr::tldr_include!("layouts/s294.json"); record!(S294T0 a "a" req, z "z" opt); record!(S294T1 o "o" req); leaf!(SomeThingS2942); }
pub mod s295 { use typed::*; treeldr::tldr_include!("layouts/s295.json"); record!(S295T0 a "a" req, z "z" opt); record!(S295T1 o "o" req); leaf!(SomeThingS2952); }
pub mod s296 { use typed::*; treeldr::tldr_include!("layouts/s296.json"); record!(S296T0 a "a" req, z "z" opt); record!(S296T1 o "o" req); leaf!(SomeThingS2962); }
pub mod s297 { use typed::*; treeldr::tldr_include!("layouts/s297.json"); record!(S297T0 a "a" req, z "z" opt); record!(S297T1 o "o" req); leaf!(SomeThingS2972); }
pub mod s298 { use typed::*; treeldr::tldr_include!("layouts/s298.json"); record!(S298T0 a "a" req, z "z" opt); record!(S298T1 o "o" req); leaf!(SomeThingS2982); }
pub mod s299 { use typed::*; treeldr::tldr_include!("layouts/s299.json"); record!(S299T0 a "a" req, z "z" opt); record!(S299T1 o "o" req); leaf!(SomeThingS2992); }
pub mod s300 { use typed::*; treeldr::tldr_include!("layouts/s300.json"); record!(S300T0 a "a" req, z "z" opt); record!(S300T1 o "o" req); record!(SomeThingS3002 x "x" req); }
pub mod s301 { use typed::*; treeldr::tldr_include!("layouts/s301.json"); record!(S301T0 a "a" req, z "z" opt); record!(S301T1 o "o" req); record!(SomeThingS3012 x "x" req); }
pub mod s302 { use typed::*; treeldr::tldr_include!("layouts/s302.json"); record!(S302T0 a "a" req, z "z" opt); record!(S302T1 o "o" req); record!(SomeThingS3022 x "x" req); }
pub mod s303 { use typed::*; treeldr::tldr_include!("layouts/s303.json"); record!(S303T0 a "a" req, z "z" opt); record!(S303T1 o "o" req); record!(SomeThingS3032 x "x" req); }
pub mod s304 { use typed::*; treeldr::tldr_include!("layouts/s304.json"); record!(S304T0 a "a" req, z "z" opt); record!(S304T1 o "o" req); record!(SomeThingS3042 x "x" req); }
pub mod s305 { use typed::*; treeldr::tldr_include!("layouts/s305.json"); record!(S305T0 a "a" req, z "z" opt); record!(S305T1 o "o" req); record!(SomeThingS3052 x "x" req); }
pub mod s306 { use typed::*; treeldr::tldr_include!("layouts/s306.json"); record!(S306T0 a "a" req, z "z" opt); record!(S306T1 o "o" req); record!(SomeThingS3062 x "x" req); }
pub mod s307 { use typed::*; treeldr::tldr_include!("layouts/s307.json"); tuple!(S307T0 2 0 1); leaf!(S307T1); leaf!(SomeThingS3072); }
pub mod s308 { use typed::*; treeldr::tldr_include!("layouts/s308.json"); tuple!(S308T0 2 0 1); leaf!(S308T1); leaf!(SomeThingS3082); }
pub mod s309 { use typed::*; treeldr::tldr_include!("layouts/s309.json"); tuple!(S309T0 2 0 1); leaf!(S309T1); leaf!(SomeThingS3092); }
pub mod s310 { use typed::*; treeldr::tldr_include!("layouts/s310.json"); tuple!(S310T0 2 0 1); leaf!(S310T1); leaf!(SomeThingS3102); }
pub mod s311 { use typed::*; treeldr::tldr_include!("layouts/s311.json"); tuple!(S311T0 2 0 1); leaf!(S311T1); leaf!(SomeThingS3112); }
pub mod s312 { use typed::*; treeldr::tldr_include!("layouts/s312.json"); tuple!(S312T0 2 0 1); leaf!(S312T1); leaf!(SomeThingS3122); }
pub mod s313 { use typed::*; treeldr::tldr_include!("layouts/s313.json"); tuple!(S313T0 1 0); leaf!(S313T1); }
pub mod s314 { use typed::*; treeldr::tldr_include!("layouts/s314.json"); sum!(S314T0 0 a); leaf!(S314T1); }
pub mod s315 { use typed::*; treeldr::tldr_include!("layouts/s315.json"); items!(S315T0); leaf!(S315T1); }
pub mod s316 { use typed::*; treeldr::tldr_include!("layouts/s316.json"); record!(S316T0 f "f" opt, k "k" req); leaf!(S316T1); leaf!(SomeThingS3162); }
pub mod s317 { use typed::*; treeldr::tldr_include!("layouts/s317.json"); sum!(S317T0 0 a); leaf!(S317T1); }
pub mod s318 { use typed::*; treeldr::tldr_include!("layouts/s318.json"); record!(S318T0 f "f" req, k "k" req); leaf!(S318T1); leaf!(SomeThingS3182); }
pub mod s319 { use typed::*; treeldr::tldr_include!("layouts/s319.json"); tuple!(S319T0 2 0 1); leaf!(S319T1); leaf!(SomeThingS3192); }
pub mod s320 { use typed::*; treeldr::tldr_include!("layouts/s320.json"); items!(S320T0); leaf!(S320T1); }
pub mod s321 { use typed::*; treeldr::tldr_include!("layouts/s321.json"); tuple!(S321T0 1 0); leaf!(S321T1); }
pub mod s322 { use typed::*; treeldr::tldr_include!("layouts/s322.json"); tuple!(S322T0 2 0 1); leaf!(S322T1); leaf!(SomeThingS3222); }
pub mod s323 { use typed::*; treeldr::tldr_include!("layouts/s323.json"); sum!(S323T0 0 a); leaf!(S323T1); }
pub mod s324 { use typed::*; treeldr::tldr_include!("layouts/s324.json"); items!(S324T0); leaf!(S324T1); }
pub mod s325 { use typed::*; treeldr::tldr_include!("layouts/s325.json"); record!(S325T0 f "f" opt, k "k" req); leaf!(S325T1); leaf!(SomeThingS3252); }
pub mod s326 { use typed::*; treeldr::tldr_include!("layouts/s326.json"); record!(S326T0 f "f" req, k "k" req); leaf!(S326T1); leaf!(SomeThingS3262); }
pub mod s327 { use typed::*; treeldr::tldr_include!("layouts/s327.json"); record!(S327T0 f "f" opt, k "k" req); leaf!(S327T1); leaf!(SomeThingS3272); }
pub mod s328 { use typed::*; treeldr::tldr_include!("layouts/s328.json"); tuple!(S328T0 2 0 1); leaf!(S328T1); leaf!(SomeThingS3282); }
pub mod s329 { use typed::*; treeldr::tldr_include!("layouts/s329.json"); items!(S329T0); leaf!(S329T1); }
pub mod s330 { use typed::*; treeldr::tldr_include!("layouts/s330.json"); tuple!(S330T0 1 0); leaf!(S330T1); }
pub mod s331 { use typed::*; treeldr::tldr_include!("layouts/s331.json"); sum!(S331T0 0 a); leaf!(S331T1); }
pub mod s332 { use typed::*; treeldr::tldr_include!("layouts/s332.json"); sum!(S332T0 0 a); leaf!(S332T1); }
pub mod s333 { use typed::*; treeldr::tldr_include!("layouts/s333.json"); record!(S333T0 f "f" opt, k "k" req); leaf!(S333T1); leaf!(SomeThingS3332); }
pub mod s334 { use typed::*; treeldr::tldr_include!("layouts/s334.json"); tuple!(S334T0 2 0 1); leaf!(S334T1); leaf!(SomeThingS3342); }
pub mod s335 { use typed::*; treeldr::tldr_include!("layouts/s335.json"); sum!(S335T0 0 a); leaf!(S335T1); }
pub mod s336 { use typed::*; treeldr::tldr_include!("layouts/s336.json"); record!(S336T0 f "f" opt, k "k" req); leaf!(S336T1); leaf!(SomeThingS3362); }
pub mod s337 { use typed::*; treeldr::tldr_include!("layouts/s337.json"); tuple!(S337T0 2 0 1); leaf!(S337T1); leaf!(SomeThingS3372); }
pub mod s338 { use typed::*; treeldr::tldr_include!("layouts/s338.json"); sum!(S338T0 0 a); leaf!(S338T1); }
pub mod s339 { use typed::*; treeldr::tldr_include!("layouts/s339.json"); record!(S339T0 f "f" opt, k "k" req); leaf!(S339T1); leaf!(SomeThingS3392); }
pub mod s340 { use typed::*; treeldr::tldr_include!("layouts/s340.json"); tuple!(S340T0 2 0 1); leaf!(S340T1); leaf!(SomeThingS3402); }
pub mod s341 { use typed::*; treeldr::tldr_include!("layouts/s341.json"); sum!(S341T0 0 a); leaf!(S341T1); }
pub mod s342 { use typed::*; treeldr::tldr_include!("layouts/s342.json"); record!(S342T0 f "f" opt, k "k" req); leaf!(S342T1); leaf!(SomeThingS3422); }
pub mod s343 { use typed::*; treeldr::tldr_include!("layouts/s343.json"); tuple!(S343T0 2 0 1); leaf!(S343T1); leaf!(SomeThingS3432); }
pub mod s344 { use typed::*; treeldr::tldr_include!("layouts/s344.json"); sum!(S344T0 0 a); leaf!(S344T1); }
pub mod s345 { use typed::*; treeldr::tldr_include!("layouts/s345.json"); record!(S345T0 f "f" opt, k "k" req); leaf!(S345T1); leaf!(SomeThingS3452); }
pub mod s346 { use typed::*; treeldr::tldr_include!("layouts/s346.json"); tuple!(S346T0 2 0 1); leaf!(S346T1); leaf!(SomeThingS3462); }
pub mod s347 { use typed::*; treeldr::tldr_include!("layouts/s347.json"); sum!(S347T0 0 a); leaf!(S347T1); }
pub mod s348 { use typed::*; treeldr::tldr_include!("layouts/s348.json"); record!(S348T0 f "f" opt, k "k" req); leaf!(S348T1); leaf!(SomeThingS3482); }
pub mod s349 { use typed::*; treeldr::tldr_include!("layouts/s349.json"); tuple!(S349T0 2 0 1); leaf!(S349T1); leaf!(SomeThingS3492); }
pub mod s350 { use typed::*; treeldr::tldr_include!("layouts/s350.json"); sum!(S350T0 0 a); leaf!(S350T1); }
pub mod s351 { use typed::*; treeldr::tldr_include!("layouts/s351.json"); record!(S351T0 f "f" opt, k "k" req); leaf!(S351T1); leaf!(SomeThingS3512); }
pub mod s352 { use typed::*; treeldr::tldr_include!("layouts/s352.json"); tuple!(S352T0 2 0 1); leaf!(S352T1); leaf!(SomeThingS3522); }
pub mod s353 { use typed::*; treeldr::tldr_include!("layouts/s353.json"); sum!(S353T0 0 a); leaf!(S353T1); }
pub mod s354 { use typed::*; treeldr::tldr_include!("layouts/s354.json"); record!(S354T0 f "f" opt, k "k" req); leaf!(S354T1); leaf!(SomeThingS3542); }
pub mod s355 { use typed::*; treeldr::tldr_include!("layouts/s355.json"); tuple!(S355T0 2 0 1); leaf!(S355T1); leaf!(SomeThingS3552); }
pub mod s356 { use typed::*; treeldr::tldr_include!("layouts/s356.json"); sum!(S356T0 0 a); leaf!(S356T1); }
pub mod s357 { use typed::*; treeldr::tldr_include!("layouts/s357.json"); record!(S357T0 f "f" opt, k "k" req); leaf!(S357T1); leaf!(SomeThingS3572); }
pub mod s358 { use typed::*; treeldr::tldr_include!("layouts/s358.json"); tuple!(S358T0 2 0 1); leaf!(S358T1); leaf!(SomeThingS3582); }
pub mod s359 { use typed::*; treeldr::tldr_include!("layouts/s359.json"); sum!(S359T0 0 a); leaf!(S359T1); }
pub mod s360 { use typed::*; treeldr::tldr_include!("layouts/s360.json"); record!(S360T0 f "f" opt, k "k" req); leaf!(S360T1); leaf!(SomeThingS3602); }
pub mod s361 { use typed::*; treeldr::tldr_include!("layouts/s361.json"); tuple!(S361T0 1 0); leaf!(S361T1); }
pub mod s362 { use typed::*; treeldr::tldr_include!("layouts/s362.json"); sum!(S362T0 0 a); leaf!(S362T1); }
pub mod s363 { use typed::*; treeldr::tldr_include!("layouts/s363.json"); items!(S363T0); leaf!(S363T1); }
pub mod s364 { use typed::*; treeldr::tldr_include!("layouts/s364.json"); record!(S364T0 f "f" opt, k "k" req); leaf!(S364T1); leaf!(SomeThingS3642); }
pub mod s365 { use typed::*; treeldr::tldr_include!("layouts/s365.json"); sum!(S365T0 0 a); leaf!(S365T1); }
pub mod s366 { use typed::*; treeldr::tldr_include!("layouts/s366.json"); record!(S366T0 f "f" req, k "k" req); leaf!(S366T1); leaf!(SomeThingS3662); }
pub mod s367 { use typed::*; treeldr::tldr_include!("layouts/s367.json"); tuple!(S367T0 2 0 1); leaf!(S367T1); leaf!(SomeThingS3672); }
pub mod s368 { use typed::*; treeldr::tldr_include!("layouts/s368.json"); items!(S368T0); leaf!(S368T1); }
pub mod s369 { use typed::*; treeldr::tldr_include!("layouts/s369.json"); tuple!(S369T0 1 0); leaf!(S369T1); }
pub mod s370 { use typed::*; treeldr::tldr_include!("layouts/s370.json"); tuple!(S370T0 2 0 1); leaf!(S370T1); leaf!(SomeThingS3702); }
pub mod s371 { use typed::*; treeldr::tldr_include!("layouts/s371.json"); sum!(S371T0 0 a); leaf!(S371T1); }
pub mod s372 { use typed::*; treeldr::tldr_include!("layouts/s372.json"); items!(S372T0); leaf!(S372T1); }
pub mod s373 { use typed::*; treeldr::tldr_include!("layouts/s373.json"); record!(S373T0 f "f" opt, k "k" req); leaf!(S373T1); leaf!(SomeThingS3732); }
pub mod s374 { use typed::*; treeldr::tldr_include!("layouts/s374.json"); record!(S374T0 f "f" req, k "k" req); leaf!(S374T1); leaf!(SomeThingS3742); }
pub mod s375 { use typed::*; treeldr::tldr_include!("layouts/s375.json"); record!(S375T0 f "f" opt, k "k" req); leaf!(S375T1); leaf!(SomeThingS3752); }
pub mod s376 { use typed::*; treeldr::tldr_include!("layouts/s376.json"); tuple!(S376T0 2 0 1); leaf!(S376T1); leaf!(SomeThingS3762); }
pub mod s377 { use typed::*; treeldr::tldr_include!("layouts/s377.json"); items!(S377T0); leaf!(S377T1); }
pub mod s378 { use typed::*; treeldr::tldr_include!("layouts/s378.json"); tuple!(S378T0 1 0); leaf!(S378T1); }
pub mod s379 { use typed::*; treeldr::tldr_include!("layouts/s379.json"); sum!(S379T0 0 a); leaf!(S379T1); }
pub mod s380 { use typed::*; treeldr::tldr_include!("layouts/s380.json"); sum!(S380T0 0 a); leaf!(S380T1); }
pub mod s381 { use typed::*; treeldr::tldr_include!("layouts/s381.json"); record!(S381T0 f "f" opt, k "k" req); leaf!(S381T1); leaf!(SomeThingS3812); }
pub mod s382 { use typed::*; treeldr::tldr_include!("layouts/s382.json"); record!(S382T0 f "f" opt, k "k" req); leaf!(S382T1); leaf!(SomeThingS3822); }
pub mod s383 { use typed::*; treeldr::tldr_include!("layouts/s383.json"); record!(S383T0 f "f" req, k "k" req); leaf!(S383T1); leaf!(SomeThingS3832); }
pub mod s384 { use typed::*; treeldr::tldr_include!("layouts/s384.json"); tuple!(S384T0 2 0 1); leaf!(S384T1); leaf!(SomeThingS3842); }
pub mod s385 { use typed::*; treeldr::tldr_include!("layouts/s385.json"); tuple!(S385T0 2 0 1); leaf!(S385T1); leaf!(SomeThingS3852); }
pub mod s386 { use typed::*; treeldr::tldr_include!("layouts/s386.json"); sum!(S386T0 0 a); leaf!(S386T1); }
pub mod s387 { use typed::*; treeldr::tldr_include!("layouts/s387.json"); tuple!(S387T0 1 0); leaf!(S387T1); }
pub mod s388 { use typed::*; treeldr::tldr_include!("layouts/s388.json"); sum!(S388T0 0 a); leaf!(S388T1); }
pub mod s389 { use typed::*; treeldr::tldr_include!("layouts/s389.json"); items!(S389T0); leaf!(S389T1); }
pub mod s390 { use typed::*; treeldr::tldr_include!("layouts/s390.json"); record!(S390T0 f "f" opt, k "k" req); leaf!(S390T1); leaf!(SomeThingS3902); }
pub mod s391 { use typed::*; treeldr::tldr_include!("layouts/s391.json"); tuple!(S391T0 2 0 1); leaf!(S391T1); leaf!(SomeThingS3912); }
pub mod s392 { use typed::*; treeldr::tldr_include!("layouts/s392.json"); sum!(S392T0 0 a); leaf!(S392T1); }
pub mod s393 { use typed::*; treeldr::tldr_include!("layouts/s393.json"); record!(S393T0 f "f" opt, k "k" req); leaf!(S393T1); leaf!(SomeThingS3932); }
pub mod s394 { use typed::*; treeldr::tldr_include!("layouts/s394.json"); tuple!(S394T0 2 0 1); leaf!(S394T1); leaf!(SomeThingS3942); }
pub mod s395 { use typed::*; treeldr::tldr_include!("layouts/s395.json"); sum!(S395T0 0 a); leaf!(S395T1); }
pub mod s396 { use typed::*; treeldr::tldr_include!("layouts/s396.json"); record!(S396T0 f "f" opt, k "k" req); leaf!(S396T1); leaf!(SomeThingS3962); }
pub mod s397 { use typed::*; treeldr::tldr_include!("layouts/s397.json"); tuple!(S397T0 2 0 1); leaf!(S397T1); leaf!(SomeThingS3972); }
pub mod s398 { use typed::*; treeldr::tldr_include!("layouts/s398.json"); sum!(S398T0 0 a); leaf!(S398T1); }
pub mod s399 { use typed::*; treeldr::tldr_include!("layouts/s399.json"); record!(S399T0 f "f" opt, k "k" req); leaf!(S399T1); leaf!(SomeThingS3992); }
pub mod s400 { use typed::*; treeldr::tldr_include!("layouts/s400.json"); tuple!(S400T0 2 0 1); leaf!(S400T1); leaf!(SomeThingS4002); }
pub mod s401 { use typed::*; treeldr::tldr_include!("layouts/s401.json"); sum!(S401T0 0 a); leaf!(S401T1); }
pub mod s402 { use typed::*; treeldr::tldr_include!("layouts/s402.json"); record!(S402T0 f "f" opt, k "k" req); leaf!(S402T1); leaf!(SomeThingS4022); }
pub mod s403 { use typed::*; treeldr::tldr_include!("layouts/s403.json"); tuple!(S403T0 2 0 1); leaf!(S403T1); leaf!(SomeThingS4032); }
pub mod s404 { use typed::*; treeldr::tldr_include!("layouts/s404.json"); sum!(S404T0 0 a); leaf!(S404T1); }
pub mod s405 { use typed::*; treeldr::tldr_include!("layouts/s405.json"); record!(S405T0 f "f" opt, k "k" req); leaf!(S405T1); leaf!(SomeThingS4052); }
pub mod s406 { use typed::*; treeldr::tldr_include!("layouts/s406.json"); tuple!(S406T0 2 0 1); leaf!(S406T1); leaf!(SomeThingS4062); }
pub mod s407 { use typed::*; treeldr::tldr_include!("layouts/s407.json"); sum!(S407T0 0 a); leaf!(S407T1); }
pub mod s408 { use typed::*; treeldr::tldr_include!("layouts/s408.json"); record!(S408T0 f "f" opt, k "k" req); leaf!(S408T1); leaf!(SomeThingS4082); }
pub mod s409 { use typed::*; treeldr::tldr_include!("layouts/s409.json"); tuple!(S409T0 2 0 1); leaf!(S409T1); leaf!(SomeThingS4092); }
pub mod s410 { use typed::*; treeldr::tldr_include!("layouts/s410.json"); sum!(S410T0 0 a); leaf!(S410T1); }
pub mod s411 { use typed::*; treeldr::tldr_include!("layouts/s411.json"); record!(S411T0 f "f" opt, k "k" req); leaf!(S411T1); leaf!(SomeThingS4112); }
pub mod s412 { use typed::*; treeldr::tldr_include!("layouts/s412.json"); tuple!(S412T0 2 0 1); leaf!(S412T1); leaf!(SomeThingS4122); }
pub mod s413 { use typed::*; treeldr::tldr_include!("layouts/s413.json"); sum!(S413T0 0 a); leaf!(S413T1); }
pub mod s414 { use typed::*; treeldr::tldr_include!("layouts/s414.json"); record!(S414T0 f "f" opt, k "k" req); leaf!(S414T1); leaf!(SomeThingS4142); }
pub mod s415 { use typed::*; treeldr::tldr_include!("layouts/s415.json"); tuple!(S415T0 2 0 1); leaf!(S415T1); leaf!(SomeThingS4152); }
pub mod s416 { use typed::*; treeldr::tldr_include!("layouts/s416.json"); sum!(S416T0 0 a); leaf!(S416T1); }
pub mod s417 { use typed::*; treeldr::tldr_include!("layouts/s417.json"); record!(S417T0 f "f" opt, k "k" req); leaf!(S417T1); leaf!(SomeThingS4172); }
pub mod s418 { use typed::*; treeldr::tldr_include!("layouts/s418.json"); tuple!(S418T0 2 0 1); leaf!(S418T1); leaf!(SomeThingS4182); }
pub mod s419 { use typed::*; treeldr::tldr_include!("layouts/s419.json"); sum!(S419T0 0 a, 1 b); record!(S419T1 id "id" req, x "x" opt); }
pub mod s420 { use typed::*; treeldr::tldr_include!("layouts/s420.json"); sum!(S420T0 0 a, 1 b); }
pub mod s421 { use typed::*; treeldr::tldr_include!("layouts/s421.json"); sum!(S421T0 0 a, 1 b); record!(S421T1 x "x" opt); }
pub mod s422 { use typed::*; treeldr::tldr_include!("layouts/s422.json"); sum!(S422T0 0 a, 1 b); items!(S422T1); }
pub mod s423 { use typed::*; treeldr::tldr_include!("layouts/s423.json"); sum!(S423T0 0 a); }
pub mod s424 { use typed::*; treeldr::tldr_include!("layouts/s424.json"); sum!(S424T0 0 a, 1 b); }
pub mod s425 { use typed::*; treeldr::tldr_include!("layouts/s425.json"); sum!(S425T0 0 a, 1 b); }
pub mod s426 { use typed::*; treeldr::tldr_include!("layouts/s426.json"); sum!(S426T0 0 a, 1 b); }
pub mod s427 { use typed::*; treeldr::tldr_include!("layouts/s427.json"); sum!(S427T0 0 a, 1 b); }
pub mod s428 { use typed::*; treeldr::tldr_include!("layouts/s428.json"); sum!(S428T0 0 a, 1 b); record!(S428T1 x "x" req); }
pub mod s429 { use typed::*; treeldr::tldr_include!("layouts/s429.json"); sum!(S429T0 0 a, 1 b); tuple!(S429T1 2 0 1); }
pub mod s430 { use typed::*; treeldr::tldr_include!("layouts/s430.json"); sum!(S430T0 0 a, 1 b); items!(S430T1); }
pub mod s431 { use typed::*; treeldr::tldr_include!("layouts/s431.json"); sum!(S431T0 0 a, 1 b); }
pub mod s432 { use typed::*; treeldr::tldr_include!("layouts/s432.json"); sum!(S432T0 0 a, 1 b); record!(S432T1 x "x" req); }
pub mod s433 { use typed::*; treeldr::tldr_include!("layouts/s433.json"); sum!(S433T0 0 a, 1 b); record!(S433T1 x "x" opt, y "y" opt); items!(SomeThingS4332); }
pub mod s434 { use typed::*; treeldr::tldr_include!("layouts/s434.json"); sum!(S434T0 0 a, 1 b); record!(S434T1 x "x" opt, y "y" opt); }
pub mod s435 { use typed::*; treeldr::tldr_include!("layouts/s435.json"); sum!(S435T0 0 a, 1 b); record!(S435T1 id "id" req, x "x" opt); }
pub mod s436 { use typed::*; treeldr::tldr_include!("layouts/s436.json"); sum!(S436T0 0 a, 1 b); items!(S436T1); }
pub mod s437 { use typed::*; treeldr::tldr_include!("layouts/s437.json"); sum!(S437T0 0 a, 1 b); items!(S437T1); }
pub mod s438 { use typed::*; treeldr::tldr_include!("layouts/s438.json"); sum!(S438T0 0 a, 1 b); items!(S438T1); record!(SomeThingS4382 x "x" opt); }
pub mod s439 { use typed::*; treeldr::tldr_include!("layouts/s439.json"); sum!(S439T0 0 a, 1 b); items!(S439T1); record!(SomeThingS4392 x "x" req); }
pub mod s440 { use typed::*; treeldr::tldr_include!("layouts/s440.json"); sum!(S440T0 0 a, 1 b); tuple!(S440T1 2 0 1); items!(SomeThingS4402); }
pub mod s441 { use typed::*; treeldr::tldr_include!("layouts/s441.json"); sum!(S441T0 0 a, 1 b); tuple!(S441T1 2 0 1); }
pub mod s442 { use typed::*; treeldr::tldr_include!("layouts/s442.json"); sum!(S442T0 0 a, 1 b); items!(S442T1); sum!(SomeThingS4422 0 m, 1 n); }
pub mod s443 { use typed::*; treeldr::tldr_include!("layouts/s443.json"); sum!(S443T0 0 a, 1 b); }
pub mod s444 { use typed::*; treeldr::tldr_include!("layouts/s444.json"); sum!(S444T0 0 a, 1 b); }
pub mod s445 { use typed::*; treeldr::tldr_include!("layouts/s445.json"); sum!(S445T0 0 a, 1 b); record!(S445T1 x "x" opt); }
pub mod s446 { use typed::*; treeldr::tldr_include!("layouts/s446.json"); sum!(S446T0 0 a, 1 b); items!(S446T1); }
pub mod s447 { use typed::*; treeldr::tldr_include!("layouts/s447.json"); sum!(S447T0 0 a); }
pub mod s448 { use typed::*; treeldr::tldr_include!("layouts/s448.json"); sum!(S448T0 0 a, 1 b); record!(S448T1 x "x" opt); sum!(SomeThingS4482 0 m, 1 n); }
pub mod s449 { use typed::*; treeldr::tldr_include!("layouts/s449.json"); sum!(S449T0 0 a, 1 b); record!(S449T1 x "x" opt); record!(SomeThingS4492 x "x" req); }
pub mod s450 { use typed::*; treeldr::tldr_include!("layouts/s450-0.json"); items!(Kids); record!(S450T0 kids "kids" req, v "v" opt); }
pub mod s451 { use typed::*; treeldr::tldr_include!("layouts/s451.json"); items!(S451T0); }
pub mod s452 { use typed::*; treeldr::tldr_include!("layouts/s452.json"); record!(S452T0 f "f" opt); leaf!(S452T1); }
pub mod s453 { use typed::*; treeldr::tldr_include!("layouts/s453.json"); record!(S453T0 f "f" opt); }
pub mod s454 { use typed::*; treeldr::tldr_include!("layouts/s454.json"); items!(S454T0); leaf!(S454T1); }
pub mod s455 { use typed::*; treeldr::tldr_include!("layouts/s455.json"); items!(S455T0); }
pub mod s456 { use typed::*; treeldr::tldr_include!("layouts/s456.json"); record!(S456T0 f "f" opt); leaf!(S456T1); }
pub mod s457 { use typed::*; treeldr::tldr_include!("layouts/s457.json"); record!(S457T0 f "f" opt); }
pub mod s458 { use typed::*; treeldr::tldr_include!("layouts/s458.json"); items!(S458T0); leaf!(S458T1); }
pub mod s459 { use typed::*; treeldr::tldr_include!("layouts/s459.json"); items!(S459T0); }
pub mod s460 { use typed::*; treeldr::tldr_include!("layouts/s460.json"); record!(S460T0 f "f" opt); leaf!(S460T1); }
pub mod s461 { use typed::*; treeldr::tldr_include!("layouts/s461.json"); record!(S461T0 f "f" opt); }
pub mod s462 { use typed::*; treeldr::tldr_include!("layouts/s462.json"); items!(S462T0); leaf!(S462T1); }
pub mod s463 { use typed::*; treeldr::tldr_include!("layouts/s463.json"); items!(S463T0); }
pub mod s464 { use typed::*; treeldr::tldr_include!("layouts/s464.json"); record!(S464T0 f "f" opt); leaf!(S464T1); }
pub mod s465 { use typed::*; treeldr::tldr_include!("layouts/s465.json"); record!(S465T0 f "f" opt); }
pub mod s466 { use typed::*; treeldr::tldr_include!("layouts/s466.json"); items!(S466T0); leaf!(S466T1); }
pub mod s467 { use typed::*; treeldr::tldr_include!("layouts/s467.json"); record!(S467T0 a "a" req, b "b" opt, c "c" opt); }
pub mod s468 { use typed::*; treeldr::tldr_include!("layouts/s468.json"); record!(S468T0 a "a" req, b "b" opt, c "c" opt); leaf!(S468T1); unit!(SomeThingS4682); leaf!(T3); }
pub mod any { pub type Anything = treeldr::Always; pub type Nothing = treeldr::Never; }
#[treeldr::tldr("layouts/lib-Name.json", "layouts/lib-flag.json", "layouts/lib-Link.json", "layouts/lib-Person.json", "layouts/lib-Choice.json")] pub mod lib {}
typed::opaque!(lib::Name, 1, mc::gfam::lib_sys("http://e/lib/Name"));
typed::opaque!(lib::Flag, 1, mc::gfam::lib_sys("http://e/lib/flag"));
typed::opaque!(lib::Link, 1, mc::gfam::lib_sys("http://e/lib/Link"));
typed::opaque!(lib::Person, 1, mc::gfam::lib_sys("http://e/lib/Person"));
typed::opaque!(lib::Choice, 1, mc::gfam::lib_sys("http://e/lib/Choice"));
#[treeldr::tldr("layouts/deep-Name.json", "layouts/deep-Pair.json")] pub mod deep {}
typed::opaque!(deep::Name, 1, mc::gfam::lib_sys("http://e/lib/deep/Name"));
typed::opaque!(deep::Pair, 1, mc::gfam::lib_sys("http://e/lib/deep/Pair"));
#[treeldr::tldr("layouts/m0.json")] pub mod m0 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m0::M0Main, 1, mc::gfam::module_sys(0));
#[treeldr::tldr("layouts/m1.json")] pub mod m1 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m1::M1Main, 1, mc::gfam::module_sys(1));
#[treeldr::tldr("layouts/m2.json")] pub mod m2 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m2::M2Main, 1, mc::gfam::module_sys(2));
#[treeldr::tldr("layouts/m3.json")] pub mod m3 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m3::M3Main, 1, mc::gfam::module_sys(3));
#[treeldr::tldr("layouts/m4.json")] pub mod m4 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m4::M4Main, 1, mc::gfam::module_sys(4));
#[treeldr::tldr("layouts/m5.json")] pub mod m5 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m5::M5Main, 1, mc::gfam::module_sys(5));
#[treeldr::tldr("layouts/m6.json")] pub mod m6 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m6::M6Main, 1, mc::gfam::module_sys(6));
#[treeldr::tldr("layouts/m7.json")] pub mod m7 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m7::M7Main, 1, mc::gfam::module_sys(7));
#[treeldr::tldr("layouts/m8.json")] pub mod m8 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m8::M8Main, 1, mc::gfam::module_sys(8));
#[treeldr::tldr("layouts/m9.json")] pub mod m9 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m9::M9Main, 1, mc::gfam::module_sys(9));
#[treeldr::tldr("layouts/m10.json")] pub mod m10 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m10::M10Main, 1, mc::gfam::module_sys(10));
#[treeldr::tldr("layouts/m11.json")] pub mod m11 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m11::M11Main, 1, mc::gfam::module_sys(11));
#[treeldr::tldr("layouts/m12.json")] pub mod m12 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m12::M12Main, 1, mc::gfam::module_sys(12));
#[treeldr::tldr("layouts/m13.json")] pub mod m13 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m13::M13Main, 1, mc::gfam::module_sys(13));
#[treeldr::tldr("layouts/m14.json")] pub mod m14 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m14::M14Main, 1, mc::gfam::module_sys(14));
#[treeldr::tldr("layouts/m15.json")] pub mod m15 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m15::M15Main, 1, mc::gfam::module_sys(15));
#[treeldr::tldr("layouts/m16.json")] pub mod m16 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m16::M16Main, 1, mc::gfam::module_sys(16));
#[treeldr::tldr("layouts/m17.json")] pub mod m17 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m17::M17Main, 1, mc::gfam::module_sys(17));
#[treeldr::tldr("layouts/m18.json")] pub mod m18 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m18::M18Main, 1, mc::gfam::module_sys(18));
#[treeldr::tldr("layouts/m19.json")] pub mod m19 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m19::M19Main, 1, mc::gfam::module_sys(19));
#[treeldr::tldr("layouts/m20.json")] pub mod m20 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m20::M20Main, 1, mc::gfam::module_sys(20));
#[treeldr::tldr("layouts/m21.json")] pub mod m21 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m21::M21Main, 1, mc::gfam::module_sys(21));
#[treeldr::tldr("layouts/m22.json")] pub mod m22 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m22::M22Main, 1, mc::gfam::module_sys(22));
#[treeldr::tldr("layouts/m23.json")] pub mod m23 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m23::M23Main, 1, mc::gfam::module_sys(23));
#[treeldr::tldr("layouts/m24.json")] pub mod m24 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m24::M24Main, 1, mc::gfam::module_sys(24));
#[treeldr::tldr("layouts/m25.json")] pub mod m25 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m25::M25Main, 1, mc::gfam::module_sys(25));
#[treeldr::tldr("layouts/m26.json")] pub mod m26 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m26::M26Main, 1, mc::gfam::module_sys(26));
#[treeldr::tldr("layouts/m27.json")] pub mod m27 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m27::M27Main, 1, mc::gfam::module_sys(27));
#[treeldr::tldr("layouts/m28.json")] pub mod m28 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m28::M28Main, 1, mc::gfam::module_sys(28));
#[treeldr::tldr("layouts/m29.json")] pub mod m29 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m29::M29Main, 1, mc::gfam::module_sys(29));
#[treeldr::tldr("layouts/m30.json")] pub mod m30 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m30::M30Main, 1, mc::gfam::module_sys(30));
#[treeldr::tldr("layouts/m31.json")] pub mod m31 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m31::M31Main, 1, mc::gfam::module_sys(31));
#[treeldr::tldr("layouts/m32.json")] pub mod m32 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m32::M32Main, 1, mc::gfam::module_sys(32));
#[treeldr::tldr("layouts/m33.json")] pub mod m33 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m33::M33Main, 1, mc::gfam::module_sys(33));
#[treeldr::tldr("layouts/m34.json")] pub mod m34 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m34::M34Main, 1, mc::gfam::module_sys(34));
#[treeldr::tldr("layouts/m35.json")] pub mod m35 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m35::M35Main, 1, mc::gfam::module_sys(35));
#[treeldr::tldr("layouts/m36.json")] pub mod m36 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m36::M36Main, 1, mc::gfam::module_sys(36));
#[treeldr::tldr("layouts/m37.json")] pub mod m37 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m37::M37Main, 1, mc::gfam::module_sys(37));
#[treeldr::tldr("layouts/m38.json")] pub mod m38 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m38::M38Main, 1, mc::gfam::module_sys(38));
#[treeldr::tldr("layouts/m39.json")] pub mod m39 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m39::M39Main, 1, mc::gfam::module_sys(39));
#[treeldr::tldr("layouts/m40.json")] pub mod m40 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m40::M40Main, 1, mc::gfam::module_sys(40));
#[treeldr::tldr("layouts/m41.json")] pub mod m41 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m41::M41Main, 1, mc::gfam::module_sys(41));
#[treeldr::tldr("layouts/m42.json")] pub mod m42 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m42::M42Main, 1, mc::gfam::module_sys(42));
#[treeldr::tldr("layouts/m43.json")] pub mod m43 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m43::M43Main, 1, mc::gfam::module_sys(43));
#[treeldr::tldr("layouts/m44.json")] pub mod m44 { #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; }
typed::opaque!(m44::M44Main, 1, mc::gfam::module_sys(44));
#[treeldr::tldr("layouts/m45.json")] pub mod m45 { #[tldr("http://e/lib/")] use super::lib; #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; }
typed::opaque!(m45::M45Main, 1, mc::gfam::module_sys(45));
#[treeldr::tldr("layouts/m46.json")] pub mod m46 { #[tldr("http://e/lib/deep/")] use super::deep as below; #[tldr("http://e/any#")] use super::any; #[tldr("http://e/lib/")] use super::lib; }
typed::opaque!(m46::M46Main, 1, mc::gfam::module_sys(46));

pub const ALL: &[(&str, Ops)] = &[
    ("id~Short", ops::<s0::S0T0, 1>()),
    ("str~Short", ops::<s1::S1T0, 1>()),
    ("bool~Short", ops::<s2::S2T0, 1>()),
    ("int~Short", ops::<s3::S3T0, 1>()),
    ("dec~Short", ops::<s4::S4T0, 1>()),
    ("unit~Short", ops::<s5::S5T0, 1>()),
    ("rec!(id)~Short", ops::<s6::S6T0, 1>()),
    ("rec?(id)~Short", ops::<s7::S7T0, 1>()),
    ("recid(id)~Short", ops::<s8::S8T0, 1>()),
    ("set(id)~Short", ops::<s9::S9T0, 1>()),
    ("list(id)~Short", ops::<s10::S10T0, 1>()),
    ("tup(id,str)~Short", ops::<s11::S11T0, 1>()),
    ("rec!(str)~Short", ops::<s12::S12T0, 1>()),
    ("rec?(str)~Short", ops::<s13::S13T0, 1>()),
    ("recid(str)~Short", ops::<s14::S14T0, 1>()),
    ("set(str)~Short", ops::<s15::S15T0, 1>()),
    ("list(str)~Short", ops::<s16::S16T0, 1>()),
    ("tup(str,str)~Short", ops::<s17::S17T0, 1>()),
    ("rec!(bool)~Short", ops::<s18::S18T0, 1>()),
    ("rec?(bool)~Short", ops::<s19::S19T0, 1>()),
    ("recid(bool)~Short", ops::<s20::S20T0, 1>()),
    ("set(bool)~Short", ops::<s21::S21T0, 1>()),
    ("list(bool)~Short", ops::<s22::S22T0, 1>()),
    ("tup(bool,str)~Short", ops::<s23::S23T0, 1>()),
    ("rec!(int)~Short", ops::<s24::S24T0, 1>()),
    ("rec?(int)~Short", ops::<s25::S25T0, 1>()),
    ("recid(int)~Short", ops::<s26::S26T0, 1>()),
    ("set(int)~Short", ops::<s27::S27T0, 1>()),
    ("list(int)~Short", ops::<s28::S28T0, 1>()),
    ("tup(int,str)~Short", ops::<s29::S29T0, 1>()),
    ("rec!(dec)~Short", ops::<s30::S30T0, 1>()),
    ("rec?(dec)~Short", ops::<s31::S31T0, 1>()),
    ("recid(dec)~Short", ops::<s32::S32T0, 1>()),
    ("set(dec)~Short", ops::<s33::S33T0, 1>()),
    ("list(dec)~Short", ops::<s34::S34T0, 1>()),
    ("tup(dec,str)~Short", ops::<s35::S35T0, 1>()),
    ("rec!(unit)~Short", ops::<s36::S36T0, 1>()),
    ("rec?(unit)~Short", ops::<s37::S37T0, 1>()),
    ("recid(unit)~Short", ops::<s38::S38T0, 1>()),
    ("set(unit)~Short", ops::<s39::S39T0, 1>()),
    ("list(unit)~Short", ops::<s40::S40T0, 1>()),
    ("tup(unit,str)~Short", ops::<s41::S41T0, 1>()),
    ("rec2(str,int)~Short", ops::<s42::S42T0, 1>()),
    ("tup0~Short", ops::<s43::S43T0, 1>()),
    ("rec0~Short", ops::<s44::S44T0, 1>()),
    ("typed(rec)~Short", ops::<s45::S45T0, 1>()),
    ("chain(rec)~Short", ops::<s46::S46T0, 1>()),
    ("twohop(rec)~Short", ops::<s47::S47T0, 1>()),
    ("sum(str|id)~Short", ops::<s48::S48T0, 1>()),
    ("sum(str|int|bool)~Short", ops::<s49::S49T0, 1>()),
    ("sum(recA|recB)~Short", ops::<s50::S50T0, 1>()),
    ("sum(prop|prop)~Short", ops::<s51::S51T0, 1>()),
    ("sum(str|rec)~Short", ops::<s52::S52T0, 1>()),
    ("unitmark~Short", ops::<s53::S53T0, 1>()),
    ("strpath~Short", ops::<s54::S54T0, 1>()),
    ("rec2in~Short", ops::<s55::S55T0, 2>()),
    ("rec?(rec!(id))~Short", ops::<s56::S56T0, 1>()),
    ("set(rec?(id))~Short", ops::<s57::S57T0, 1>()),
    ("tup(str,recid(id))~Short", ops::<s58::S58T0, 1>()),
    ("rec!(list(id))~Short", ops::<s59::S59T0, 1>()),
    ("rec?(tup(id,str))~Short", ops::<s60::S60T0, 1>()),
    ("set(rec!(str))~Short", ops::<s61::S61T0, 1>()),
    ("list(rec?(str))~Short", ops::<s62::S62T0, 1>()),
    ("recid2(recid(str))~Short", ops::<s63::S63T0, 1>()),
    ("rec?(list(str))~Short", ops::<s64::S64T0, 1>()),
    ("set(tup(str,str))~Short", ops::<s65::S65T0, 1>()),
    ("list(rec!(bool))~Short", ops::<s66::S66T0, 1>()),
    ("tup(str,rec?(bool))~Short", ops::<s67::S67T0, 1>()),
    ("rec!(set(bool))~Short", ops::<s68::S68T0, 1>()),
    ("set(list(bool))~Short", ops::<s69::S69T0, 1>()),
    ("list(tup(bool,str))~Short", ops::<s70::S70T0, 1>()),
    ("tup(str,rec!(int))~Short", ops::<s71::S71T0, 1>()),
    ("recid2(rec?(int))~Short", ops::<s72::S72T0, 1>()),
    ("rec?(set(int))~Short", ops::<s73::S73T0, 1>()),
    ("list(list(int))~Short", ops::<s74::S74T0, 1>()),
    ("tup(str,tup(int,str))~Short", ops::<s75::S75T0, 1>()),
    ("recid2(rec!(dec))~Short", ops::<s76::S76T0, 1>()),
    ("rec!(recid(dec))~Short", ops::<s77::S77T0, 1>()),
    ("set(set(dec))~Short", ops::<s78::S78T0, 1>()),
    ("tup(str,list(dec))~Short", ops::<s79::S79T0, 1>()),
    ("recid2(tup(dec,str))~Short", ops::<s80::S80T0, 1>()),
    ("sum(rec!(unit)|str)~Short", ops::<s81::S81T0, 1>()),
    ("rec?(recid(unit))~Short", ops::<s82::S82T0, 1>()),
    ("list(set(unit))~Short", ops::<s83::S83T0, 1>()),
    ("recid2(list(unit))~Short", ops::<s84::S84T0, 1>()),
    ("sum(tup(unit,str)|str)~Short", ops::<s85::S85T0, 1>()),
    ("rec?(tup0)~Short", ops::<s86::S86T0, 1>()),
    ("list(rec0)~Short", ops::<s87::S87T0, 1>()),
    ("recid2(typed(rec))~Short", ops::<s88::S88T0, 1>()),
    ("rec?(twohop(rec))~Short", ops::<s89::S89T0, 1>()),
    ("list(sum(str|id))~Short", ops::<s90::S90T0, 1>()),
    ("recid2(sum(str|int|bool))~Short", ops::<s91::S91T0, 1>()),
    ("rec?(sum(prop|prop))~Short", ops::<s92::S92T0, 1>()),
    ("list(sum(str|rec))~Short", ops::<s93::S93T0, 1>()),
    ("recid2(unitmark)~Short", ops::<s94::S94T0, 1>()),
    ("leafself:id~Short", ops::<s95::S95T0, 1>()),
    ("leafself:str~Short", ops::<s96::S96T0, 1>()),
    ("leafself:bool~Short", ops::<s97::S97T0, 1>()),
    ("leafself:int~Short", ops::<s98::S98T0, 1>()),
    ("leafself:dec~Short", ops::<s99::S99T0, 1>()),
    ("leafself:unit~Short", ops::<s100::S100T0, 1>()),
    ("str:custom~Short", ops::<s101::S101T0, 1>()),
    ("viaconst:id~Short", ops::<s102::S102T0, 1>()),
    ("leafintro:id~Short", ops::<s103::S103T0, 1>()),
    ("leafchain:id~Short", ops::<s104::S104T0, 1>()),
    ("leafintro:str~Short", ops::<s105::S105T0, 1>()),
    ("leafchain:str~Short", ops::<s106::S106T0, 1>()),
    ("leafintro:bool~Short", ops::<s107::S107T0, 1>()),
    ("leafchain:bool~Short", ops::<s108::S108T0, 1>()),
    ("leafintro:int~Short", ops::<s109::S109T0, 1>()),
    ("leafchain:int~Short", ops::<s110::S110T0, 1>()),
    ("leafintro:dec~Short", ops::<s111::S111T0, 1>()),
    ("leafchain:dec~Short", ops::<s112::S112T0, 1>()),
    ("leafintro:unit~Short", ops::<s113::S113T0, 1>()),
    ("leafchain:unit~Short", ops::<s114::S114T0, 1>()),
    ("two:order:record~Short", ops::<s115::S115T0, 1>()),
    ("two:order:tuple~Short", ops::<s116::S116T0, 1>()),
    ("two:order:set~Short", ops::<s117::S117T0, 1>()),
    ("two:order:sum~Short", ops::<s118::S118T0, 1>()),
    ("two:swap:record~Short", ops::<s119::S119T0, 1>()),
    ("two:swap:tuple~Short", ops::<s120::S120T0, 1>()),
    ("two:swap:set~Short", ops::<s121::S121T0, 1>()),
    ("two:swap:sum~Short", ops::<s122::S122T0, 1>()),
    ("two:const:record~Short", ops::<s123::S123T0, 1>()),
    ("two:const:tuple~Short", ops::<s124::S124T0, 1>()),
    ("two:const:set~Short", ops::<s125::S125T0, 1>()),
    ("two:const:sum~Short", ops::<s126::S126T0, 1>()),
    ("two:same:record~Short", ops::<s127::S127T0, 1>()),
    ("two:same:tuple~Short", ops::<s128::S128T0, 1>()),
    ("two:same:set~Short", ops::<s129::S129T0, 1>()),
    ("two:same:sum~Short", ops::<s130::S130T0, 1>()),
    ("rec:dup~Short", ops::<s131::S131T0, 1>()),
    ("rec:free~Short", ops::<s132::S132T0, 1>()),
    ("set:free~Short", ops::<s133::S133T0, 1>()),
    ("tup:free~Short", ops::<s134::S134T0, 1>()),
    ("str:free~Short", ops::<s135::S135T0, 1>()),
    ("id:free~Short", ops::<s136::S136T0, 1>()),
    ("int:free~Short", ops::<s137::S137T0, 1>()),
    ("list:freetail~Short", ops::<s138::S138T0, 1>()),
    ("list:norest~Short", ops::<s139::S139T0, 1>()),
    ("list:constnode~Short", ops::<s140::S140T0, 1>()),
    ("list:headconst~Short", ops::<s141::S141T0, 1>()),
    ("rec:ids~Short", ops::<s142::S142T0, 1>()),
    ("rec:idlit~Short", ops::<s143::S143T0, 1>()),
    ("sum:overlap~Short", ops::<s144::S144T0, 1>()),
    ("sum:varpath~Short", ops::<s145::S145T0, 1>()),
    ("sum:intro~Short", ops::<s146::S146T0, 1>()),
    ("rec:predvar~Short", ops::<s147::S147T0, 1>()),
    ("recursive:set~Short", ops::<s148::S, 1>()),
    ("tup@-~Long", ops::<s149::S149T0, 1>()),
    ("sum@g~Long", ops::<s150::S150T0, 1>()),
    ("sum@v0~Long", ops::<s151::S151T0, 1>()),
    ("set[-,default](path@-)~Short", ops::<s152::S152T0, 1>()),
    ("set[-,g](path@-)~Short", ops::<s153::S153T0, 1>()),
    ("set[-,self](path@-)~Short", ops::<s154::S154T0, 1>()),
    ("set[-,value](path@-)~Short", ops::<s155::S155T0, 1>()),
    ("rec[g,self](path@-)~Short", ops::<s156::S156T0, 1>()),
    ("rec[v0,value](path@-)~Short", ops::<s157::S157T0, 1>()),
    ("list[-,inherit](rec@-)~Long", ops::<s158::S158T0, 1>()),
    ("sum[-,default](rec@-)~Long", ops::<s159::S159T0, 1>()),
    ("on[default](rec@-)~Short", ops::<s160::S160T0, 1>()),
    ("list[-,g](rec@-)~Long", ops::<s161::S161T0, 1>()),
    ("sum[-,self](rec@-)~Long", ops::<s162::S162T0, 1>()),
    ("on[self](rec@-)~Short", ops::<s163::S163T0, 1>()),
    ("rec[g,default](rec@-)~Short", ops::<s164::S164T0, 1>()),
    ("rec[v0,g](rec@-)~Short", ops::<s165::S165T0, 1>()),
    ("tup[-,inherit](recopt@-)~Short", ops::<s166::S166T0, 1>()),
    ("rec[-,default](recopt@-)~Long", ops::<s167::S167T0, 1>()),
    ("list[-,default](recopt@-)~Long", ops::<s168::S168T0, 1>()),
    ("tup[-,g](recopt@-)~Short", ops::<s169::S169T0, 1>()),
    ("rec[-,self](recopt@-)~Long", ops::<s170::S170T0, 1>()),
    ("list[-,self](recopt@-)~Long", ops::<s171::S171T0, 1>()),
    ("tup[-,value](recopt@-)~Short", ops::<s172::S172T0, 1>()),
    ("rec[v0,inherit](recopt@-)~Short", ops::<s173::S173T0, 1>()),
    ("set[-,inherit](set@-)~Short", ops::<s174::S174T0, 1>()),
    ("list[-,default](set@-)~Long", ops::<s175::S175T0, 1>()),
    ("list[-,g](set@-)~Long", ops::<s176::S176T0, 1>()),
    ("list[-,self](set@-)~Long", ops::<s177::S177T0, 1>()),
    ("rec[g,inherit](set@-)~Long", ops::<s178::S178T0, 1>()),
    ("rec[v0,default](set@-)~Long", ops::<s179::S179T0, 1>()),
    ("sum[-,inherit](sum@-)~Long", ops::<s180::S180T0, 1>()),
    ("on[inherit](sum@-)~Short", ops::<s181::S181T0, 1>()),
    ("list[-,default](sum@-)~Long", ops::<s182::S182T0, 1>()),
    ("sum[-,g](sum@-)~Long", ops::<s183::S183T0, 1>()),
    ("on[g](sum@-)~Short", ops::<s184::S184T0, 1>()),
    ("list[-,self](sum@-)~Long", ops::<s185::S185T0, 1>()),
    ("sum[-,value](sum@-)~Long", ops::<s186::S186T0, 1>()),
    ("rec[g,value](sum@-)~Long", ops::<s187::S187T0, 1>()),
    ("rec[-,inherit](unit@-)~Long", ops::<s188::S188T0, 1>()),
    ("list[-,inherit](unit@-)~Long", ops::<s189::S189T0, 1>()),
    ("tup[-,default](unit@-)~Short", ops::<s190::S190T0, 1>()),
    ("rec[-,g](unit@-)~Long", ops::<s191::S191T0, 1>()),
    ("list[-,g](unit@-)~Long", ops::<s192::S192T0, 1>()),
    ("tup[-,self](unit@-)~Short", ops::<s193::S193T0, 1>()),
    ("rec[-,value](unit@-)~Long", ops::<s194::S194T0, 1>()),
    ("rec[g,g](unit@-)~Long", ops::<s195::S195T0, 1>()),
    ("rec[v0,self](unit@-)~Long", ops::<s196::S196T0, 1>()),
    ("list[-,inherit](tup@-)~Long", ops::<s197::S197T0, 1>()),
    ("list[-,default](tup@-)~Long", ops::<s198::S198T0, 1>()),
    ("list[-,g](tup@-)~Long", ops::<s199::S199T0, 1>()),
    ("list[-,self](tup@-)~Long", ops::<s200::S200T0, 1>()),
    ("rec[g,inherit](tup@-)~Long", ops::<s201::S201T0, 1>()),
    ("rec[v0,default](tup@-)~Long", ops::<s202::S202T0, 1>()),
    ("rec[-,inherit](list@-)~Long", ops::<s203::S203T0, 1>()),
    ("sum[-,inherit](list@-)~Long", ops::<s204::S204T0, 1>()),
    ("on[inherit](list@-)~Long", ops::<s205::S205T0, 1>()),
    ("set[-,default](list@-)~Long", ops::<s206::S206T0, 1>()),
    ("tup[-,default](list@-)~Long", ops::<s207::S207T0, 1>()),
    ("rec[-,g](list@-)~Long", ops::<s208::S208T0, 1>()),
    ("sum[-,g](list@-)~Long", ops::<s209::S209T0, 1>()),
    ("on[g](list@-)~Long", ops::<s210::S210T0, 1>()),
    ("set[-,self](list@-)~Long", ops::<s211::S211T0, 1>()),
    ("tup[-,self](list@-)~Long", ops::<s212::S212T0, 1>()),
    ("rec[-,value](list@-)~Long", ops::<s213::S213T0, 1>()),
    ("sum[-,value](list@-)~Long", ops::<s214::S214T0, 1>()),
    ("rec[g,inherit](list@-)~Long", ops::<s215::S215T0, 1>()),
    ("rec[g,g](list@-)~Long", ops::<s216::S216T0, 1>()),
    ("rec[g,value](list@-)~Long", ops::<s217::S217T0, 1>()),
    ("rec[v0,default](list@-)~Long", ops::<s218::S218T0, 1>()),
    ("rec[v0,self](list@-)~Long", ops::<s219::S219T0, 1>()),
    ("set[-,inherit](path@g)~Short", ops::<s220::S220T0, 1>()),
    ("set[-,default](path@g)~Short", ops::<s221::S221T0, 1>()),
    ("set[-,g](path@g)~Short", ops::<s222::S222T0, 1>()),
    ("set[-,self](path@g)~Short", ops::<s223::S223T0, 1>()),
    ("set[-,value](path@g)~Short", ops::<s224::S224T0, 1>()),
    ("tup[-,inherit](rec@g)~Short", ops::<s225::S225T0, 1>()),
    ("rec[-,default](rec@g)~Long", ops::<s226::S226T0, 1>()),
    ("list[-,default](rec@g)~Long", ops::<s227::S227T0, 1>()),
    ("tup[-,g](rec@g)~Short", ops::<s228::S228T0, 1>()),
    ("rec[-,self](rec@g)~Long", ops::<s229::S229T0, 1>()),
    ("list[-,self](rec@g)~Long", ops::<s230::S230T0, 1>()),
    ("tup[-,value](rec@g)~Short", ops::<s231::S231T0, 1>()),
    ("list[-,inherit](recopt@g)~Long", ops::<s232::S232T0, 1>()),
    ("sum[-,default](recopt@g)~Long", ops::<s233::S233T0, 1>()),
    ("on[default](recopt@g)~Short", ops::<s234::S234T0, 1>()),
    ("list[-,g](recopt@g)~Long", ops::<s235::S235T0, 1>()),
    ("sum[-,self](recopt@g)~Long", ops::<s236::S236T0, 1>()),
    ("on[self](recopt@g)~Short", ops::<s237::S237T0, 1>()),
    ("set[-,inherit](set@g)~Short", ops::<s238::S238T0, 1>()),
    ("set[-,default](set@g)~Short", ops::<s239::S239T0, 1>()),
    ("set[-,g](set@g)~Short", ops::<s240::S240T0, 1>()),
    ("set[-,self](set@g)~Short", ops::<s241::S241T0, 1>()),
    ("set[-,value](set@g)~Short", ops::<s242::S242T0, 1>()),
    ("tup[-,inherit](sum@g)~Short", ops::<s243::S243T0, 1>()),
    ("rec[-,default](sum@g)~Long", ops::<s244::S244T0, 1>()),
    ("list[-,default](sum@g)~Long", ops::<s245::S245T0, 1>()),
    ("tup[-,g](sum@g)~Short", ops::<s246::S246T0, 1>()),
    ("rec[-,self](sum@g)~Long", ops::<s247::S247T0, 1>()),
    ("list[-,self](sum@g)~Long", ops::<s248::S248T0, 1>()),
    ("tup[-,value](sum@g)~Short", ops::<s249::S249T0, 1>()),
    ("list[-,inherit](unit@g)~Long", ops::<s250::S250T0, 1>()),
    ("sum[-,default](unit@g)~Long", ops::<s251::S251T0, 1>()),
    ("on[default](unit@g)~Short", ops::<s252::S252T0, 1>()),
    ("list[-,g](unit@g)~Long", ops::<s253::S253T0, 1>()),
    ("sum[-,self](unit@g)~Long", ops::<s254::S254T0, 1>()),
    ("on[self](unit@g)~Short", ops::<s255::S255T0, 1>()),
    ("set[-,inherit](path@v0)~Short", ops::<s256::S256T0, 1>()),
    ("set[-,default](path@v0)~Short", ops::<s257::S257T0, 1>()),
    ("set[-,g](path@v0)~Short", ops::<s258::S258T0, 1>()),
    ("set[-,self](path@v0)~Short", ops::<s259::S259T0, 1>()),
    ("set[-,value](path@v0)~Short", ops::<s260::S260T0, 1>()),
    ("tup[-,inherit](rec@v0)~Short", ops::<s261::S261T0, 1>()),
    ("rec[-,default](rec@v0)~Long", ops::<s262::S262T0, 1>()),
    ("list[-,default](rec@v0)~Long", ops::<s263::S263T0, 1>()),
    ("tup[-,g](rec@v0)~Short", ops::<s264::S264T0, 1>()),
    ("rec[-,self](rec@v0)~Long", ops::<s265::S265T0, 1>()),
    ("list[-,self](rec@v0)~Long", ops::<s266::S266T0, 1>()),
    ("tup[-,value](rec@v0)~Short", ops::<s267::S267T0, 1>()),
    ("list[-,inherit](recopt@v0)~Long", ops::<s268::S268T0, 1>()),
    ("sum[-,default](recopt@v0)~Long", ops::<s269::S269T0, 1>()),
    ("on[default](recopt@v0)~Short", ops::<s270::S270T0, 1>()),
    ("list[-,g](recopt@v0)~Long", ops::<s271::S271T0, 1>()),
    ("sum[-,self](recopt@v0)~Long", ops::<s272::S272T0, 1>()),
    ("on[self](recopt@v0)~Short", ops::<s273::S273T0, 1>()),
    ("set[-,inherit](set@v0)~Short", ops::<s274::S274T0, 1>()),
    ("set[-,default](set@v0)~Short", ops::<s275::S275T0, 1>()),
    ("set[-,g](set@v0)~Short", ops::<s276::S276T0, 1>()),
    ("set[-,self](set@v0)~Short", ops::<s277::S277T0, 1>()),
    ("set[-,value](set@v0)~Short", ops::<s278::S278T0, 1>()),
    ("tup[-,inherit](sum@v0)~Short", ops::<s279::S279T0, 1>()),
    ("rec[-,default](sum@v0)~Long", ops::<s280::S280T0, 1>()),
    ("list[-,default](sum@v0)~Long", ops::<s281::S281T0, 1>()),
    ("tup[-,g](sum@v0)~Short", ops::<s282::S282T0, 1>()),
    ("rec[-,self](sum@v0)~Long", ops::<s283::S283T0, 1>()),
    ("list[-,self](sum@v0)~Long", ops::<s284::S284T0, 1>()),
    ("tup[-,value](sum@v0)~Short", ops::<s285::S285T0, 1>()),
    ("list[-,inherit](unit@v0)~Long", ops::<s286::S286T0, 1>()),
    ("sum[-,default](unit@v0)~Long", ops::<s287::S287T0, 1>()),
    ("on[default](unit@v0)~Short", ops::<s288::S288T0, 1>()),
    ("list[-,g](unit@v0)~Long", ops::<s289::S289T0, 1>()),
    ("sum[-,self](unit@v0)~Long", ops::<s290::S290T0, 1>()),
    ("on[self](unit@v0)~Short", ops::<s291::S291T0, 1>()),
    ("rec3[default](rec[-,inherit](path@-))~Short", ops::<s292::S292T0, 1>()),
    ("rec3[g](on[inherit](path@-))~Short", ops::<s293::S293T0, 1>()),
    ("rec3[self](rec[-,default](path@-))~Short", ops::<s294::S294T0, 1>()),
    ("rec3[value](on[default](path@-))~Short", ops::<s295::S295T0, 1>()),
    ("rec3[inherit](on[g](path@-))~Short", ops::<s296::S296T0, 1>()),
    ("rec3[default](rec[-,self](path@-))~Short", ops::<s297::S297T0, 1>()),
    ("rec3[g](on[self](path@-))~Short", ops::<s298::S298T0, 1>()),
    ("rec3[self](rec[-,value](path@-))~Short", ops::<s299::S299T0, 1>()),
    ("rec3[value](rec[-,inherit](rec@-))~Short", ops::<s300::S300T0, 1>()),
    ("rec3[inherit](rec[-,default](rec@-))~Short", ops::<s301::S301T0, 1>()),
    ("rec3[default](on[default](rec@-))~Short", ops::<s302::S302T0, 1>()),
    ("rec3[g](rec[-,g](rec@-))~Short", ops::<s303::S303T0, 1>()),
    ("rec3[self](on[g](rec@-))~Short", ops::<s304::S304T0, 1>()),
    ("rec3[value](rec[-,self](rec@-))~Short", ops::<s305::S305T0, 1>()),
    ("rec3[inherit](rec[-,value](rec@-))~Short", ops::<s306::S306T0, 1>()),
    ("pat[0p0,,header]~Long", ops::<s307::S307T0, 1>()),
    ("pat[020@1,,header]~Long", ops::<s308::S308T0, 1>()),
    ("pat[111,,header]~Long", ops::<s309::S309T0, 1>()),
    ("pat[2p1@1,,header]~Long", ops::<s310::S310T0, 1>()),
    ("pat[222,,header]~Long", ops::<s311::S311T0, 1>()),
    ("pat[a12@1,,header]~Long", ops::<s312::S312T0, 1>()),
    ("pat[0p0@1,0p1@1,item]~Long", ops::<s313::S313T0, 1>()),
    ("pat[0p0@1,1p1,variant]~Long", ops::<s314::S314T0, 1>()),
    ("pat[0p0@1,1p2@2,set]~Long", ops::<s315::S315T0, 1>()),
    ("pat[0p0@1,2p2@1,optional]~Long", ops::<s316::S316T0, 1>()),
    ("pat[0p0@1,012@2,variant]~Long", ops::<s317::S317T0, 1>()),
    ("pat[0p1,0p1@1,field]~Long", ops::<s318::S318T0, 1>()),
    ("pat[0p1,1p1,header]~Long", ops::<s319::S319T0, 1>()),
    ("pat[0p1,1p2@1,node]~Long", ops::<s320::S320T0, 1>()),
    ("pat[0p1,2p2,item]~Long", ops::<s321::S321T0, 1>()),
    ("pat[0p1,012@2,header]~Long", ops::<s322::S322T0, 1>()),
    ("pat[0p1@g,0p1,variant]~Long", ops::<s323::S323T0, 1>()),
    ("pat[0p1@g,0p2@2,set]~Long", ops::<s324::S324T0, 1>()),
    ("pat[0p1@g,1p2@1,optional]~Long", ops::<s325::S325T0, 1>()),
    ("pat[0p1@g,2p2,field]~Long", ops::<s326::S326T0, 1>()),
    ("pat[0p1@g,012@1,optional]~Long", ops::<s327::S327T0, 1>()),
    ("pat[0p1@1,0p1,header]~Long", ops::<s328::S328T0, 1>()),
    ("pat[0p1@1,0p2@1,node]~Long", ops::<s329::S329T0, 1>()),
    ("pat[0p1@1,1p2,item]~Long", ops::<s330::S330T0, 1>()),
    ("pat[0p1@1,2p1@2,variant]~Long", ops::<s331::S331T0, 1>()),
    ("pat[0p1@1,012@g,variant]~Long", ops::<s332::S332T0, 1>()),
    ("pat[0p1@1,022@2,optional]~Long", ops::<s333::S333T0, 1>()),
    ("pat[010,0p2@2,header]~Long", ops::<s334::S334T0, 1>()),
    ("pat[010,1p2@1,variant]~Long", ops::<s335::S335T0, 1>()),
    ("pat[010,2p2@1,optional]~Long", ops::<s336::S336T0, 1>()),
    ("pat[010,022,header]~Long", ops::<s337::S337T0, 1>()),
    ("pat[010@g,0p1@1,variant]~Long", ops::<s338::S338T0, 1>()),
    ("pat[010@g,1p1@1,optional]~Long", ops::<s339::S339T0, 1>()),
    ("pat[010@g,2p1@1,header]~Long", ops::<s340::S340T0, 1>()),
    ("pat[010@g,012,variant]~Long", ops::<s341::S341T0, 1>()),
    ("pat[010@g,022@1,optional]~Long", ops::<s342::S342T0, 1>()),
    ("pat[010@1,0p2@1,header]~Long", ops::<s343::S343T0, 1>()),
    ("pat[010@1,1p2,variant]~Long", ops::<s344::S344T0, 1>()),
    ("pat[010@1,2p2,optional]~Long", ops::<s345::S345T0, 1>()),
    ("pat[010@1,012@2,header]~Long", ops::<s346::S346T0, 1>()),
    ("pat[011,0p1,variant]~Long", ops::<s347::S347T0, 1>()),
    ("pat[011,1p1,optional]~Long", ops::<s348::S348T0, 1>()),
    ("pat[011,2p1,header]~Long", ops::<s349::S349T0, 1>()),
    ("pat[011,2p2@2,variant]~Long", ops::<s350::S350T0, 1>()),
    ("pat[011,022@g,optional]~Long", ops::<s351::S351T0, 1>()),
    ("pat[011@g,0p2,header]~Long", ops::<s352::S352T0, 1>()),
    ("pat[011@g,1p1@2,variant]~Long", ops::<s353::S353T0, 1>()),
    ("pat[011@g,2p1@2,optional]~Long", ops::<s354::S354T0, 1>()),
    ("pat[011@g,012@1,header]~Long", ops::<s355::S355T0, 1>()),
    ("pat[011@g,022@2,variant]~Long", ops::<s356::S356T0, 1>()),
    ("pat[011@1,0p2@2,optional]~Long", ops::<s357::S357T0, 1>()),
    ("pat[011@1,1p2@2,header]~Long", ops::<s358::S358T0, 1>()),
    ("pat[011@1,2p2@1,variant]~Long", ops::<s359::S359T0, 1>()),
    ("pat[011@1,022,optional]~Long", ops::<s360::S360T0, 1>()),
    ("pat[1p0,0p1@1,item]~Long", ops::<s361::S361T0, 1>()),
    ("pat[1p0,1p1,variant]~Long", ops::<s362::S362T0, 1>()),
    ("pat[1p0,1p2@2,set]~Long", ops::<s363::S363T0, 1>()),
    ("pat[1p0,2p2@1,optional]~Long", ops::<s364::S364T0, 1>()),
    ("pat[1p0,012@2,variant]~Long", ops::<s365::S365T0, 1>()),
    ("pat[1p0@g,0p1@1,field]~Long", ops::<s366::S366T0, 1>()),
    ("pat[1p0@g,1p1,header]~Long", ops::<s367::S367T0, 1>()),
    ("pat[1p0@g,1p2@1,node]~Long", ops::<s368::S368T0, 1>()),
    ("pat[1p0@g,2p2,item]~Long", ops::<s369::S369T0, 1>()),
    ("pat[1p0@g,012@2,header]~Long", ops::<s370::S370T0, 1>()),
    ("pat[1p0@1,0p1,variant]~Long", ops::<s371::S371T0, 1>()),
    ("pat[1p0@1,0p2@2,set]~Long", ops::<s372::S372T0, 1>()),
    ("pat[1p0@1,1p2@1,optional]~Long", ops::<s373::S373T0, 1>()),
    ("pat[1p0@1,2p2,field]~Long", ops::<s374::S374T0, 1>()),
    ("pat[1p0@1,012@1,optional]~Long", ops::<s375::S375T0, 1>()),
    ("pat[1p1,0p1,header]~Long", ops::<s376::S376T0, 1>()),
    ("pat[1p1,0p2@1,node]~Long", ops::<s377::S377T0, 1>()),
    ("pat[1p1,1p2,item]~Long", ops::<s378::S378T0, 1>()),
    ("pat[1p1,2p1@2,variant]~Long", ops::<s379::S379T0, 1>()),
    ("pat[1p1,012@g,variant]~Long", ops::<s380::S380T0, 1>()),
    ("pat[1p1,022@2,optional]~Long", ops::<s381::S381T0, 1>()),
    ("pat[1p1@g,0p2@1,optional]~Long", ops::<s382::S382T0, 1>()),
    ("pat[1p1@g,1p2,field]~Long", ops::<s383::S383T0, 1>()),
    ("pat[1p1@g,2p1@2,header]~Long", ops::<s384::S384T0, 1>()),
    ("pat[1p1@g,012@g,header]~Long", ops::<s385::S385T0, 1>()),
    ("pat[1p1@g,022@1,variant]~Long", ops::<s386::S386T0, 1>()),
    ("pat[1p1@1,0p2,item]~Long", ops::<s387::S387T0, 1>()),
    ("pat[1p1@1,1p1@2,variant]~Long", ops::<s388::S388T0, 1>()),
    ("pat[1p1@1,2p1@1,set]~Long", ops::<s389::S389T0, 1>()),
    ("pat[1p1@1,012,optional]~Long", ops::<s390::S390T0, 1>()),
    ("pat[1p1@1,022@1,header]~Long", ops::<s391::S391T0, 1>()),
    ("pat[110,0p2,variant]~Long", ops::<s392::S392T0, 1>()),
    ("pat[110,1p2,optional]~Long", ops::<s393::S393T0, 1>()),
    ("pat[110,2p2,header]~Long", ops::<s394::S394T0, 1>()),
    ("pat[110,012@1,variant]~Long", ops::<s395::S395T0, 1>()),
    ("pat[110@g,0p1,optional]~Long", ops::<s396::S396T0, 1>()),
    ("pat[110@g,1p1,header]~Long", ops::<s397::S397T0, 1>()),
    ("pat[110@g,1p2@2,variant]~Long", ops::<s398::S398T0, 1>()),
    ("pat[110@g,2p2@2,optional]~Long", ops::<s399::S399T0, 1>()),
    ("pat[110@g,022@g,header]~Long", ops::<s400::S400T0, 1>()),
    ("pat[110@1,0p1@2,variant]~Long", ops::<s401::S401T0, 1>()),
    ("pat[110@1,1p1@2,optional]~Long", ops::<s402::S402T0, 1>()),
    ("pat[110@1,2p1@2,header]~Long", ops::<s403::S403T0, 1>()),
    ("pat[110@1,012@g,variant]~Long", ops::<s404::S404T0, 1>()),
    ("pat[110@1,022@2,optional]~Long", ops::<s405::S405T0, 1>()),
    ("pat[111,0p2@2,header]~Long", ops::<s406::S406T0, 1>()),
    ("pat[111,1p2@1,variant]~Long", ops::<s407::S407T0, 1>()),
    ("pat[111,2p2@1,optional]~Long", ops::<s408::S408T0, 1>()),
    ("pat[111,022,header]~Long", ops::<s409::S409T0, 1>()),
    ("pat[111@g,0p1@1,variant]~Long", ops::<s410::S410T0, 1>()),
    ("pat[111@g,1p1@1,optional]~Long", ops::<s411::S411T0, 1>()),
    ("pat[111@g,2p1@1,header]~Long", ops::<s412::S412T0, 1>()),
    ("pat[111@g,012,variant]~Long", ops::<s413::S413T0, 1>()),
    ("pat[111@g,022@1,optional]~Long", ops::<s414::S414T0, 1>()),
    ("pat[111@1,0p2@1,header]~Long", ops::<s415::S415T0, 1>()),
    ("pat[111@1,1p2,variant]~Long", ops::<s416::S416T0, 1>()),
    ("pat[111@1,2p2,optional]~Long", ops::<s417::S417T0, 1>()),
    ("pat[111@1,012@2,header]~Long", ops::<s418::S418T0, 1>()),
    ("sum(str,recid)~Short", ops::<s419::S419T0, 1>()),
    ("sum(str,r:int)~Short", ops::<s420::S420T0, 1>()),
    ("sum(str,mark1)~Short", ops::<s421::S421T0, 1>()),
    ("sum(str,qlist)~Short", ops::<s422::S422T0, 1>()),
    ("sum(str,never)~Short", ops::<s423::S423T0, 1>()),
    ("sum(int,unit)~Short", ops::<s424::S424T0, 1>()),
    ("sum(int,q:id)~Short", ops::<s425::S425T0, 1>()),
    ("sum(bool,id)~Short", ops::<s426::S426T0, 1>()),
    ("sum(bool,qr)~Short", ops::<s427::S427T0, 1>()),
    ("sum(id,rec)~Short", ops::<s428::S428T0, 1>()),
    ("sum(id,tup)~Short", ops::<s429::S429T0, 1>()),
    ("sum(unit,list)~Short", ops::<s430::S430T0, 1>()),
    ("sum(unit,free)~Short", ops::<s431::S431T0, 1>()),
    ("sum(rec,q:id)~Short", ops::<s432::S432T0, 1>()),
    ("sum(recopt,list)~Short", ops::<s433::S433T0, 1>()),
    ("sum(recopt,free)~Short", ops::<s434::S434T0, 1>()),
    ("sum(recid,q:id)~Short", ops::<s435::S435T0, 1>()),
    ("sum(set,q:str)~Short", ops::<s436::S436T0, 1>()),
    ("sum(set,r:str)~Short", ops::<s437::S437T0, 1>()),
    ("sum(set,mark2)~Short", ops::<s438::S438T0, 1>()),
    ("sum(set,graph)~Short", ops::<s439::S439T0, 1>()),
    ("sum(tup,list)~Short", ops::<s440::S440T0, 1>()),
    ("sum(tup,free)~Short", ops::<s441::S441T0, 1>()),
    ("sum(list,nested)~Short", ops::<s442::S442T0, 1>()),
    ("sum(q:str,free)~Short", ops::<s443::S443T0, 1>()),
    ("sum(r:int,qr)~Short", ops::<s444::S444T0, 1>()),
    ("sum(r:str,mark1)~Short", ops::<s445::S445T0, 1>()),
    ("sum(r:str,qlist)~Short", ops::<s446::S446T0, 1>()),
    ("sum(r:str,never)~Short", ops::<s447::S447T0, 1>()),
    ("sum(mark1,nested)~Short", ops::<s448::S448T0, 1>()),
    ("sum(mark2,graph)~Short", ops::<s449::S449T0, 1>()),
    ("recursive:kids~Short", ops::<s450::Kids, 1>()),
    ("num:unsignedByte~Short", ops::<s451::S451T0, 1>()),
    ("num:unsignedByte~Long", ops::<s452::S452T0, 1>()),
    ("num:unsignedShort~Short", ops::<s453::S453T0, 1>()),
    ("num:unsignedShort~Long", ops::<s454::S454T0, 1>()),
    ("num:unsignedInt~Short", ops::<s455::S455T0, 1>()),
    ("num:unsignedInt~Long", ops::<s456::S456T0, 1>()),
    ("num:unsignedLong~Short", ops::<s457::S457T0, 1>()),
    ("num:unsignedLong~Long", ops::<s458::S458T0, 1>()),
    ("num:byte~Short", ops::<s459::S459T0, 1>()),
    ("num:byte~Long", ops::<s460::S460T0, 1>()),
    ("num:short~Short", ops::<s461::S461T0, 1>()),
    ("num:short~Long", ops::<s462::S462T0, 1>()),
    ("num:int~Short", ops::<s463::S463T0, 1>()),
    ("num:int~Long", ops::<s464::S464T0, 1>()),
    ("num:long~Short", ops::<s465::S465T0, 1>()),
    ("num:long~Long", ops::<s466::S466T0, 1>()),
    ("presets~Short", ops::<s467::S467T0, 1>()),
    ("presets~Long", ops::<s468::S468T0, 1>()),
    ("module:req(http://e/any#Anything)", ops::<m0::M0Main, 1>()),
    ("module:opt(http://e/any#Anything)", ops::<m1::M1Main, 1>()),
    ("module:sum(http://e/any#Anything)", ops::<m2::M2Main, 1>()),
    ("module:tuple(http://e/any#Anything)", ops::<m3::M3Main, 1>()),
    ("module:list(http://e/any#Anything)", ops::<m4::M4Main, 1>()),
    ("module:req(http://e/any#Nothing)", ops::<m5::M5Main, 1>()),
    ("module:opt(http://e/any#Nothing)", ops::<m6::M6Main, 1>()),
    ("module:sum(http://e/any#Nothing)", ops::<m7::M7Main, 1>()),
    ("module:tuple(http://e/any#Nothing)", ops::<m8::M8Main, 1>()),
    ("module:list(http://e/any#Nothing)", ops::<m9::M9Main, 1>()),
    ("module:req(http://e/lib/Choice)", ops::<m10::M10Main, 1>()),
    ("module:opt(http://e/lib/Choice)", ops::<m11::M11Main, 1>()),
    ("module:sum(http://e/lib/Choice)", ops::<m12::M12Main, 1>()),
    ("module:tuple(http://e/lib/Choice)", ops::<m13::M13Main, 1>()),
    ("module:list(http://e/lib/Choice)", ops::<m14::M14Main, 1>()),
    ("module:req(http://e/lib/Link)", ops::<m15::M15Main, 1>()),
    ("module:opt(http://e/lib/Link)", ops::<m16::M16Main, 1>()),
    ("module:sum(http://e/lib/Link)", ops::<m17::M17Main, 1>()),
    ("module:tuple(http://e/lib/Link)", ops::<m18::M18Main, 1>()),
    ("module:list(http://e/lib/Link)", ops::<m19::M19Main, 1>()),
    ("module:req(http://e/lib/Name)", ops::<m20::M20Main, 1>()),
    ("module:opt(http://e/lib/Name)", ops::<m21::M21Main, 1>()),
    ("module:sum(http://e/lib/Name)", ops::<m22::M22Main, 1>()),
    ("module:tuple(http://e/lib/Name)", ops::<m23::M23Main, 1>()),
    ("module:list(http://e/lib/Name)", ops::<m24::M24Main, 1>()),
    ("module:req(http://e/lib/Person)", ops::<m25::M25Main, 1>()),
    ("module:opt(http://e/lib/Person)", ops::<m26::M26Main, 1>()),
    ("module:sum(http://e/lib/Person)", ops::<m27::M27Main, 1>()),
    ("module:tuple(http://e/lib/Person)", ops::<m28::M28Main, 1>()),
    ("module:list(http://e/lib/Person)", ops::<m29::M29Main, 1>()),
    ("module:set(http://e/lib/Person)", ops::<m30::M30Main, 1>()),
    ("module:req(http://e/lib/deep/Name)", ops::<m31::M31Main, 1>()),
    ("module:opt(http://e/lib/deep/Name)", ops::<m32::M32Main, 1>()),
    ("module:sum(http://e/lib/deep/Name)", ops::<m33::M33Main, 1>()),
    ("module:tuple(http://e/lib/deep/Name)", ops::<m34::M34Main, 1>()),
    ("module:list(http://e/lib/deep/Name)", ops::<m35::M35Main, 1>()),
    ("module:req(http://e/lib/deep/Pair)", ops::<m36::M36Main, 1>()),
    ("module:opt(http://e/lib/deep/Pair)", ops::<m37::M37Main, 1>()),
    ("module:sum(http://e/lib/deep/Pair)", ops::<m38::M38Main, 1>()),
    ("module:tuple(http://e/lib/deep/Pair)", ops::<m39::M39Main, 1>()),
    ("module:list(http://e/lib/deep/Pair)", ops::<m40::M40Main, 1>()),
    ("module:set(http://e/lib/deep/Pair)", ops::<m41::M41Main, 1>()),
    ("module:req(http://e/lib/flag)", ops::<m42::M42Main, 1>()),
    ("module:opt(http://e/lib/flag)", ops::<m43::M43Main, 1>()),
    ("module:sum(http://e/lib/flag)", ops::<m44::M44Main, 1>()),
    ("module:tuple(http://e/lib/flag)", ops::<m45::M45Main, 1>()),
    ("module:list(http://e/lib/flag)", ops::<m46::M46Main, 1>()),
];
