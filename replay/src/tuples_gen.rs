//! generated by tools/mktuples.py
use crate::model::M; use crate::track::P; use crate::tuples::{forest, tree}; use crate::{Ch, R};
fn s0(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![] }, || (P::new(0),)) }
fn s1(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }] }, || (P::new(0), P::new(1),)) }
fn s2(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }] }, || (P::new(0), P::new(1),)) }
fn s3(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2),)) }
fn s4(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, || (P::new(0), (P::new(1),), (P::new(2),),)) }
fn s5(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2),),)) }
fn s6(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2),),)) }
fn s7(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3),)) }
fn s8(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3),)) }
fn s9(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3),),)) }
fn s10(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3),),)) }
fn s11(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2),), P::new(3),)) }
fn s12(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2),), P::new(3),)) }
fn s13(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),),)) }
fn s14(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),),)) }
fn s15(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),),)) }
fn s16(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),),)) }
fn s17(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4),)) }
fn s18(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), (P::new(3),), (P::new(4),),)) }
fn s19(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4),),)) }
fn s20(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4),),)) }
fn s21(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3),), P::new(4),)) }
fn s22(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1),), (P::new(2), P::new(3),), P::new(4),)) }
fn s23(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3), P::new(4),),)) }
fn s24(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3), P::new(4),),)) }
fn s25(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }, || (P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),),),)) }
fn s26(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }, || (P::new(0), (P::new(1),), (P::new(2), (P::new(3), P::new(4),),),)) }
fn s27(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2),), P::new(3), P::new(4),)) }
fn s28(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3),), (P::new(4),),)) }
fn s29(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3), P::new(4),),)) }
fn s30(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3), P::new(4),),)) }
fn s31(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4),)) }
fn s32(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4),)) }
fn s33(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),), P::new(4),)) }
fn s34(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, M { v: 4, k: vec![] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),), (P::new(4),),)) }
fn s35(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3), P::new(4),),)) }
fn s36(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3), P::new(4),),)) }
fn s37(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), P::new(2), (P::new(3), P::new(4),),),)) }
fn s38(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), P::new(2), (P::new(3), P::new(4),),),)) }
fn s39(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),), P::new(4),),)) }
fn s40(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),), P::new(4),),)) }
fn s41(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3), P::new(4),),),)) }
fn s42(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3), P::new(4),),),)) }
fn s43(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),),),),)) }
fn s44(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),),),),)) }
fn s45(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4), P::new(5),)) }
fn s46(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4), P::new(5),)) }
fn s47(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3), (P::new(4), P::new(5),),),)) }
fn s48(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3), (P::new(4), P::new(5),),),)) }
fn s49(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),),), P::new(5),),)) }
fn s50(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),),), P::new(5),),)) }
fn s51(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3), (P::new(4), P::new(5),), P::new(6),),)) }
fn s52(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),), (P::new(4), P::new(5),), P::new(6),),)) }
fn s53(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),), (P::new(4), (P::new(5), P::new(6),),),)) }
fn s54(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }, M { v: 5, k: vec![M { v: 6, k: vec![] }] }, M { v: 7, k: vec![] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),),),), (P::new(5), P::new(6),), P::new(7),)) }
fn s55(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4), P::new(5),), P::new(6),), P::new(7),),)) }
fn s56(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }, M { v: 7, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3), (P::new(4), (P::new(5), P::new(6),),), P::new(7),),)) }
fn s57(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![M { v: 8, k: vec![] }] }, M { v: 9, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3), (P::new(4), P::new(5), P::new(6),), (P::new(7), P::new(8),), P::new(9),),)) }
fn s58(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), P::new(2),), (P::new(3), (P::new(4), P::new(5),), P::new(6),), (P::new(7), (P::new(8), P::new(9),),),)) }
fn s59(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![] }, M { v: 7, k: vec![] }] }] }] }] }, M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), (P::new(5), P::new(6), P::new(7),),),),), (P::new(8), P::new(9),),),)) }
fn s60(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![] }] }, M { v: 8, k: vec![M { v: 9, k: vec![] }] }, M { v: 10, k: vec![] }] }, M { v: 11, k: vec![] }] }, || (P::new(0), (P::new(1), P::new(2),), P::new(3), (P::new(4), P::new(5), (P::new(6), P::new(7),), (P::new(8), P::new(9),), P::new(10),), P::new(11),)) }
fn s61(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }, M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }] }, || (P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),), (P::new(5), (P::new(6), P::new(7),), P::new(8),),), (P::new(9), (P::new(10), P::new(11),),),)) }
fn s62(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![M { v: 10, k: vec![] }, M { v: 11, k: vec![] }] }] }] }, || (P::new(0), P::new(1), (P::new(2), (P::new(3), (P::new(4), P::new(5),),), (P::new(6), (P::new(7), P::new(8),),), (P::new(9), P::new(10), P::new(11),),),)) }
fn s63(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }] }] }] }, M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),), (P::new(4), P::new(5), (P::new(6), P::new(7), (P::new(8), (P::new(9), (P::new(10), P::new(11),),),),),), (P::new(12), P::new(13),),)) }
fn s64(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }] }] }] }] }] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }, M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), (P::new(5), (P::new(6), (P::new(7), P::new(8),),),),),),),), (P::new(9), (P::new(10), P::new(11),),), (P::new(12), P::new(13),),)) }
fn s65(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }, M { v: 13, k: vec![] }] }] }] }] }] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), P::new(5),),), (P::new(6), (P::new(7), P::new(8), (P::new(9), (P::new(10), (P::new(11), P::new(12), P::new(13),),),),),),),),)) }
fn s66(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }] }] }] }, M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }] }, M { v: 14, k: vec![M { v: 15, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), P::new(5),), (P::new(6), (P::new(7), (P::new(8), P::new(9), P::new(10),),),),), (P::new(11), P::new(12),),), P::new(13),), (P::new(14), P::new(15),),)) }
fn s67(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }] }, M { v: 13, k: vec![M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }] }] }] }] }, || (P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),),), (P::new(5), (P::new(6), (P::new(7), (P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),),), (P::new(13), P::new(14), P::new(15),),),),),)) }
fn s68(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }, M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }] }] }] }] }] }] }, M { v: 14, k: vec![M { v: 15, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4), (P::new(5), P::new(6), (P::new(7), (P::new(8), (P::new(9), (P::new(10), P::new(11),), (P::new(12), P::new(13),),),),),),),),), (P::new(14), P::new(15),),)) }
fn s69(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![] }] }, M { v: 12, k: vec![] }] }] }] }] }] }, M { v: 13, k: vec![M { v: 14, k: vec![M { v: 15, k: vec![] }] }, M { v: 16, k: vec![] }] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![M { v: 19, k: vec![] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), P::new(5),),), (P::new(6), (P::new(7), (P::new(8), P::new(9), (P::new(10), P::new(11),), P::new(12),),),),),), (P::new(13), (P::new(14), P::new(15),), P::new(16),), P::new(17), (P::new(18), P::new(19),),)) }
fn s70(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }] }] }, M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![M { v: 14, k: vec![] }] }, M { v: 15, k: vec![M { v: 16, k: vec![M { v: 17, k: vec![] }, M { v: 18, k: vec![] }] }] }] }] }] }] }] }, M { v: 19, k: vec![] }] }, || (P::new(0), P::new(1), (P::new(2), (P::new(3), (P::new(4), (P::new(5), (P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10),),), (P::new(11), (P::new(12), (P::new(13), P::new(14),), (P::new(15), (P::new(16), P::new(17), P::new(18),),),),),),),), P::new(19),)) }
fn s71(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }, M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![M { v: 16, k: vec![] }, M { v: 17, k: vec![] }] }] }, M { v: 18, k: vec![] }] }] }, M { v: 19, k: vec![] }] }] }] }] }] }] }] }] }, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4), (P::new(5), (P::new(6), P::new(7),), (P::new(8), (P::new(9), (P::new(10), (P::new(11), (P::new(12), P::new(13), (P::new(14), (P::new(15), P::new(16), P::new(17),),), P::new(18),),), P::new(19),),),),),),),),)) }
fn s72(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), (P::new(4), P::new(5), P::new(6),),)) }
fn s73(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![M { v: 6, k: vec![] }, M { v: 7, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),),), (P::new(5), P::new(6), P::new(7),),)) }
fn s74(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }] }, M { v: 8, k: vec![M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }] }, || (P::new(0), P::new(1), (P::new(2), P::new(3), P::new(4),), (P::new(5), (P::new(6), P::new(7),),), (P::new(8), P::new(9), P::new(10),),)) }
fn s75(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5),)) }
fn s76(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, || (P::new(0), (P::new(1),), P::new(2), P::new(3), P::new(4), (P::new(5),),)) }
fn s77(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }, M { v: 6, k: vec![M { v: 7, k: vec![] }, M { v: 8, k: vec![] }] }, M { v: 9, k: vec![M { v: 10, k: vec![] }, M { v: 11, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), (P::new(3), (P::new(4), P::new(5),),), (P::new(6), P::new(7), P::new(8),), (P::new(9), P::new(10), P::new(11),),)) }
fn s78(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6),)) }
fn s79(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![] }, M { v: 12, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4), P::new(5),), (P::new(6), (P::new(7), P::new(8),),), P::new(9), (P::new(10), P::new(11), P::new(12),),)) }
fn s80(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7),)) }
fn s81(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![] }, M { v: 13, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4), P::new(5), (P::new(6), (P::new(7), P::new(8),),), P::new(9), P::new(10), (P::new(11), P::new(12), P::new(13),),)) }
fn s82(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8),)) }
fn s83(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4), P::new(5),), P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10), P::new(11), (P::new(12), P::new(13), P::new(14),),)) }
fn s84(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9),)) }
fn s85(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), (P::new(4), P::new(5), P::new(6),), (P::new(7), (P::new(8), P::new(9),),), P::new(10), P::new(11), P::new(12), (P::new(13), P::new(14), P::new(15),),)) }
fn s86(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10),)) }
fn s87(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![] }] }] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![] }, M { v: 16, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), (P::new(4), P::new(5), P::new(6),), P::new(7), (P::new(8), (P::new(9), P::new(10),),), P::new(11), P::new(12), P::new(13), (P::new(14), P::new(15), P::new(16),),)) }
fn s88(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11),)) }
fn s89(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![] }] }] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![M { v: 16, k: vec![] }, M { v: 17, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4), P::new(5), P::new(6), P::new(7), (P::new(8), (P::new(9), P::new(10),),), P::new(11), P::new(12), P::new(13), P::new(14), (P::new(15), P::new(16), P::new(17),),)) }
fn s90(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12),)) }
fn s91(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![] }, M { v: 13, k: vec![] }] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![] }, M { v: 18, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10), (P::new(11), P::new(12), P::new(13),), P::new(14), P::new(15), (P::new(16), P::new(17), P::new(18),),)) }
fn s92(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13),)) }
fn s93(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![M { v: 16, k: vec![] }, M { v: 17, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), (P::new(15), P::new(16), P::new(17),),)) }
fn s94(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14),)) }
fn s95(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![] }] }] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![M { v: 19, k: vec![] }, M { v: 20, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), (P::new(8), (P::new(9), P::new(10),),), P::new(11), P::new(12), (P::new(13), P::new(14), P::new(15),), P::new(16), P::new(17), (P::new(18), P::new(19), P::new(20),),)) }
fn s96(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15),)) }
fn s97(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![M { v: 20, k: vec![] }, M { v: 21, k: vec![] }] }] }, || (P::new(0), (P::new(1), P::new(2), P::new(3),), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), (P::new(19), P::new(20), P::new(21),),)) }
fn s98(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16),)) }
fn s99(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![M { v: 21, k: vec![] }, M { v: 22, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), (P::new(9), (P::new(10), P::new(11),),), P::new(12), (P::new(13), P::new(14), P::new(15),), P::new(16), P::new(17), P::new(18), P::new(19), (P::new(20), P::new(21), P::new(22),),)) }
fn s100(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17),)) }
fn s101(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![M { v: 22, k: vec![] }, M { v: 23, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), (P::new(4), P::new(5), P::new(6),), P::new(7), P::new(8), P::new(9), P::new(10), (P::new(11), (P::new(12), P::new(13),),), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), (P::new(21), P::new(22), P::new(23),),)) }
fn s102(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18),)) }
fn s103(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![M { v: 16, k: vec![] }, M { v: 17, k: vec![] }] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![M { v: 23, k: vec![] }, M { v: 24, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),), P::new(13), P::new(14), (P::new(15), P::new(16), P::new(17),), P::new(18), P::new(19), P::new(20), P::new(21), (P::new(22), P::new(23), P::new(24),),)) }
fn s104(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19),)) }
fn s105(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![M { v: 18, k: vec![] }, M { v: 19, k: vec![] }] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![M { v: 24, k: vec![] }, M { v: 25, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),), P::new(13), P::new(14), P::new(15), P::new(16), (P::new(17), P::new(18), P::new(19),), P::new(20), P::new(21), P::new(22), (P::new(23), P::new(24), P::new(25),),)) }
fn s106(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20),)) }
fn s107(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![M { v: 21, k: vec![] }, M { v: 22, k: vec![] }] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![M { v: 25, k: vec![] }, M { v: 26, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), (P::new(11), (P::new(12), P::new(13),),), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), (P::new(20), P::new(21), P::new(22),), P::new(23), (P::new(24), P::new(25), P::new(26),),)) }
fn s108(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21),)) }
fn s109(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![M { v: 24, k: vec![] }, M { v: 25, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), (P::new(11), (P::new(12), P::new(13),),), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), (P::new(23), P::new(24), P::new(25),),)) }
fn s110(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22),)) }
fn s111(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![] }, M { v: 12, k: vec![] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![M { v: 16, k: vec![] }] }] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![M { v: 27, k: vec![] }, M { v: 28, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), P::new(11), P::new(12),), P::new(13), (P::new(14), (P::new(15), P::new(16),),), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), (P::new(26), P::new(27), P::new(28),),)) }
fn s112(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23),)) }
fn s113(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![M { v: 14, k: vec![] }] }] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![M { v: 24, k: vec![] }, M { v: 25, k: vec![] }] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![M { v: 28, k: vec![] }, M { v: 29, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), (P::new(12), (P::new(13), P::new(14),),), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), (P::new(23), P::new(24), P::new(25),), P::new(26), (P::new(27), P::new(28), P::new(29),),)) }
fn s114(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24),)) }
fn s115(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![M { v: 15, k: vec![] }] }] }, M { v: 16, k: vec![M { v: 17, k: vec![] }, M { v: 18, k: vec![] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![M { v: 29, k: vec![] }, M { v: 30, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), (P::new(13), (P::new(14), P::new(15),),), (P::new(16), P::new(17), P::new(18),), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), (P::new(28), P::new(29), P::new(30),),)) }
fn s116(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25),)) }
fn s117(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![] }, M { v: 12, k: vec![] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![M { v: 16, k: vec![M { v: 17, k: vec![] }] }] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![M { v: 30, k: vec![] }, M { v: 31, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), P::new(11), P::new(12),), P::new(13), P::new(14), (P::new(15), (P::new(16), P::new(17),),), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), (P::new(29), P::new(30), P::new(31),),)) }
fn s118(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26),)) }
fn s119(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![M { v: 16, k: vec![] }] }] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![M { v: 22, k: vec![] }, M { v: 23, k: vec![] }] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![M { v: 31, k: vec![] }, M { v: 32, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), (P::new(14), (P::new(15), P::new(16),),), P::new(17), P::new(18), P::new(19), P::new(20), (P::new(21), P::new(22), P::new(23),), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), (P::new(30), P::new(31), P::new(32),),)) }
fn s120(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27),)) }
fn s121(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![M { v: 18, k: vec![] }] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![M { v: 32, k: vec![] }, M { v: 33, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), (P::new(8), P::new(9), P::new(10),), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), (P::new(16), (P::new(17), P::new(18),),), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), (P::new(31), P::new(32), P::new(33),),)) }
fn s122(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28),)) }
fn s123(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![] }, M { v: 16, k: vec![] }] }, M { v: 17, k: vec![M { v: 18, k: vec![M { v: 19, k: vec![] }] }] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![M { v: 33, k: vec![] }, M { v: 34, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), (P::new(14), P::new(15), P::new(16),), (P::new(17), (P::new(18), P::new(19),),), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), (P::new(32), P::new(33), P::new(34),),)) }
fn s124(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29),)) }
fn s125(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![M { v: 18, k: vec![M { v: 19, k: vec![] }] }] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }, M { v: 33, k: vec![M { v: 34, k: vec![] }, M { v: 35, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), (P::new(13), P::new(14), P::new(15),), P::new(16), (P::new(17), (P::new(18), P::new(19),),), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32), (P::new(33), P::new(34), P::new(35),),)) }
fn s126(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30),)) }
fn s127(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![M { v: 18, k: vec![] }] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![M { v: 25, k: vec![] }, M { v: 26, k: vec![] }] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }, M { v: 33, k: vec![] }, M { v: 34, k: vec![M { v: 35, k: vec![] }, M { v: 36, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), (P::new(16), (P::new(17), P::new(18),),), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), (P::new(24), P::new(25), P::new(26),), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32), P::new(33), (P::new(34), P::new(35), P::new(36),),)) }
fn s128(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31),)) }
fn s129(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![M { v: 19, k: vec![M { v: 20, k: vec![] }] }] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }, M { v: 33, k: vec![] }, M { v: 34, k: vec![] }, M { v: 35, k: vec![M { v: 36, k: vec![] }, M { v: 37, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), (P::new(12), P::new(13), P::new(14),), P::new(15), P::new(16), P::new(17), (P::new(18), (P::new(19), P::new(20),),), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32), P::new(33), P::new(34), (P::new(35), P::new(36), P::new(37),),)) }
fn s130(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32),)) }
fn s131(ch: &mut Ch, p: &str) -> R { tree(ch, p, &M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![M { v: 18, k: vec![M { v: 19, k: vec![] }] }] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![M { v: 32, k: vec![] }, M { v: 33, k: vec![] }] }, M { v: 34, k: vec![] }, M { v: 35, k: vec![] }, M { v: 36, k: vec![M { v: 37, k: vec![] }, M { v: 38, k: vec![] }] }] }, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), (P::new(17), (P::new(18), P::new(19),),), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), (P::new(31), P::new(32), P::new(33),), P::new(34), P::new(35), (P::new(36), P::new(37), P::new(38),),)) }
fn s132(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![]; forest(ch, p, &k, || ()) }
fn s133(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }]; forest(ch, p, &k, || (P::new(0), )) }
fn s134(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), )) }
fn s135(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1),), )) }
fn s136(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), )) }
fn s137(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![] }] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), P::new(2),), )) }
fn s138(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }] }, M { v: 2, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), P::new(1),), P::new(2), )) }
fn s139(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2),), )) }
fn s140(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2),),), )) }
fn s141(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), )) }
fn s142(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }]; forest(ch, p, &k, || (P::new(0), P::new(1), (P::new(2), P::new(3),), )) }
fn s143(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), P::new(2),), P::new(3), )) }
fn s144(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), P::new(2), P::new(3),), )) }
fn s145(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),), )) }
fn s146(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), P::new(1),), P::new(2), P::new(3), )) }
fn s147(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1),), (P::new(2), P::new(3),), )) }
fn s148(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2),), P::new(3), )) }
fn s149(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }] }, M { v: 3, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2),),), P::new(3), )) }
fn s150(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2), P::new(3),), )) }
fn s151(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), (P::new(2), P::new(3),),), )) }
fn s152(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2),), P::new(3),), )) }
fn s153(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2), P::new(3),),), )) }
fn s154(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3),),),), )) }
fn s155(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), P::new(2), (P::new(3), P::new(4),),), )) }
fn s156(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1),), (P::new(2), (P::new(3), P::new(4),),), )) }
fn s157(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),),),), )) }
fn s158(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3), P::new(4), P::new(5),),),), )) }
fn s159(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3),), P::new(4), P::new(5),),), )) }
fn s160(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2), (P::new(3), (P::new(4), P::new(5),),),),), )) }
fn s161(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }] }, M { v: 6, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3),), P::new(4), P::new(5),),), P::new(6), )) }
fn s162(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }] }, M { v: 6, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3), (P::new(4), P::new(5),),),), P::new(6),), )) }
fn s163(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }, M { v: 8, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3),), P::new(4),),), (P::new(5), (P::new(6), P::new(7),), P::new(8),), )) }
fn s164(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2),), P::new(3),), P::new(4), P::new(5), (P::new(6), (P::new(7), P::new(8),),), )) }
fn s165(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }, M { v: 6, k: vec![] }] }, M { v: 7, k: vec![] }] }] }] }, M { v: 8, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2), (P::new(3), (P::new(4), P::new(5), P::new(6),), P::new(7),),),), P::new(8), )) }
fn s166(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),),), (P::new(5), P::new(6),),),), P::new(7), (P::new(8), P::new(9), P::new(10),), )) }
fn s167(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), (P::new(2), P::new(3), (P::new(4), P::new(5),),), (P::new(6), (P::new(7), P::new(8),),),), P::new(9), P::new(10), )) }
fn s168(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2), (P::new(3), (P::new(4), (P::new(5), (P::new(6), (P::new(7), P::new(8),),),),), P::new(9), P::new(10),),),), )) }
fn s169(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }, M { v: 4, k: vec![M { v: 5, k: vec![] }] }, M { v: 6, k: vec![M { v: 7, k: vec![] }] }] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3),), (P::new(4), P::new(5),), (P::new(6), P::new(7),),), P::new(8), P::new(9), P::new(10),), P::new(11), P::new(12), )) }
fn s170(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }] }] }, M { v: 7, k: vec![] }] }, M { v: 8, k: vec![] }] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), (P::new(5), P::new(6),),),),), P::new(7),), P::new(8),), (P::new(9), (P::new(10), (P::new(11), P::new(12),),),), )) }
fn s171(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![] }] }] }] }, M { v: 11, k: vec![] }] }] }] }] }, M { v: 12, k: vec![] }] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4), (P::new(5), (P::new(6), (P::new(7), (P::new(8), (P::new(9), P::new(10),),),), P::new(11),),),),), P::new(12),), )) }
fn s172(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }, M { v: 5, k: vec![] }] }] }] }, M { v: 6, k: vec![M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![] }] }, M { v: 10, k: vec![M { v: 11, k: vec![] }] }, M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, M { v: 14, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), (P::new(3), P::new(4),), P::new(5),),),), (P::new(6), P::new(7), (P::new(8), P::new(9),), (P::new(10), P::new(11),), (P::new(12), P::new(13),),), P::new(14), )) }
fn s173(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }, M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }] }, M { v: 13, k: vec![M { v: 14, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),), (P::new(5), P::new(6),),),), (P::new(7), (P::new(8), P::new(9),), (P::new(10), (P::new(11), P::new(12),),),), (P::new(13), P::new(14),), )) }
fn s174(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }] }] }, M { v: 7, k: vec![] }] }, M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), (P::new(3), (P::new(4), (P::new(5), P::new(6),),),),), P::new(7),), (P::new(8), P::new(9),),), (P::new(10), (P::new(11), (P::new(12), P::new(13), P::new(14),),),), )) }
fn s175(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }, M { v: 8, k: vec![M { v: 9, k: vec![] }] }, M { v: 10, k: vec![] }] }] }] }, M { v: 11, k: vec![M { v: 12, k: vec![] }, M { v: 13, k: vec![] }] }, M { v: 14, k: vec![M { v: 15, k: vec![M { v: 16, k: vec![] }] }] }, M { v: 17, k: vec![] }] }, M { v: 18, k: vec![] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), P::new(2), (P::new(3), (P::new(4), (P::new(5), (P::new(6), P::new(7),), (P::new(8), P::new(9),), P::new(10),),),), (P::new(11), P::new(12), P::new(13),), (P::new(14), (P::new(15), P::new(16),),), P::new(17),), P::new(18), )) }
fn s176(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }, M { v: 12, k: vec![] }] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![] }, M { v: 16, k: vec![] }] }] }] }, M { v: 17, k: vec![M { v: 18, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), (P::new(2), P::new(3),),), P::new(4), P::new(5),), (P::new(6), (P::new(7), (P::new(8), (P::new(9), (P::new(10), P::new(11), P::new(12),),),), P::new(13), (P::new(14), P::new(15), P::new(16),),),), (P::new(17), P::new(18),), )) }
fn s177(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![M { v: 2, k: vec![] }] }] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }, M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }] }, M { v: 14, k: vec![M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![] }] }] }] }] }] }, M { v: 18, k: vec![] }] }]; forest(ch, p, &k, || ((P::new(0), (P::new(1), P::new(2),),), (P::new(3), (P::new(4), (P::new(5), (P::new(6), (P::new(7), (P::new(8), (P::new(9), (P::new(10), P::new(11),),), (P::new(12), P::new(13),),),), (P::new(14), P::new(15), (P::new(16), P::new(17),),),),),), P::new(18),), )) }
fn s178(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, M { v: 3, k: vec![M { v: 4, k: vec![M { v: 5, k: vec![] }] }] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2),), (P::new(3), (P::new(4), P::new(5),),), )) }
fn s179(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![M { v: 3, k: vec![] }] }] }, M { v: 4, k: vec![] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), (P::new(2), P::new(3),),), P::new(4), )) }
fn s180(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![M { v: 2, k: vec![] }, M { v: 3, k: vec![] }] }, M { v: 4, k: vec![M { v: 5, k: vec![M { v: 6, k: vec![] }] }] }, M { v: 7, k: vec![] }]; forest(ch, p, &k, || (P::new(0), (P::new(1), P::new(2), P::new(3),), (P::new(4), (P::new(5), P::new(6),),), P::new(7), )) }
fn s181(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), )) }
fn s182(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![M { v: 4, k: vec![] }] }] }, M { v: 5, k: vec![M { v: 6, k: vec![] }, M { v: 7, k: vec![] }] }, M { v: 8, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), (P::new(2), (P::new(3), P::new(4),),), (P::new(5), P::new(6), P::new(7),), P::new(8), )) }
fn s183(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), )) }
fn s184(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), (P::new(2), P::new(3), P::new(4),), (P::new(5), (P::new(6), P::new(7),),), P::new(8), P::new(9), )) }
fn s185(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), )) }
fn s186(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![M { v: 6, k: vec![M { v: 7, k: vec![] }] }] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2),), P::new(3), P::new(4), (P::new(5), (P::new(6), P::new(7),),), P::new(8), P::new(9), P::new(10), )) }
fn s187(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), )) }
fn s188(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![M { v: 3, k: vec![] }, M { v: 4, k: vec![] }] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), (P::new(2), P::new(3), P::new(4),), P::new(5), (P::new(6), (P::new(7), P::new(8),),), P::new(9), P::new(10), P::new(11), )) }
fn s189(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), )) }
fn s190(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4), P::new(5),), (P::new(6), (P::new(7), P::new(8),),), P::new(9), P::new(10), P::new(11), P::new(12), )) }
fn s191(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), )) }
fn s192(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4), P::new(5),), P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10), P::new(11), P::new(12), P::new(13), )) }
fn s193(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), )) }
fn s194(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2),), P::new(3), P::new(4), P::new(5), P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), )) }
fn s195(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), )) }
fn s196(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![] }, M { v: 12, k: vec![] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), (P::new(6), (P::new(7), P::new(8),),), P::new(9), (P::new(10), P::new(11), P::new(12),), P::new(13), P::new(14), P::new(15), )) }
fn s197(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), )) }
fn s198(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![M { v: 7, k: vec![M { v: 8, k: vec![] }] }] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![] }, M { v: 16, k: vec![] }] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), (P::new(6), (P::new(7), P::new(8),),), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), (P::new(14), P::new(15), P::new(16),), )) }
fn s199(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), )) }
fn s200(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![M { v: 9, k: vec![] }] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), (P::new(7), (P::new(8), P::new(9),),), P::new(10), P::new(11), (P::new(12), P::new(13), P::new(14),), P::new(15), P::new(16), P::new(17), )) }
fn s201(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), )) }
fn s202(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![M { v: 1, k: vec![] }, M { v: 2, k: vec![] }] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }]; forest(ch, p, &k, || ((P::new(0), P::new(1), P::new(2),), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), (P::new(9), (P::new(10), P::new(11),),), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), )) }
fn s203(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), )) }
fn s204(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![M { v: 9, k: vec![M { v: 10, k: vec![] }] }] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), (P::new(8), (P::new(9), P::new(10),),), P::new(11), (P::new(12), P::new(13), P::new(14),), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), )) }
fn s205(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), )) }
fn s206(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![M { v: 4, k: vec![] }, M { v: 5, k: vec![] }] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), (P::new(3), P::new(4), P::new(5),), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), )) }
fn s207(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), )) }
fn s208(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![] }, M { v: 16, k: vec![] }] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), (P::new(9), (P::new(10), P::new(11),),), P::new(12), P::new(13), (P::new(14), P::new(15), P::new(16),), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), )) }
fn s209(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), )) }
fn s210(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![M { v: 11, k: vec![] }] }] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![] }, M { v: 18, k: vec![] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), (P::new(9), (P::new(10), P::new(11),),), P::new(12), P::new(13), P::new(14), P::new(15), (P::new(16), P::new(17), P::new(18),), P::new(19), P::new(20), P::new(21), P::new(22), )) }
fn s211(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), )) }
fn s212(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![M { v: 20, k: vec![] }, M { v: 21, k: vec![] }] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), (P::new(19), P::new(20), P::new(21),), P::new(22), P::new(23), )) }
fn s213(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), )) }
fn s214(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![M { v: 11, k: vec![M { v: 12, k: vec![] }] }] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![M { v: 23, k: vec![] }, M { v: 24, k: vec![] }] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), (P::new(10), (P::new(11), P::new(12),),), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), (P::new(22), P::new(23), P::new(24),), )) }
fn s215(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), )) }
fn s216(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![] }, M { v: 11, k: vec![] }] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![M { v: 15, k: vec![] }] }] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), (P::new(9), P::new(10), P::new(11),), P::new(12), (P::new(13), (P::new(14), P::new(15),),), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), )) }
fn s217(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), )) }
fn s218(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![M { v: 13, k: vec![] }] }] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![M { v: 23, k: vec![] }, M { v: 24, k: vec![] }] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), (P::new(11), (P::new(12), P::new(13),),), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), (P::new(22), P::new(23), P::new(24),), P::new(25), P::new(26), )) }
fn s219(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), )) }
fn s220(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![M { v: 14, k: vec![] }] }] }, M { v: 15, k: vec![M { v: 16, k: vec![] }, M { v: 17, k: vec![] }] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), (P::new(12), (P::new(13), P::new(14),),), (P::new(15), P::new(16), P::new(17),), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), )) }
fn s221(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), )) }
fn s222(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![M { v: 10, k: vec![] }, M { v: 11, k: vec![] }] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![M { v: 15, k: vec![M { v: 16, k: vec![] }] }] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), (P::new(9), P::new(10), P::new(11),), P::new(12), P::new(13), (P::new(14), (P::new(15), P::new(16),),), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), )) }
fn s223(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), )) }
fn s224(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![M { v: 15, k: vec![] }] }] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![M { v: 21, k: vec![] }, M { v: 22, k: vec![] }] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), (P::new(13), (P::new(14), P::new(15),),), P::new(16), P::new(17), P::new(18), P::new(19), (P::new(20), P::new(21), P::new(22),), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), )) }
fn s225(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), )) }
fn s226(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![M { v: 8, k: vec![] }, M { v: 9, k: vec![] }] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![M { v: 16, k: vec![M { v: 17, k: vec![] }] }] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), (P::new(7), P::new(8), P::new(9),), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), (P::new(15), (P::new(16), P::new(17),),), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), )) }
fn s227(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), )) }
fn s228(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![M { v: 14, k: vec![] }, M { v: 15, k: vec![] }] }, M { v: 16, k: vec![M { v: 17, k: vec![M { v: 18, k: vec![] }] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), (P::new(13), P::new(14), P::new(15),), (P::new(16), (P::new(17), P::new(18),),), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), )) }
fn s229(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), )) }
fn s230(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![M { v: 13, k: vec![] }, M { v: 14, k: vec![] }] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![M { v: 18, k: vec![] }] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), (P::new(12), P::new(13), P::new(14),), P::new(15), (P::new(16), (P::new(17), P::new(18),),), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32), )) }
fn s231(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), )) }
fn s232(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![M { v: 16, k: vec![M { v: 17, k: vec![] }] }] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![M { v: 24, k: vec![] }, M { v: 25, k: vec![] }] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }, M { v: 33, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), (P::new(15), (P::new(16), P::new(17),),), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), (P::new(23), P::new(24), P::new(25),), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32), P::new(33), )) }
fn s233(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), )) }
fn s234(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![M { v: 12, k: vec![] }, M { v: 13, k: vec![] }] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![M { v: 18, k: vec![M { v: 19, k: vec![] }] }] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }, M { v: 32, k: vec![] }, M { v: 33, k: vec![] }, M { v: 34, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), (P::new(11), P::new(12), P::new(13),), P::new(14), P::new(15), P::new(16), (P::new(17), (P::new(18), P::new(19),),), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), P::new(32), P::new(33), P::new(34), )) }
fn s235(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![] }, M { v: 17, k: vec![] }, M { v: 18, k: vec![] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![] }, M { v: 31, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), P::new(16), P::new(17), P::new(18), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), P::new(30), P::new(31), )) }
fn s236(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = vec![M { v: 0, k: vec![] }, M { v: 1, k: vec![] }, M { v: 2, k: vec![] }, M { v: 3, k: vec![] }, M { v: 4, k: vec![] }, M { v: 5, k: vec![] }, M { v: 6, k: vec![] }, M { v: 7, k: vec![] }, M { v: 8, k: vec![] }, M { v: 9, k: vec![] }, M { v: 10, k: vec![] }, M { v: 11, k: vec![] }, M { v: 12, k: vec![] }, M { v: 13, k: vec![] }, M { v: 14, k: vec![] }, M { v: 15, k: vec![] }, M { v: 16, k: vec![M { v: 17, k: vec![M { v: 18, k: vec![] }] }] }, M { v: 19, k: vec![] }, M { v: 20, k: vec![] }, M { v: 21, k: vec![] }, M { v: 22, k: vec![] }, M { v: 23, k: vec![] }, M { v: 24, k: vec![] }, M { v: 25, k: vec![] }, M { v: 26, k: vec![] }, M { v: 27, k: vec![] }, M { v: 28, k: vec![] }, M { v: 29, k: vec![] }, M { v: 30, k: vec![M { v: 31, k: vec![] }, M { v: 32, k: vec![] }] }, M { v: 33, k: vec![] }, M { v: 34, k: vec![] }, M { v: 35, k: vec![] }]; forest(ch, p, &k, || (P::new(0), P::new(1), P::new(2), P::new(3), P::new(4), P::new(5), P::new(6), P::new(7), P::new(8), P::new(9), P::new(10), P::new(11), P::new(12), P::new(13), P::new(14), P::new(15), (P::new(16), (P::new(17), P::new(18),),), P::new(19), P::new(20), P::new(21), P::new(22), P::new(23), P::new(24), P::new(25), P::new(26), P::new(27), P::new(28), P::new(29), (P::new(30), P::new(31), P::new(32),), P::new(33), P::new(34), P::new(35), )) }
const ALL: &[fn(&mut Ch, &str) -> R] = &[s0, s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12, s13, s14, s15, s16, s17, s18, s19, s20, s21, s22, s23, s24, s25, s26, s27, s28, s29, s30, s31, s32, s33, s34, s35, s36, s37, s38, s39, s40, s41, s42, s43, s44, s45, s46, s47, s48, s49, s50, s51, s52, s53, s54, s55, s56, s57, s58, s59, s60, s61, s62, s63, s64, s65, s66, s67, s68, s69, s70, s71, s72, s73, s74, s75, s76, s77, s78, s79, s80, s81, s82, s83, s84, s85, s86, s87, s88, s89, s90, s91, s92, s93, s94, s95, s96, s97, s98, s99, s100, s101, s102, s103, s104, s105, s106, s107, s108, s109, s110, s111, s112, s113, s114, s115, s116, s117, s118, s119, s120, s121, s122, s123, s124, s125, s126, s127, s128, s129, s130, s131, s132, s133, s134, s135, s136, s137, s138, s139, s140, s141, s142, s143, s144, s145, s146, s147, s148, s149, s150, s151, s152, s153, s154, s155, s156, s157, s158, s159, s160, s161, s162, s163, s164, s165, s166, s167, s168, s169, s170, s171, s172, s173, s174, s175, s176, s177, s178, s179, s180, s181, s182, s183, s184, s185, s186, s187, s188, s189, s190, s191, s192, s193, s194, s195, s196, s197, s198, s199, s200, s201, s202, s203, s204, s205, s206, s207, s208, s209, s210, s211, s212, s213, s214, s215, s216, s217, s218, s219, s220, s221, s222, s223, s224, s225, s226, s227, s228, s229, s230, s231, s232, s233, s234, s235, s236];
pub fn dispatch(ch: &mut Ch, p: &str) -> R { let i = ch.n(ALL.len()); ALL[i](ch, p) }
