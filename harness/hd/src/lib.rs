#![allow(unused_imports)]
//! Emplacables of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, emp::{self, Mode}, fam::*, machine::{R, Stats}, src::Src};

pub fn case(i: usize, src: &mut Src, st: &mut Stats, mode: Mode) -> Option<R> {
    Some(match i {
        12 => emp::case::<StrF>(src, st, mode),
        13 => emp::case::<CStrF>(src, st, mode),
        14 => emp::case::<DynF>(src, st, mode),
        17 => emp::case::<TailDynF>(src, st, mode),
        _ => return None,
    })
}
