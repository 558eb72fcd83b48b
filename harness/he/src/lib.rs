#![allow(unused_imports)]
//! Emplacables of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, emp::{self, Mode}, fam::*, machine::{R, Stats}, src::Src};

pub fn case(i: usize, src: &mut Src, st: &mut Stats, mode: Mode) -> Option<R> {
    Some(match i {
        15 => emp::case::<TailSliceF<u8>>(src, st, mode),
        16 => emp::case::<TailSliceF<Tracked>>(src, st, mode),
        18 => emp::case::<OsStrF>(src, st, mode),
        19 => emp::case::<PathF>(src, st, mode),
        _ => return None,
    })
}
