#![allow(unused_imports)]
//! Emplacables of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, emp::{self, Mode}, fam::*, machine::{R, Stats}, src::Src};

pub fn case(i: usize, src: &mut Src, st: &mut Stats, mode: Mode) -> Option<R> {
    Some(match i {
        9 => emp::case::<SliceF<ZTok>>(src, st, mode),
        10 => emp::case::<SliceF<A32>>(src, st, mode),
        11 => emp::case::<SliceF<()>>(src, st, mode),
        _ => return None,
    })
}
