#![allow(unused_imports)]
//! Emplacables of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, emp::{self, Mode}, fam::*, machine::{R, Stats}, src::Src};

pub fn case(i: usize, src: &mut Src, st: &mut Stats, mode: Mode) -> Option<R> {
    Some(match i {
        6 => emp::case::<SliceF<u8>>(src, st, mode),
        7 => emp::case::<SliceF<u32>>(src, st, mode),
        8 => emp::case::<SliceF<Tracked>>(src, st, mode),
        _ => return None,
    })
}
