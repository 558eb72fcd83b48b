#![allow(unused_imports)]
//! Emplacables of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, emp::{self, Mode}, fam::*, machine::{R, Stats}, src::Src};

pub fn case(i: usize, src: &mut Src, st: &mut Stats, mode: Mode) -> Option<R> {
    Some(match i {
        0 => emp::case::<SizedF<[u8; 3]>>(src, st, mode),
        1 => emp::case::<SizedF<u64>>(src, st, mode),
        2 => emp::case::<SizedF<Tracked>>(src, st, mode),
        3 => emp::case::<SizedF<A64>>(src, st, mode),
        4 => emp::case::<SizedF<()>>(src, st, mode),
        5 => emp::case::<SizedF<ZTok>>(src, st, mode),
        _ => return None,
    })
}
