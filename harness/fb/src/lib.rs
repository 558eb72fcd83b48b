#![allow(unused_imports)]
//! Vectors of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, fam::*, vecs::{DynVec, W}};

pub fn make(i: usize) -> Option<Box<dyn DynVec>> {
    Some(match i {
        6 => Box::new(W::<SliceF<u8>>::new()),
        7 => Box::new(W::<SliceF<u32>>::new()),
        8 => Box::new(W::<SliceF<Tracked>>::new()),
        _ => return None,
    })
}
