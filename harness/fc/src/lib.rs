#![allow(unused_imports)]
//! Vectors of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, fam::*, vecs::{DynVec, W}};

pub fn make(i: usize) -> Option<Box<dyn DynVec>> {
    Some(match i {
        9 => Box::new(W::<SliceF<ZTok>>::new()),
        10 => Box::new(W::<SliceF<A32>>::new()),
        11 => Box::new(W::<SliceF<()>>::new()),
        _ => return None,
    })
}
