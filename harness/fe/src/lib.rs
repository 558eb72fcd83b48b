#![allow(unused_imports)]
//! Vectors of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, fam::*, vecs::{DynVec, W}};

pub fn make(i: usize) -> Option<Box<dyn DynVec>> {
    Some(match i {
        15 => Box::new(W::<TailSliceF<u8>>::new()),
        16 => Box::new(W::<TailSliceF<Tracked>>::new()),
        18 => Box::new(W::<OsStrF>::new()),
        19 => Box::new(W::<PathF>::new()),
        _ => return None,
    })
}
