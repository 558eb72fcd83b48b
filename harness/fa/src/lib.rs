#![allow(unused_imports)]
//! Vectors of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, fam::*, vecs::{DynVec, W}};

pub fn make(i: usize) -> Option<Box<dyn DynVec>> {
    Some(match i {
        0 => Box::new(W::<SizedF<[u8; 3]>>::new()),
        1 => Box::new(W::<SizedF<u64>>::new()),
        2 => Box::new(W::<SizedF<Tracked>>::new()),
        3 => Box::new(W::<SizedF<A64>>::new()),
        4 => Box::new(W::<SizedF<()>>::new()),
        5 => Box::new(W::<SizedF<ZTok>>::new()),
        _ => return None,
    })
}
