#![allow(unused_imports)]
//! Vectors of some element families (a crate of their own so that they compile in parallel).
use vhcore::{elems::*, fam::*, vecs::{DynVec, W}};

pub fn make(i: usize) -> Option<Box<dyn DynVec>> {
    Some(match i {
        12 => Box::new(W::<StrF>::new()),
        13 => Box::new(W::<CStrF>::new()),
        14 => Box::new(W::<DynF>::new()),
        17 => Box::new(W::<TailDynF>::new()),
        _ => return None,
    })
}
