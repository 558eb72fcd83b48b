#![feature(allocator_api, ptr_metadata, unsized_fn_params, unsize, macro_metavar_expr, layout_for_ptr)]
#![allow(internal_features)]

//! Shared parts of the harness: allocator, elements, vectors, model machine.

pub mod alloc;
pub mod elems;
pub mod emp;
pub mod fam;
pub mod machine;
pub mod src;
pub mod vecs;
