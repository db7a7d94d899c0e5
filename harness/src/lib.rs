#![allow(warnings)]
pub mod dist;
pub mod opaque;
pub mod comb;
pub mod sym;
pub mod jit;
pub mod ef;
pub mod tag;
pub mod mj;
pub mod pr;
pub mod num;
pub mod eg;
pub mod ad;
