//! Element types shared by the checks, together with their model: values are numbered, and the model
//! knows the field values, the bytes and the debug text of every number independently of the library.
#[macro_use]
extern crate flatdata;

pub use flatdata::*;
pub use mccore::{self, catch, hash_of, Ch, Level, Run};
pub use std::rc::Rc;

pub use model::arch::{self, *};
pub mod big;
pub mod codec;
pub mod damage;
pub mod drive;
pub mod enums;
pub mod fat;
pub mod huge;
pub mod iters;
pub mod layouts;
pub mod model;
pub use model::*;
