// Contracts for parsing declarations (victor/src/style/declaration_block.rs, the map of properties, style/values).
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};
use std::sync::Arc;
use std::marker::PhantomData;

verus! {
//@@ include layout_num.inc
//@@ include style_values.inc
//@@ include style_cascade.inc
//@@ include style_parse.inc
} // verus!
fn main() {}
