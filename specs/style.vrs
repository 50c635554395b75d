// Contracts for the cascade and computed values (victor/src/style).
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};
use std::sync::Arc;

verus! {
//@@ include layout_num.inc
//@@ include style_values.inc
//@@ include style_cascade.inc
//@@ include style_computed.inc
//@@ include style_sets.inc
} // verus!
fn main() {}
