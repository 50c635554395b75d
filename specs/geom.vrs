// Contracts for lengths and logical/physical geometry (victor/src/geom.rs, style/values/length.rs).
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};

verus! {
//@@ include layout_num.inc
//@@ include layout_geom.inc
} // verus!
fn main() {}
