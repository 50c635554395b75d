// Contracts for block layout and positioning (victor/src/layout).
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};
use std::sync::Arc;

verus! {
//@@ include layout_num.inc
//@@ include layout_geom.inc
use flow_relative::{Rect, Sides, Vec2};
//@@ include layout_style.inc
#[verifier::external_body]
pub struct ShapedSegment { x: u8 }
#[verifier::external_body]
pub struct InlineFormattingContext { x: u8 }
//@@ include layout_block.inc
//@@ include layout_abspos.inc
//@@ include layout_flow.inc
} // verus!
fn main() {}
