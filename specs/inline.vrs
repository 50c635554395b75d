// Contracts for inline layout: line breaking, inline boxes over lines (victor/src/layout/flow/inline.rs, victor/src/text.rs)
#![allow(unused, nonstandard_style)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};
use std::sync::Arc;
use std::marker::PhantomData;

verus! {
//@@ include layout_num.inc assumed
//@@ include layout_geom.inc assumed
use flow_relative::{Rect, Sides, Vec2};
//@@ include layout_style.inc assumed
//@@ include inline_text.inc
//@@ item victor/src/layout/flow/inline.rs | struct InlineFormattingContext
//@@ end
//@@ item victor/src/layout/flow/inline.rs | enum InlineLevelBox
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct InlineBox
//@@ end
//@@ item victor/src/layout/flow/inline.rs | struct TextRun
//@@ end
//@@ include layout_block.inc assumed
//@@ include inline.inc
} // verus!
fn main() {}
