// Contracts for turning drawing operations into a PDF document (victor/src/pdf/convert.rs, victor/src/pdf/mod.rs).
#![allow(unused, nonstandard_style)]
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, AddAssign, Sub, Mul, Div, Neg};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;

verus! {
//@@ include num.inc
pub type Flt = F32;
//@@ include pdf_object.inc assumed
//@@ include pdf_syntax.inc assumed
//@@ include convert.inc
//@@ literals
} // verus!
fn main() {}
