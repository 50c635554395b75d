// Contracts for writing PDF files (victor/src/pdf).
#![allow(unused, non_snake_case)]
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::string::*;

verus! {
pub type Flt = f32;
//@@ include pdf_object.inc
//@@ include pdf_syntax.inc
//@@ literals
} // verus!
fn main() {}
