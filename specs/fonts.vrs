// Contracts for reading fonts (victor/src/fonts).
#![allow(unused)]
#![feature(const_destruct)]
use vstd::prelude::*;
use std::marker::PhantomData;
use std::mem;
use std::sync::Arc;
use std::cmp::Ordering;

verus! {

//@@ include fonts_parsing.inc

pub trait SfntTable { spec fn tag_spec() -> Tag; fn tag() -> (r: Tag) ensures r == Self::tag_spec(); }
//@@ include fonts_tables.inc

//@@ include fonts_cmap.inc
//@@ include fonts_font.inc
//@@ include fonts_text.inc
} // verus!
fn main() {}
