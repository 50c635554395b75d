//! Bounded companion checks, run against the real crates of /repo.
//!
//! harness run PROP TIER SEED OUT.json CURDIR    explore
//! harness one PROP CASEFILE                     check one case (replay)
//!
//! A case is a piece of text; `check` is a pure function of it.
mod common;
mod driver;
mod p_dom;
mod p_font;
mod p_geom;
mod p_layout;
mod p_pdf;
mod p_style;
mod p_text;
mod pdfread;

use common::*;

fn prop(name: &str) -> Box<dyn Prop> {
    match name {
        "dom" => Box::new(p_dom::Dom),
        "fontcmap" => Box::new(p_font::FontCmap),
        "fontmetrics" => Box::new(p_font::FontMetrics),
        "fontbytes" => Box::new(p_font::FontBytes),
        "blocks" => Box::new(p_layout::Blocks),
        "abspos" => Box::new(p_layout::Abspos),
        "inlines" => Box::new(p_layout::Inlines),
        "boxtree" => Box::new(p_layout::BoxTree),
        "paint" => Box::new(p_layout::Paint),
        "geom" => Box::new(p_geom::Geom),
        "pdfobject" => Box::new(p_pdf::PdfObject),
        "pdffile" => Box::new(p_pdf::PdfFileP),
        "pdfpage" => Box::new(p_pdf::PdfPage),
        "pdftext" => Box::new(p_pdf::PdfText),
        "plain" => Box::new(p_text::Plain),
        "cascade" => Box::new(p_style::Cascade),
        "declarations" => Box::new(p_style::Declarations),
        "selectors" => Box::new(p_style::Selectors),
        "computed" => Box::new(p_style::ComputedP),
        "shape" => Box::new(p_text::Shape),
        _ => panic!("unknown property {}", name),
    }
}

fn main() {
    driver::main()
}
