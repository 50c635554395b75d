//! Sizes given to cairo and poppler (V23), through the public interface of lester.
use crate::common::*;
use crate::ensure;
use lester::{Backdrop, ImageSurface, PdfDocument, RenderOptions};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Sizes;

fn pdf(w: &str, h: &str) -> Vec<u8> {
    let objects = [
        "<< /Type /Catalog /Pages 2 0 R >>".to_owned(),
        "<< /Type /Pages /Kids [3 0 R] /Count 1 >>".to_owned(),
        format!("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 {} {}] /Resources << >> >>", w, h),
    ];
    let mut o = "%PDF-1.5\n".to_owned();
    let mut at = Vec::new();
    for (i, x) in objects.iter().enumerate() {
        at.push(o.len());
        o.push_str(&format!("{} 0 obj\n{}\nendobj\n", i + 1, x));
    }
    let start = o.len();
    o.push_str("xref\n0 4\n0000000000 65535 f \n");
    for a in at {
        o.push_str(&format!("{:010} 00000 n \n", a));
    }
    o.push_str(&format!("trailer\n<< /Size 4 /Root 1 0 R >>\nstartxref\n{}\n%%EOF\n", start));
    o.into_bytes()
}

/// what cairo takes (CAIRO_STATUS_INVALID_SIZE beyond)
const CAIRO_MAX: f64 = 32767.;

/// the surface that came out, for a size of w × h asked for (sizes between integers are between lo and hi)
fn compare(r: std::thread::Result<Result<ImageSurface, lester::CairoError>>, w: (f64, f64), h: (f64, f64), what: &str) -> Result<bool, String> {
    let fits = |x: (f64, f64)| x.0 >= 1. && x.1 <= CAIRO_MAX;
    match r {
        Ok(Ok(mut surface)) => {
            if w.1 <= 0. || h.1 <= 0. {
                return Ok(false)
            }
            let p = surface.pixels();
            let is = |n: usize, x: (f64, f64)| n as f64 == x.0 || n as f64 == x.1;
            ensure!(is(p.width, w) && is(p.height, h), "{} gave an image of {} × {}", what, p.width, p.height);
            ensure!(p.buffer.len() == p.width * p.height, "{} gave {} pixels for {} × {}", what, p.buffer.len(), p.width, p.height);
            Ok(true)
        }
        _ => {
            ensure!(!(fits(w) && fits(h)), "{} failed", what);
            Ok(true)
        }
    }
}

const SPECIAL: [&str; 22] = [
    "NaN", "inf", "-inf", "0", "-0", "1", "-1", "2147483647", "2147483648", "2147483646", "-2147483648", "-2147483649",
    "4294967295", "4294967296", "4294967301", "9223372036854775807", "18446744073709551615", "1e300", "-1e300",
    "32767", "32768", "1e-300",
];

fn number(s: &str) -> Option<f64> {
    s.parse().ok()
}

impl Prop for Sizes {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (200_000, 200) } else { (20_000, 15) }
    }
    fn rule(&self) -> &'static str {
        "an image or an error came out"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = Vec::new();
        for f in &["rgb24", "argb32"] {
            for n in &["1", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "8589934593", "9223372036854775807", "9223372036854775808", "18446744073709551615", "32767", "32768"] {
                v.push(format!("{} {} 3", f, n));
                v.push(format!("{} 3 {}", f, n));
            }
        }
        for d in &SPECIAL {
            for backdrop in &["white", "transparent"] {
                // pages of 3 × 3 and 0.75 × 0.75 points are 4 × 4 and 1 × 1 pixels
                v.push(format!("page 3 3 {} 1 {}", d, backdrop));
                v.push(format!("page 3 3 1 {} {}", d, backdrop));
                v.push(format!("page 0.75 0.75 {} 1 {}", d, backdrop));
            }
        }
        // lengths that are those of a document modulo 2^32, and past the limit
        v.push("bytes 0".to_owned());
        v.push("bytes 4294967296".to_owned());
        v.push("bytes 2147483648".to_owned());
        v
    }
    fn generate(&self, rng: &mut Rng, _: u64) -> String {
        match rng.below(3) {
            0 => {
                let small = rng.range(1, 40);
                let big = match rng.below(4) {
                    0 => rng.range(1, 300) as u64,
                    1 => (1u64 << rng.range(0, 63)).wrapping_add(rng.range(-3, 40) as u64).max(1),
                    2 => ((rng.next() >> 32) << 32) + rng.range(1, 200) as u64,
                    _ => rng.next() >> rng.range(0, 63),
                };
                let f = ["rgb24", "argb32"][rng.below(2)];
                if rng.chance(50) { format!("{} {} {}", f, small, big.max(1)) } else { format!("{} {} {}", f, big.max(1), small) }
            }
            _ => {
                let dppx = |rng: &mut Rng| match rng.below(5) {
                    0 => SPECIAL[rng.below(SPECIAL.len())].to_owned(),
                    1 => format!("{}", f64::from_bits(rng.next())),
                    2 => format!("{}e{}", rng.range(-999, 999) as f64 / 100., rng.range(-5, 12)),
                    _ => format!("{}", rng.range(1, 400) as f64 / 100.),
                };
                let (x, y) = (dppx(rng), dppx(rng));
                let (w, h) = (rng.range(1, 400) as f64 / 4., rng.range(1, 400) as f64 / 4.);
                format!("page {} {} {} {} {}", w, h, x, y, ["white", "transparent"][rng.below(2)])
            }
        }
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let p: Vec<&str> = case.split_whitespace().collect();
        match (p.get(0), p.len()) {
            (Some(&"bytes"), 2) => {
                let more: usize = p[1].parse().map_err(|_| "bad case")?;
                let doc = pdf("3", "3");
                // zeroed pages that nothing touches take no memory
                let mut bytes = vec![0u8; doc.len() + more];
                bytes[..doc.len()].copy_from_slice(&doc);
                let r = catch_unwind(|| PdfDocument::from_bytes(&bytes).is_ok());
                let fits = bytes.len() <= i32::max_value() as usize;
                ensure!(!fits || r.is_ok(), "a document of {} bytes does not load", bytes.len());
                ensure!(fits || r.is_err() || !r.unwrap(), "a document of {} bytes was loaded as one of {}", bytes.len(), bytes.len() as i32);
                Ok(true)
            }
            (Some(&f), 3) if f == "rgb24" || f == "argb32" => {
                let (w, h): (usize, usize) = match (p[1].parse(), p[2].parse()) {
                    (Ok(w), Ok(h)) => (w, h),
                    _ => return Ok(false),
                };
                let (fw, fh) = (w as f64, h as f64);
                if fw <= CAIRO_MAX && fh <= CAIRO_MAX && fw * fh > 2e6 {
                    return Ok(false)
                }
                let r = catch_unwind(|| if f == "rgb24" { ImageSurface::new_rgb24(w, h) } else { ImageSurface::new_argb32(w, h) });
                compare(r, (fw, fw), (fh, fh), &format!("an image of {} × {} pixels", w, h))
            }
            (Some(&"page"), 6) => {
                let (w, h, x, y) = match (number(p[1]), number(p[2]), number(p[3]), number(p[4])) {
                    (Some(w), Some(h), Some(x), Some(y)) => (w, h, x, y),
                    _ => return Ok(false),
                };
                let bytes = pdf(p[1], p[2]);
                let doc = PdfDocument::from_bytes(&bytes).map_err(|e| format!("no document: {:?}", e))?;
                let page = doc.pages().nth(0).ok_or("no page")?;
                let near = |v: f64| ((v - v.abs() * 1e-9).ceil(), (v + v.abs() * 1e-9).ceil());
                let (pw, ph) = (near(w / 0.75 * x), near(h / 0.75 * y));
                if pw.1 <= CAIRO_MAX && ph.1 <= CAIRO_MAX && pw.1 * ph.1 > 2e6 {
                    return Ok(false)
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    page.render_with_options(RenderOptions {
                        dppx_x: x,
                        dppx_y: y,
                        backdrop: if p[5] == "white" { Backdrop::White } else { Backdrop::Transparent },
                        ..RenderOptions::default()
                    })
                }));
                if !(x >= 1e-3 && y >= 1e-3) && r.as_ref().map(|r| r.is_err()).unwrap_or(true) {
                    // cairo can not invert the scale, or there is no page
                    return Ok(true)
                }
                compare(r, pw, ph, &format!("a page of {} × {} points with {} × {} pixels per px", w, h, x, y))
            }
            _ => Ok(false),
        }
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        let n: Vec<&str> = case.split_whitespace().collect();
        let mut out = Vec::new();
        for i in 1..n.len() {
            for s in &["1", "3", "NaN", "4294967297"] {
                if n[i] != *s && n[i].len() > s.len() {
                    let mut m = n.clone();
                    m[i] = s;
                    out.push(m.join(" "));
                }
            }
        }
        out
    }
}
