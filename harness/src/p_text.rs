//! Shaping
use crate::common::*;
use crate::ensure;
use crate::p_font::{gen_font, parse};
use victor::fonts::Font;
use victor::text::ShapedSegment;

/// V06: a font description, and lines
///   chars C C …  (code points)  |  char C  |  save  |  restore K  |  new C C …
pub struct Shape;
impl Prop for Shape {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (6_000_000, 1500) } else { (150_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a font with characters, and at least one character shaped"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = gen_font(r, true);
        let d = parse(&o);
        let pairs: Vec<u32> = d.selected().map_or(Vec::new(), |s| s.edges());
        let mut saved = 0;
        for _ in 0..r.below(12) {
            let some = |r: &mut Rng, o: &mut String, n: usize| {
                for _ in 0..n {
                    let c = if r.chance(25) || pairs.is_empty() {
                        [r.below(300), r.below(0x110000)][r.below(2)] as u32
                    } else {
                        pairs[r.below(pairs.len())].wrapping_add(r.range(-2, 3) as u32)
                    };
                    *o += &format!(" {}", c)
                }
                *o += "\n"
            };
            match r.below(9) {
                0..=2 => {
                    o += "chars";
                    let n = if r.chance(5) { r.below(400) } else { r.below(10) };
                    some(r, &mut o, n)
                }
                3 => {
                    o += "char";
                    some(r, &mut o, 1)
                }
                4 | 5 => {
                    o += "save\n";
                    saved += 1
                }
                6 | 7 if saved > 0 => o += &format!("restore {}\n", if r.chance(60) { saved - 1 } else { r.below(saved) }),
                _ if r.chance(20) => {
                    o += "new";
                    let n = r.below(10);
                    saved = 0;
                    some(r, &mut o, n)
                }
                _ => {}
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let d = parse(case);
        let sub = match d.selected() {
            Some(s) if s.in_order() && !d.widths.is_empty() => s.clone(),
            _ => return Ok(false),
        };
        let font = match Font::parse(d.bytes()) {
            Ok(f) => f,
            Err(_) => return Ok(false),
        };
        let e = |e| format!("{:?}", e);
        let mut seg = ShapedSegment::new_with_naive_shaping(font.clone());
        let mut want: Vec<u16> = Vec::new();
        // a state, and what the segment had
        let mut states: Vec<(victor::text::ShapedSegmentState, Vec<u16>, f32)> = Vec::new();
        let mut any = false;
        for l in case.lines() {
            let mut w = l.split(' ');
            let k = w.next().unwrap_or("");
            let cs: Vec<char> = w.clone().filter_map(|x| x.parse::<u32>().ok()).filter_map(std::char::from_u32).collect();
            let glyphs: Vec<u16> = cs.iter().map(|c| sub.glyph(*c as u32)).collect();
            match k {
                "chars" => {
                    seg.append(cs.iter().cloned()).map_err(e)?;
                    want.extend(glyphs);
                }
                "char" => {
                    for c in cs {
                        seg.append_char(c).map_err(e)?
                    }
                    want.extend(glyphs)
                }
                "new" => {
                    let s: String = cs.into_iter().collect();
                    seg = ShapedSegment::naive_shape(&s, font.clone()).map_err(e)?;
                    want = glyphs;
                    states.clear()
                }
                "save" => states.push((seg.save(), want.clone(), victor::verif::text::advance(&seg))),
                "restore" => {
                    let i: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    if i < states.len() {
                        // what was saved later is not there any more
                        states.truncate(i + 1);
                        seg.restore(&states[i].0);
                        want = states[i].1.clone();
                        let a = victor::verif::text::advance(&seg);
                        ensure!(a.to_bits() == states[i].2.to_bits(), "after going back the advance is {}, not {} as it was", a, states[i].2)
                    }
                }
                _ => continue,
            }
            any |= !want.is_empty();
            let got = victor::verif::text::glyphs(&seg);
            ensure!(got == want, "after {:?}: glyphs {:?}, not {:?}", l, got, want);
            let sum: f64 = want.iter().map(|g| d.widths[(*g as usize).min(d.widths.len() - 1)] as f64 / d.upem as f64).sum();
            let a = victor::verif::text::advance(&seg) as f64;
            ensure!((a - sum).abs() <= 1e-3 * sum, "after {:?}: advance {}, but the glyphs are {} together", l, a, sum);
        }
        Ok(any && !sub.edges().is_empty())
    }
}

// ---- plain text

use crate::p_font::Desc;
use crate::pdfread::{Op, Pdf};
use victor::text_plain::{layout, Style};
use victor::primitives::{Length, Size};

/// letters, spaces and ideographs, each with its own glyph and width
fn text_font(seed: u64) -> Desc {
    let mut r = Rng::new(seed);
    let kind = r.below(5);
    let mut o = format!("upem {}\nasc {}\ndesc -200\nglyphs 400\n", [1000, 2048, 500][r.below(3)], r.range(0, 1000));
    for g in 0..260 {
        let w = match kind {
            0 => 500,
            1 => 100 + r.below(900),
            2 => 1 + r.below(3000),
            3 if g == 1 => r.below(3),
            4 => 600 * r.below(2),
            _ => 250 * (1 + r.below(4)),
        };
        o += &format!("w {}\n", w);
    }
    o += "rec 3 1 4\ns 9 9 211\ns 32 126 65505\n";
    o += &format!("s 19968 20031 {}\n", 65536 - 19968 + 150);
    o += "s 65535 65535 1\nname 1 1 6 Text\n";
    parse(&o)
}
fn glyph_of(c: char) -> u16 {
    let c = c as u32;
    if c == 9 { 220 } else if c >= 19968 { (c - 19968 + 150) as u16 } else { (c - 31) as u16 }
}
fn char_of(g: u16) -> Option<char> {
    let g = g as u32;
    std::char::from_u32(match g {
        1..=95 => g + 31,
        220 => 9,
        150..=213 => g - 150 + 19968,
        _ => return None,
    })
}
/// may a line break between these two (of the characters that are used here)?
fn breaks(a: char, b: char) -> bool {
    if b == ' ' {
        return false;
    }
    a == ' ' || (b != '\t' && (a == '\t' || a >= '\u{4e00}' || b >= '\u{4e00}'))
}

/// V07: lines  `font SEED`, `page W H MARGIN` (mm), `size PX`, `leading F`, `justify`, and `t TEXT` for each paragraph
pub struct Plain;
impl Prop for Plain {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 1200) } else { (60_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a text that takes at least two lines"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = Vec::new();
        for j in &["", "justify\n"] {
            for t in &["t ", "t a", "t \nt ", "t a\nt ", "t a b\nt \nt c", "t  a", "t a ", "t    ", "t aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa b", "t aaa bb"] {
                for p in &["100 100 10", "20 20 0", "10 10 10", "30 10 2"] {
                    v.push(format!("{}font 1\npage {}\nsize 16\nleading 1.2\n{}", j, p, t))
                }
            }
        }
        v
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = format!("font {}\n", r.below(20));
        let w = [210, 50, 20, 5 + r.below(300)][r.below(4)];
        let h = [297, 30, 10, 5 + r.below(300)][r.below(4)];
        let m = match r.below(6) {
            0 => 0.,
            1 => w as f64 / 2.,
            2 => r.below(200) as f64,
            _ => r.below(w * 4) as f64 / 10.,
        };
        o += &format!("page {} {} {}\n", w, h, m);
        o += &format!("size {}\n", [16., 1., 40., r.below(4000) as f64 / 100.][r.below(4)]);
        o += &format!("leading {}\n", [1.2, 1., 0.5, 3., r.below(300) as f64 / 100. + 0.01][r.below(5)]);
        if r.chance(60) {
            o += "justify\n"
        }
        let words = [3, 10, 40, 200][r.below(4)];
        for _ in 0..1 + r.below(4) {
            o += "t ";
            let n = r.below(words);
            for _ in 0..n {
                match r.below(15) {
                    0 => o += " ",
                    14 => o += "\t",
                    1 => o += &(0..r.below(6)).map(|_| ' ').collect::<String>(),
                    2 => o += &(0..r.below(5)).map(|_| std::char::from_u32(19968 + r.below(64) as u32).unwrap()).collect::<String>(),
                    3 if r.chance(20) => o += &"x".repeat(r.below(200)),
                    _ => {
                        o += &(0..1 + r.below(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>();
                        if r.chance(85) {
                            o += " "
                        }
                    }
                }
            }
            o += "\n"
        }
        o.pop();
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let mut seed = 1;
        let mut page = [100f32, 100., 10.];
        let mut size = 16f32;
        let mut leading = 1.2f32;
        let mut justify = false;
        let mut paragraphs: Vec<String> = Vec::new();
        for l in case.lines() {
            let mut w = l.split(' ');
            let k = w.next().unwrap_or("");
            let n: Vec<f32> = w.map(|x| x.parse().unwrap_or(0.)).collect();
            match k {
                "font" => seed = *n.get(0).unwrap_or(&1.) as u64,
                "page" if n.len() == 3 => page = [n[0], n[1], n[2]],
                "size" => size = *n.get(0).unwrap_or(&16.),
                "leading" => leading = *n.get(0).unwrap_or(&1.),
                "justify" => justify = true,
                "t" => paragraphs.push(l[(2).min(l.len())..].to_owned()),
                _ => {}
            }
        }
        // the margins have to fit into the page
        if leading <= 0. || size < 0. || 2. * page[2] > page[0].min(page[1]) * 0.999 {
            return Ok(false);
        }
        let d = text_font(seed);
        let width = |c: char| d.widths[glyph_of(c) as usize] as f64 / d.upem as f64 * size as f64;
        let text = paragraphs.join("\n");
        let font = Font::parse(d.bytes()).map_err(|e| format!("{:?}", e))?;
        let style = Style {
            page_size: Size::new(page[0], page[1]),
            page_margin: Length::new(page[2]),
            font,
            font_size: Length::new(size),
            line_height: leading,
            justify,
        };
        let doc = layout(&text, &style).map_err(|e| format!("{:?}", e))?;
        let pdf = Pdf::load(&doc.write_to_pdf_bytes())?;
        let pages = pdf.pages()?;
        let mm = 96. / 25.4;
        let (left, right) = (page[2] as f64 * mm, (page[0] - page[2]) as f64 * mm);
        let eps = 0.02 + 2e-4 * (right - left).abs();
        // what was painted, in order: (page, x, y, text)
        let mut lines: Vec<(usize, f64, Vec<(f64, String)>)> = Vec::new();
        let mut shown = String::new();
        for (n, p) in pages.iter().enumerate() {
            ensure!(
                (p.width - page[0] as f64 * mm).abs() < 0.05 && (p.height - page[1] as f64 * mm).abs() < 0.05,
                "page {} is {} × {} px",
                n,
                p.width,
                p.height
            );
            for op in &p.ops {
                match op {
                    Op::Text { x, y, size: s, codes, alpha, rgb, .. } => {
                        ensure!((s - size as f64).abs() < 1e-3, "font size {}, not {}", s, size);
                        ensure!(*alpha == 1. && *rgb == [0.; 3], "text in another color than black");
                        let mut t = String::new();
                        for g in codes {
                            t.push(char_of(*g).ok_or_else(|| format!("glyph {} is shown", g))?)
                        }
                        shown += &t;
                        match lines.last_mut() {
                            Some((p, ly, v)) if *p == n && (*ly - y).abs() < 1e-3 => v.push((*x, t)),
                            l => {
                                if let Some((p, ly, _)) = l {
                                    ensure!(*p != n || y > ly, "a line at {} after a line at {}", y, ly)
                                }
                                lines.push((n, *y, vec![(*x, t)]))
                            }
                        }
                    }
                    op => return Err(format!("{:?} is painted", op)),
                }
            }
        }
        let expected: String = text.chars().filter(|c| *c != '\n').collect();
        if shown != expected {
            let k = shown.chars().zip(expected.chars()).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "the text differs from character {} on: {:?} is shown, not {:?}",
                k,
                shown.chars().skip(k).take(30).collect::<String>(),
                expected.chars().skip(k).take(30).collect::<String>()
            ));
        }
        // where each line ends in the text
        let mut rest = text.chars().peekable();
        for (k, (_, _, pieces)) in lines.iter().enumerate() {
            let mut x = left;
            let all: String = pieces.iter().map(|p| &*p.1).collect();
            let natural: f64 = all.chars().map(width).sum();
            for (i, (px, t)) in pieces.iter().enumerate() {
                ensure!(
                    if i == 0 { (px - x).abs() < eps } else { *px > x - eps },
                    "line {}: {:?} begins at {}, but there is text up to {}",
                    k,
                    t,
                    px,
                    x
                );
                x = px + t.chars().map(width).sum::<f64>();
            }
            // consume the line
            for c in all.chars() {
                while rest.peek() == Some(&'\n') {
                    rest.next();
                }
                ensure!(rest.next() == Some(c), "line {} is out of step", k);
            }
            let hard = rest.peek().map_or(true, |c| *c == '\n');
            if let (Some(a), Some(b)) = (all.chars().last(), rest.peek()) {
                ensure!(*b == '\n' || breaks(a, *b), "line {} ends between {:?} and {:?}", k, a, b);
            }
            let cs: Vec<char> = all.chars().collect();
            let single = cs.windows(2).all(|w| !breaks(w[0], w[1]));
            ensure!(single || x <= right + eps, "line {} ({:?}) ends at {}, past the margin at {}", k, all, x, right);
            if justify && !hard && !single && natural < right - left {
                ensure!((x - right).abs() < eps, "line {} ({:?}) is justified, but ends at {}, not at {}", k, all, x, right)
            }
        }
        Ok(lines.len() >= 2)
    }
}
