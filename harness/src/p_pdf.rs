//! What PDF files hold, as read by `pdfread`.
use crate::common::*;
use crate::ensure;
use crate::p_font::{gen_font, parse as parse_font};
use crate::pdfread::*;
use std::sync::Arc;
use victor::fonts::Font;
use victor::primitives::*;
use victor::text::ShapedSegment;
use victor::verif::pdf::{self, Desc, Item};

fn hexed(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.chars().filter_map(|c| c.to_digit(16)).map(|d| d as u8).collect();
    d.chunks(2).filter(|c| c.len() == 2).map(|c| c[0] * 16 + c[1]).collect()
}

// ---- objects in text form: tokens separated by white space
// i5  u7  f<bits>  n<hex>  s<hex>  x<hex>  r3  a<bits>  [ … ]  { <hex key> v … | … }  o{ … }

fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(60),
        _ => r.below(8),
    };
    let mode = r.below(4);
    (0..n)
        .map(|_| match mode {
            0 => r.below(256) as u8,
            1 => *r.pick(&[&b"()<>[]{}/%#\\\r\n\t \x0c\x00\x08"[..]]).get(r.below(19)).unwrap(),
            2 => b'a' + r.below(26) as u8,
            _ => [b'\\', b'(', b')', b'\r', b'\n', b'n', b'r', b'0', b'7', b'#', b'2', b'0', 255, 127, 128, 11][r.below(16)],
        })
        .collect()
}

fn gen_float(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => f32::from_bits(r.next() as u32),
        1 => *&[0.0f32, -0.0, 1.0, -1.0, 0.1, 1e-5, 9.99e-6, 1e20, 1e21, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.00001, 123456.789][r.below(17)],
        2 => r.range(-1000000, 1000000) as f32 / 1000.,
        3 => 10f32.powi(r.range(-45, 38) as i32) * (r.below(1000) as f32 / 100.),
        _ => r.range(-3000, 3000) as f32 / 4.,
    }
}

fn gen_object(r: &mut Rng, o: &mut String, depth: usize) {
    let k = r.below(if depth == 0 { 9 } else { 14 });
    match k {
        0 | 1 => {
            let v = [r.next() as i32 as i64, r.range(-300, 300), i32::min_value() as i64, i32::max_value() as i64, 0][r.below(5)];
            *o += &format!("i{} ", v)
        }
        2 => *o += &format!("u{} ", [r.next(), r.below(300) as u64, u64::max_value(), 0, 1 << 32, 4294967295][r.below(6)]),
        3 => *o += &format!("f{} ", gen_float(r).to_bits()),
        4 => *o += &format!("n{} ", hexed(&gen_bytes(r))),
        5 => *o += &format!("s{} ", hexed(&gen_bytes(r))),
        6 => *o += &format!("x{} ", hexed(&gen_bytes(r))),
        7 => *o += &format!("r{} ", [1, r.below(100000) as u32, 4294967295][r.below(3)]),
        8 => *o += &format!("a{} ", gen_float(r).to_bits()),
        9 | 10 => {
            *o += "[ ";
            for _ in 0..r.below(6) {
                gen_object(r, o, depth - 1)
            }
            *o += "] "
        }
        11 | 12 => {
            *o += "{ ";
            gen_pairs(r, o, depth - 1, true);
            *o += "} "
        }
        _ => {
            *o += "o{ ";
            gen_pairs(r, o, depth - 1, false);
            *o += "} "
        }
    }
}
fn gen_pairs(r: &mut Rng, o: &mut String, depth: usize, links: bool) {
    for _ in 0..r.below(5) {
        if links && r.chance(20) {
            *o += "| "
        }
        *o += &format!("k{} ", hexed(&gen_bytes(r)));
        gen_object(r, o, depth)
    }
}

type Words<'a> = std::iter::Peekable<std::str::SplitWhitespace<'a>>;

fn read_object(w: &mut Words) -> Option<Desc> {
    let t = w.next()?;
    let rest = &t[1..];
    Some(match &t[..1] {
        "i" => Desc::I32(rest.parse().ok()?),
        "u" => Desc::Usize(rest.parse().ok()?),
        "f" => Desc::Float(f32::from_bits(rest.parse().ok()?)),
        "n" => Desc::Name(unhex(rest)),
        "s" => Desc::Literal(unhex(rest)),
        "x" => Desc::Hex(unhex(rest)),
        "r" => Desc::Reference(rest.parse().ok()?),
        "a" => Desc::Alpha(f32::from_bits(rest.parse().ok()?)),
        "[" => {
            let mut v = Vec::new();
            while *w.peek()? != "]" {
                v.push(read_object(w)?)
            }
            w.next();
            Desc::Array(v)
        }
        "{" => Desc::Dict(read_pairs(w)?),
        "o" => Desc::Owned(read_pairs(w)?.concat()),
        _ => return None,
    })
}
fn read_pairs(w: &mut Words) -> Option<Vec<Vec<(Vec<u8>, Desc)>>> {
    let mut v = vec![Vec::new()];
    while *w.peek()? != "}" {
        let t = w.next()?;
        if t == "|" {
            v.push(Vec::new());
        } else {
            let k = unhex(t.strip_prefix_k()?);
            let o = read_object(w)?;
            v.last_mut()?.push((k, o))
        }
    }
    w.next();
    Some(v)
}
trait StripK {
    fn strip_prefix_k(&self) -> Option<&str>;
}
impl StripK for str {
    fn strip_prefix_k(&self) -> Option<&str> {
        if self.starts_with('k') {
            Some(&self[1..])
        } else {
            None
        }
    }
}

fn same_float(x: f32, v: &V) -> Result<(), String> {
    let n: f64 = v.num().ok_or_else(|| format!("the number {} reads as {:?}", x, v))?;
    if x.is_nan() {
        return Ok(());
    }
    let text = match v {
        V::Real(s) => s.clone(),
        V::Int(i) => i.to_string(),
        _ => String::new(),
    };
    let back: f32 = text.parse().map_err(|_| format!("not a number: {}", text))?;
    let x = x.max(f32::MIN).min(f32::MAX);
    ensure!(back == x && n.is_finite(), "the number {:e} reads as {}", x, text);
    Ok(())
}

fn same_pairs<'a>(d: impl Iterator<Item = &'a (Vec<u8>, Desc)>, v: &V) -> Result<(), String> {
    let p = match v {
        V::Dict(p) => p,
        _ => return Err(format!("a dictionary reads as {:?}", v)),
    };
    let mut n = 0;
    for ((k, d), i) in d.zip(0..) {
        let (kk, v) = p.get(i).ok_or("entries of a dictionary are lost")?;
        ensure!(k == kk, "the key {:?} reads as {:?}", k, kk);
        same(d, v)?;
        n += 1
    }
    ensure!(n == p.len(), "a dictionary of {} entries reads as one of {}", n, p.len());
    Ok(())
}

fn same(d: &Desc, v: &V) -> Result<(), String> {
    let wrong = || Err(format!("{:?} reads as {:?}", d, v));
    match d {
        Desc::I32(x) if *v == V::Int(*x as i64) => Ok(()),
        Desc::Usize(x) if *v == V::Int(*x as i64) && *x <= i64::max_value() as usize => Ok(()),
        Desc::Usize(x) if *v == V::Real(x.to_string()) => Ok(()),
        Desc::Float(x) => same_float(*x, v),
        Desc::Name(x) if *v == V::Name(x.clone()) => Ok(()),
        Desc::Literal(x) if *v == V::Str(x.clone()) => Ok(()),
        Desc::Hex(x) if *v == V::Str(x.clone()) => Ok(()),
        Desc::Reference(x) if *v == V::Ref(*x, 0) => Ok(()),
        Desc::Array(x) => match v {
            V::Arr(a) if a.len() == x.len() => {
                for (d, v) in x.iter().zip(a) {
                    same(d, v)?
                }
                Ok(())
            }
            _ => wrong(),
        },
        Desc::Dict(x) => same_pairs(x.iter().flatten(), v),
        Desc::Owned(x) => same_pairs(x.iter(), v),
        Desc::Alpha(x) => {
            same_float(*x, v.get("CA").ok_or("no CA")?)?;
            same_float(*x, v.get("ca").ok_or("no ca")?)
        }
        _ => wrong(),
    }
}

fn shrink_words(case: &str) -> Vec<String> {
    let lines: Vec<String> = case.lines().map(|s| s.to_owned()).collect();
    let mut out = shrink_lines(case);
    for (i, l) in lines.iter().enumerate() {
        let w: Vec<&str> = l.split(' ').filter(|w| !w.is_empty()).collect();
        let mut put = |nw: Vec<&str>| {
            let mut l = lines.clone();
            l[i] = nw.join(" ") + " ";
            out.push(l.join("\n"))
        };
        for a in 0..w.len() {
            // drop a key and value, an element, or the brackets around something
            for k in &[2, 1] {
                if a + k <= w.len() {
                    let mut x = w.clone();
                    x.drain(a..a + k);
                    put(x)
                }
            }
            if w[a] == "[" || w[a] == "{" || w[a] == "o{" {
                let mut depth = 0;
                for b in a..w.len() {
                    match w[b] {
                        "[" | "{" | "o{" => depth += 1,
                        "]" | "}" => {
                            depth -= 1;
                            if depth == 0 {
                                put([&w[..a], &w[a + 1..b], &w[b + 1..]].concat());
                                put(w[a..=b].to_vec());
                                break;
                            }
                        }
                        _ => {}
                    }
                }
            }
            if w[a].len() > 2 && "nsxk".contains(&w[a][..1]) {
                let h = format!("{}{}", &w[a][..1], &w[a][3..]);
                let mut x = w.clone();
                x[a] = &h;
                put(x);
                let h = w[a][..w[a].len() - 2].to_owned();
                let mut x = w.clone();
                x[a] = &h;
                put(x)
            }
        }
    }
    out
}

/// V08
pub struct PdfObject;
impl Prop for PdfObject {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (20_000_000, 1200) } else { (1_000_000, 40) }
    }
    fn rule(&self) -> &'static str {
        "an object that reads back the same and is not a single number"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = Vec::new();
        for b in 0..256 {
            v.push(format!("n{:02x}", b));
            v.push(format!("n61{:02x}62", b));
            v.push(format!("s{:02x}", b));
            v.push(format!("s61{:02x}0a", b));
            v.push(format!("x{:02x}", b));
            v.push(format!("[ n{:02x} n{:02x} ]", b, b));
            v.push(format!("{{ k{:02x} i1 }}", b));
            v.push(format!("o{{ k{:02x} i1 }}", b));
        }
        // every power of two, and neighbours
        for e in 0..255u32 {
            for m in &[0, 1, 0x7fffff, 0x400000] {
                v.push(format!("f{}", (e << 23) + m));
                v.push(format!("f{}", (1 << 31) + (e << 23) + m))
            }
        }
        v
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        let depth = r.below(4);
        gen_object(r, &mut o, depth);
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let mut w = case.split_whitespace().peekable();
        let d = match read_object(&mut w) {
            Some(d) if w.peek().is_none() => d,
            _ => return Ok(false),
        };
        let bytes = pdf::write_object(&d);
        let show = || String::from_utf8_lossy(&bytes).into_owned();
        let mut lx = Lexer::new(&bytes);
        let v = lx.object().map_err(|e| format!("{} in {:?}", e, show()))?;
        ensure!(lx.done(), "more than one object in {:?}", show());
        same(&d, &v).map_err(|e| format!("{} ({:?})", e, show()))?;
        Ok(match d {
            Desc::I32(_) | Desc::Usize(_) => false,
            _ => true,
        })
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink_words(case)
    }
}

/// V09: lines `stream {pairs} x<data>`, `dict {pairs}`, `basic {pairs}`
pub struct PdfFileP;
impl Prop for PdfFileP {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (5_000_000, 1000) } else { (150_000, 40) }
    }
    fn rule(&self) -> &'static str {
        "a file with at least one object beyond the basic ones"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = Vec::new();
        // numbers of objects and offsets around powers of ten
        for n in &[0usize, 1, 6, 7, 8, 96, 97, 98, 996, 997, 1000] {
            v.push(vec!["dict { }"; *n].join("\n"));
        }
        for n in &[0usize, 1, 9, 10, 11, 99, 100, 101, 700, 9700, 9990, 99800, 100000, 1000000, 10000001] {
            v.push(format!("zeros {}\ndict {{ }}\nzeros 3", n))
        }
        v.push("stream { k41 x656e6473747265616d } x0a656e6473747265616d0a656e646f626a0a".into());
        v
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        if r.chance(50) {
            for _ in 0..3 {
                o += "basic { ";
                gen_pairs(r, &mut o, 1, false);
                o += "}\n"
            }
        }
        let n = match r.below(6) {
            0 => 0,
            1 => r.below(150),
            _ => r.below(12),
        };
        for _ in 0..n {
            match r.below(5) {
                0 => o += &format!("zeros {}\n", 10usize.pow(r.below(6) as u32) + r.below(3) - 1),
                1 | 2 => {
                    o += "stream { ";
                    gen_pairs(r, &mut o, 1, true);
                    o += &format!("}} x{}\n", hexed(&gen_bytes(r)))
                }
                _ => {
                    o += "dict { ";
                    gen_pairs(r, &mut o, 1, true);
                    o += "}\n"
                }
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let mut items = Vec::new();
        let mut expected: Vec<(Vec<Vec<(Vec<u8>, Desc)>>, Option<Vec<u8>>)> = Vec::new();
        let mut basic: Vec<Vec<(Vec<u8>, Desc)>> = Vec::new();
        // references to other objects are not what is checked here, and keys that matter are ours
        fn clean(d: Vec<(Vec<u8>, Desc)>, count: usize) -> Vec<(Vec<u8>, Desc)> {
            fn fix(d: Desc, count: usize) -> Desc {
                match d {
                    Desc::Reference(n) => Desc::Reference(1 + n % (count as u32 + 3)),
                    Desc::Array(a) => Desc::Array(a.into_iter().map(|d| fix(d, count)).collect()),
                    Desc::Dict(a) => Desc::Dict(a.into_iter().map(|d| clean(d, count)).collect()),
                    Desc::Owned(a) => Desc::Owned(clean(a, count)),
                    d => d,
                }
            }
            d.into_iter().filter(|x| x.0 != b"Length").map(|(k, v)| (k, fix(v, count))).collect()
        }
        let count = case.lines().filter(|l| !l.starts_with("basic") && !l.is_empty()).count();
        for l in case.lines() {
            let mut w = l.split_whitespace().peekable();
            let kind = w.next().unwrap_or("");
            if kind == "zeros" {
                let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0).min(20_000_000);
                expected.push((vec![vec![]], Some(vec![b'0'; n])));
                items.push(Item::Stream(vec![vec![]], vec![b'0'; n]));
                continue;
            }
            if w.next() != Some("{") {
                continue;
            }
            let p = match read_pairs(&mut w) {
                Some(p) => p.into_iter().map(|d| clean(d, count)).collect::<Vec<_>>(),
                None => return Ok(false),
            };
            match kind {
                "basic" => basic.push(p.concat()),
                "stream" => {
                    let data = unhex(w.next().unwrap_or("x"));
                    expected.push((p.clone(), Some(data.clone())));
                    items.push(Item::Stream(p, data))
                }
                "dict" => {
                    expected.push((p.clone(), None));
                    items.push(Item::Dict(p))
                }
                _ => {}
            }
        }
        if expected.len() != count {
            return Ok(false);
        }
        basic.resize(3, Vec::new());
        let (ids, bytes) = pdf::write_file(&items, [&basic[0], &basic[1], &basic[2]]);
        let pdf = Pdf::load(&bytes)?;
        ensure!(
            pdf.objects.len() == ids.len() + 3,
            "{} objects in a file of {}",
            pdf.objects.len(),
            ids.len() + 3
        );
        let mut seen = std::collections::HashSet::new();
        for id in &ids {
            ensure!(seen.insert(*id) && pdf.objects.contains_key(id), "the number {} is used twice, or is missing", id)
        }
        for (id, (d, data)) in ids.iter().zip(&expected) {
            let (v, s) = &pdf.objects[id];
            ensure!(s == data, "the data of stream {} differ", id);
            let mut pairs: Vec<(Vec<u8>, Desc)> = d.concat();
            if let Some(data) = data {
                pairs.push((b"Length".to_vec(), Desc::Usize(data.len())))
            }
            same_pairs(pairs.iter(), v).map_err(|e| format!("object {}: {}", id, e))?
        }
        let root = match pdf.trailer.get("Root") {
            Some(V::Ref(n, _)) => *n,
            x => return Err(format!("Root is {:?}", x)),
        };
        let info = match pdf.trailer.get("Info") {
            Some(V::Ref(n, _)) => *n,
            x => return Err(format!("Info is {:?}", x)),
        };
        ensure!(root != info && !ids.contains(&root) && !ids.contains(&info), "Root {} and Info {}", root, info);
        same_pairs(basic[1].iter(), &pdf.objects[&root].0).map_err(|e| format!("catalog: {}", e))?;
        same_pairs(basic[2].iter(), &pdf.objects[&info].0).map_err(|e| format!("information: {}", e))?;
        // the page tree has the number that pages and the catalog refer to
        same_pairs(basic[0].iter(), &pdf.objects[&1].0).map_err(|e| format!("page tree: {}", e))?;
        Ok(!ids.is_empty())
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink_words(case)
    }
}

// ---- pages

fn f(w: Option<&str>) -> f32 {
    w.and_then(|x| x.parse().ok()).unwrap_or(0.)
}

/// A font whose glyphs are known, for each seed
pub fn simple_font(seed: u64) -> String {
    let mut r = Rng::new(seed);
    let mut o = format!("upem {}\nasc 800\ndesc -200\nbbox -100 -200 900 800\n", [1000, 2048, 256, 1024][r.below(4)]);
    let n = 2 + r.below(300);
    o += &format!("glyphs {}\n", n);
    for _ in 0..1 + r.below(n) {
        o += &format!("w {}\n", r.below(2000))
    }
    o += &format!("rec 3 1 4\ns 32 126 {}\n", 65536 - 32 + 1 + r.below(2000));
    o += &format!("s 160 500 {}\ns 65535 65535 1\nname 1 1 6 F{}\norder {}\n", r.below(60000), seed, seed);
    o
}

enum Want {
    Rect([f32; 4], [f32; 4]),
    Text { at: (f32, f32), size: f32, font: Vec<u8>, codes: Vec<u16>, rgba: [f32; 4] },
}

fn close(a: f64, b: f32) -> bool {
    (a - b as f64).abs() <= 1e-3 + 1e-5 * (b as f64).abs()
}

/// V10: lines
///   page W H | color R G B A | rect X Y W H | font SLOT SEED | drop SLOT | text SLOT SIZE X Y hex(chars)
pub struct PdfPage;
impl Prop for PdfPage {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 1200) } else { (60_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a document that paints at least two things"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        for _ in 0..r.below(4) {
            o += &format!("font {} {}\n", r.below(3), r.below(5))
        }
        let num = |r: &mut Rng| match r.below(10) {
            0 => "0".to_owned(),
            1 => format!("{}", r.range(-100000, 100000)),
            2 => format!("{}", r.range(-1000000, 1000000) as f64 / 1000.),
            3 => format!("{}e-7", r.range(-50, 50)),
            _ => format!("{}", r.range(-100, 900)),
        };
        let few = 1 + r.below(6) as i64;
        let chan = |r: &mut Rng| match r.below(8) {
            0 => format!("{}", r.range(-3, 15) as f64 / 10.),
            1 => format!("{}", r.below(256) as f64 / 255.),
            2 => format!("{}", r.below(100000) as f64 / 100000.),
            3 => "1".to_owned(),
            _ => format!("{}", r.range(0, few) as f64 / few as f64),
        };
        let pages = 1 + r.below(4);
        for _ in 0..pages {
            o += &format!("page {} {}\n", [800, 1, 300, r.below(2000)][r.below(4)], [600, 0, 1000, r.below(2000)][r.below(4)]);
            let n = if r.chance(10) { 60 } else { 12 };
            for _ in 0..r.below(n) {
                match r.below(12) {
                    0..=3 => o += &format!("color {} {} {} {}\n", chan(r), chan(r), chan(r), chan(r)),
                    4 => {
                        // alphas that are close to each other
                        let k = r.below(1000) as f64 / 1000. + r.below(4) as f64 / 65535.;
                        o += &format!("color 0 0 0 {}\n", k)
                    }
                    5..=7 => o += &format!("rect {} {} {} {}\n", num(r), num(r), num(r), num(r)),
                    8 => o += &format!("font {} {}\n", r.below(3), r.below(5)),
                    9 if r.chance(30) => o += &format!("drop {}\n", r.below(3)),
                    _ => {
                        let n = r.below(8);
                        let s: String = (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect();
                        o += &format!("text {} {} {} {} x{}\n", r.below(3), 1 + r.below(40), num(r), num(r), hexed(s.as_bytes()))
                    }
                }
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let mut doc = victor::pdf::Document::new();
        let mut slots: Vec<Option<(Arc<Font>, Vec<u8>)>> = vec![None, None, None];
        let mut pages: Vec<(f32, f32, Vec<Want>)> = Vec::new();
        let lines: Vec<&str> = case.lines().collect();
        let mut i = 0;
        let fonts = |slots: &mut Vec<Option<(Arc<Font>, Vec<u8>)>>, l: &str| {
            let w: Vec<&str> = l.split(' ').collect();
            let slot = w.get(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) % 3;
            slots[slot] = None;
            if w[0] == "font" {
                let seed = w.get(2).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                let b = parse_font(&simple_font(seed)).bytes();
                slots[slot] = Some((Font::parse(b.clone()).expect("font"), b))
            }
        };
        let mut painted = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.starts_with("font") || l.starts_with("drop") {
                fonts(&mut slots, l);
                continue;
            }
            if !l.starts_with("page") {
                continue;
            }
            let mut w = l.split(' ').skip(1);
            let (pw, ph) = (f(w.next()), f(w.next()));
            let mut page = doc.add_page(Size::new(pw, ph));
            let mut want = Vec::new();
            let mut rgba = [0., 0., 0., 1.];
            while i < lines.len() && !lines[i].starts_with("page") {
                let l = lines[i];
                i += 1;
                let mut w = l.split(' ');
                match w.next().unwrap_or("") {
                    "font" | "drop" => fonts(&mut slots, l),
                    "color" => {
                        rgba = [f(w.next()), f(w.next()), f(w.next()), f(w.next())];
                        page.set_color(&RGBA(rgba[0], rgba[1], rgba[2], rgba[3]));
                    }
                    "rect" => {
                        let r = [f(w.next()), f(w.next()), f(w.next()), f(w.next())];
                        page.paint_rectangle(&rect(r[0], r[1], r[2], r[3]));
                        want.push(Want::Rect(r, rgba));
                        painted += 1;
                    }
                    "text" => {
                        let slot = w.next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) % 3;
                        let (size, x, y) = (f(w.next()), f(w.next()), f(w.next()));
                        let s: String = unhex(w.next().unwrap_or("")).iter().map(|b| *b as char).collect();
                        if let Some((font, bytes)) = &slots[slot] {
                            let seg = ShapedSegment::naive_shape(&s, font.clone()).map_err(|e| format!("{:?}", e))?;
                            page.show_text(&TextRun { segment: &seg, font_size: Length::new(size), origin: point(x, y) })
                                .map_err(|e| format!("{:?}", e))?;
                            want.push(Want::Text {
                                at: (x, y),
                                size,
                                font: bytes.clone(),
                                codes: victor::verif::text::glyphs(&seg),
                                rgba,
                            });
                            painted += 1;
                        }
                    }
                    _ => {}
                }
            }
            drop(page);
            pages.push((pw, ph, want));
        }
        if pages.is_empty() {
            return Ok(false);
        }
        let pdf = Pdf::load(&doc.write_to_pdf_bytes())?;
        let got = pdf.pages()?;
        ensure!(got.len() == pages.len(), "{} pages, not {}", got.len(), pages.len());
        for (n, (p, (w, h, want))) in got.iter().zip(&pages).enumerate() {
            ensure!(close(p.width, *w) && close(p.height, *h), "page {} is {} × {}, not {} × {}", n, p.width, p.height, w, h);
            ensure!(p.ops.len() == want.len(), "page {} paints {} things, not {}: {:?}", n, p.ops.len(), want.len(), p.ops);
            for (k, (op, want)) in p.ops.iter().zip(want).enumerate() {
                let place = format!("page {}, item {}", n, k);
                let (grgb, galpha, rgba) = match (op, want) {
                    (Op::Rect { x, y, w, h, rgb, alpha }, Want::Rect(r, c)) => {
                        ensure!(
                            close(*x, r[0]) && close(*y, r[1]) && close(*w, r[2]) && close(*h, r[3]),
                            "{}: rectangle {:?}, not {:?}",
                            place,
                            (x, y, w, h),
                            r
                        );
                        (rgb, alpha, c)
                    }
                    (Op::Text { x, y, size, font, codes, rgb, alpha }, Want::Text { at, size: s, font: b, codes: cs, rgba: c }) => {
                        ensure!(
                            close(*x, at.0) && close(*y, at.1) && close(*size, *s),
                            "{}: text at {:?} in size {}, not at {:?} in size {}",
                            place,
                            (x, y),
                            size,
                            at,
                            s
                        );
                        ensure!(codes == cs, "{}: glyphs {:?}, not {:?}", place, codes, cs);
                        let info = pdf.font(*font)?;
                        ensure!(info.file == *b, "{}: another font than was asked for", place);
                        (rgb, alpha, c)
                    }
                    _ => return Err(format!("{}: {:?} is not what was asked for", place, op)),
                };
                for i in 0..3 {
                    let x = rgba[i].max(0.).min(1.);
                    ensure!((grgb[i] - x as f64).abs() < 1e-6, "{}: color {:?}, not {:?}", place, grgb, rgba);
                }
                let a = rgba[3].max(0.).min(1.) as f64;
                ensure!((galpha - a).abs() < 1.6 / 65535., "{}: alpha {}, not {}", place, galpha, a);
            }
        }
        Ok(painted >= 2)
    }
}

/// V11
pub struct PdfText;
impl Prop for PdfText {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (2_000_000, 1500) } else { (40_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a font with at least one character, whose text is shown"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec!["vera\n".to_owned()];
        // numbers of characters around the size of a block
        for n in &[0, 1, 2, 98, 99, 100, 101, 199, 200, 201, 300, 301] {
            v.push(format!("upem 1000\nglyphs 400\nw 500\nw 600\nrec 3 1 4\ns 40 {} {}\ns 65535 65535 1\nname 1 1 6 F\n", 39 + n, 65536 - 39));
            v.push(format!("upem 1000\nglyphs 400\nw 500\nw 600\nrec 3 10 12\ng 65536 {} 7\nname 1 1 6 F\n", 65535 + n));
        }
        v.into_iter().map(|s| s.replace("s 40 39 65497\n", "").replace("g 65536 65535 7\n", "")).collect()
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = gen_font(r, true);
        // few fonts with very many glyphs
        if r.chance(95) {
            o += &format!("glyphs {}\n", r.below(400))
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let mut d = parse_font(case);
        let mut r = Rng::new(case.len() as u64);
        if d.vera {
            let bytes = d.bytes();
            let font = Font::parse(bytes.clone()).map_err(|e| format!("{:?}", e))?;
            let pairs = victor::verif::font::pairs(&font, 1 << 20).map_err(|e| format!("{:?}", e))?;
            let chars: Vec<char> = pairs.iter().map(|p| p.0).take(200).collect();
            let pdf = shown(&font, &chars)?;
            return texts(&pdf, &font, &bytes, &chars, &pairs);
        }
        if !d.selected().map_or(false, |s| s.in_order()) || d.widths.is_empty() {
            return Ok(false);
        }
        d.glyphs = d.glyphs.min(3000);
        let bytes = d.bytes();
        let font = match Font::parse(bytes.clone()) {
            Ok(f) => f,
            Err(_) => return Ok(false),
        };
        let pairs = d.selected().unwrap().pairs();
        let mut chars = Vec::new();
        for _ in 0..20 {
            if !pairs.is_empty() {
                chars.push(pairs[r.below(pairs.len())].0)
            }
            chars.push(std::char::from_u32(r.below(0xD000) as u32).unwrap())
        }
        let pdf = shown(&font, &chars)?;
        // what the description says, not what is read back
        let got = texts(&pdf, &font, &bytes, &chars, &pairs)?;
        let info = pdf.font(the_font(&pdf)?)?;
        for g in 0..d.glyphs as usize {
            let w = d.widths[g.min(d.widths.len() - 1)] as f64 * 1000. / d.upem as f64;
            let x = info.widths.get(&(g as i64)).cloned().unwrap_or(info.default_width);
            ensure!((w - x).abs() <= 1. + w * 1e-5, "glyph {} has width {}, not {}", g, x, w)
        }
        let em = |v: i16| v as f64 * 1000. / d.upem as f64;
        let near = |x: f64, v: i16| (x - em(v)).abs() <= 1. + em(v).abs() * 1e-5;
        ensure!(near(info.ascent, d.asc) && near(info.descent, d.desc), "ascent {} and descent {}", info.ascent, info.descent);
        for i in 0..4 {
            ensure!(near(info.bbox[i], d.bbox[i]), "bounding box {:?}, not {:?}", info.bbox, d.bbox)
        }
        ensure!(info.base == d.name().unwrap().as_bytes(), "name {:?}", info.base);
        Ok(got)
    }
}

fn shown(font: &Arc<Font>, chars: &[char]) -> Result<Pdf, String> {
    let s: String = chars.iter().collect();
    let seg = ShapedSegment::naive_shape(&s, font.clone()).map_err(|e| format!("{:?}", e))?;
    let mut doc = victor::pdf::Document::new();
    doc.add_page(Size::new(100., 100.))
        .show_text(&TextRun { segment: &seg, font_size: Length::new(10.), origin: point(1., 2.) })
        .map_err(|e| format!("{:?}", e))?;
    Pdf::load(&doc.write_to_pdf_bytes())
}

fn the_font(pdf: &Pdf) -> Result<u32, String> {
    match pdf.pages()?.get(0).and_then(|p| p.ops.get(0)) {
        Some(Op::Text { font, .. }) => Ok(*font),
        _ => Err("no text on the page".into()),
    }
}

fn texts(pdf: &Pdf, font: &Arc<Font>, bytes: &[u8], chars: &[char], pairs: &[(char, u16)]) -> Result<bool, String> {
    let pages = pdf.pages()?;
    let map: std::collections::HashMap<char, u16> = pairs.iter().cloned().collect();
    let expected: Vec<u16> = chars.iter().map(|c| map.get(c).cloned().unwrap_or(0)).collect();
    match &pages[0].ops[..] {
        [Op::Text { codes, .. }] => ensure!(*codes == expected, "the codes {:?}, not {:?}", codes, expected),
        x => return Err(format!("not one text: {:?}", x)),
    }
    let info = pdf.font(the_font(pdf)?)?;
    ensure!(info.file == bytes && font.bytes() == bytes, "the embedded font file differs");
    let mut by_glyph: std::collections::HashMap<u16, Vec<&str>> = Default::default();
    for (g, u) in &info.to_unicode {
        by_glyph.entry(*g).or_default().push(u)
    }
    for (g, us) in &by_glyph {
        for u in us {
            let mut c = u.chars();
            let c = match (c.next(), c.next()) {
                (Some(c), None) => c,
                _ => return Err(format!("glyph {} maps to {:?}", g, u)),
            };
            ensure!(map.get(&c) == Some(g), "glyph {} maps back to U+{:04X}, which selects {:?}", g, c as u32, map.get(&c));
        }
    }
    for (c, g) in pairs {
        ensure!(by_glyph.contains_key(g), "glyph {} of U+{:04X} does not map back to any character", g, *c as u32)
    }
    Ok(!pairs.is_empty())
}
