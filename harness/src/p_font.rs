//! Fonts that are built from a description, and what must be read from them.
//!
//! A description has one item per line:
//!   scaler N | upem N | asc N | desc N | bbox A B C D | glyphs N
//!   w N                      a record of the metrics table
//!   wmore                    bytes after the metrics records
//!   rec P E F                an encoding record of the cmap table, with a subtable of format F
//!   s A B DELTA              (format 4) a segment without glyph array
//!   a A B DELTA G G G …      (format 4) a segment with glyph array
//!   g A B GLYPH              (format 12) a group
//!   name P E ID TEXT         a naming record
//!   t TAG LEN                another table
//!   drop TAG                 this table is missing
//!   order N                  the order of the tables in the file
//!   vera                     the bundled font instead
//!   m OFFSET VALUE | m4 OFFSET VALUE | cut N | add N      changes to the bytes
use crate::common::*;
use crate::ensure;
use std::collections::BTreeMap;
use victor::fonts::Font;
use victor::verif::font as vf;

#[derive(Default, Clone, Debug)]
pub struct Sub {
    platform: u16,
    encoding: u16,
    format: u16,
    segments: Vec<(u16, u16, u16, Option<Vec<u16>>)>,
    groups: Vec<(u32, u32, u32)>,
}
#[derive(Default, Clone, Debug)]
pub struct Desc {
    pub scaler: u32,
    pub upem: u16,
    pub asc: i16,
    pub desc: i16,
    pub bbox: [i16; 4],
    pub glyphs: u16,
    pub widths: Vec<u16>,
    wmore: bool,
    pub subs: Vec<Sub>,
    names: Vec<(u16, u16, u16, String)>,
    extra: Vec<(String, usize)>,
    dropped: Vec<String>,
    order: u64,
    pub vera: bool,
    changes: Vec<(u8, u64, u64)>,
}

fn num(s: Option<&str>) -> i64 {
    s.and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn parse(case: &str) -> Desc {
    let mut d = Desc { scaler: 0x10000, upem: 1000, ..Desc::default() };
    for line in case.lines() {
        let mut w = line.split(' ');
        let k = w.next().unwrap_or("");
        match k {
            "scaler" => d.scaler = num(w.next()) as u32,
            "upem" => d.upem = num(w.next()) as u16,
            "asc" => d.asc = num(w.next()) as i16,
            "desc" => d.desc = num(w.next()) as i16,
            "bbox" => {
                for i in 0..4 {
                    d.bbox[i] = num(w.next()) as i16
                }
            }
            "glyphs" => d.glyphs = num(w.next()) as u16,
            "w" => d.widths.push(num(w.next()) as u16),
            "wmore" => d.wmore = true,
            "rec" => d.subs.push(Sub {
                platform: num(w.next()) as u16,
                encoding: num(w.next()) as u16,
                format: num(w.next()) as u16,
                ..Sub::default()
            }),
            "s" | "a" => {
                let (a, b, delta) = (num(w.next()) as u16, num(w.next()) as u16, num(w.next()) as u16);
                let array = if k == "a" { Some(w.map(|x| num(Some(x)) as u16).collect()) } else { None };
                if let Some(s) = d.subs.last_mut() {
                    s.segments.push((a, b, delta, array))
                }
            }
            "g" => {
                let g = (num(w.next()) as u32, num(w.next()) as u32, num(w.next()) as u32);
                if let Some(s) = d.subs.last_mut() {
                    s.groups.push(g)
                }
            }
            "name" => d.names.push((
                num(w.next()) as u16,
                num(w.next()) as u16,
                num(w.next()) as u16,
                w.next().unwrap_or("").to_owned(),
            )),
            "t" => d.extra.push((w.next().unwrap_or("").to_owned(), num(w.next()) as usize)),
            "drop" => d.dropped.push(w.next().unwrap_or("").to_owned()),
            "order" => d.order = num(w.next()) as u64,
            "vera" => d.vera = true,
            "m" => d.changes.push((1, num(w.next()) as u64, num(w.next()) as u64)),
            "m4" => d.changes.push((4, num(w.next()) as u64, num(w.next()) as u64)),
            "cut" => d.changes.push((0, num(w.next()) as u64, 0)),
            "add" => d.changes.push((2, num(w.next()) as u64, 0)),
            _ => {}
        }
    }
    d.subs.sort_by_key(|s| (s.platform, s.encoding));
    d
}

fn p16(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_be_bytes())
}
fn p32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_be_bytes())
}

impl Sub {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        p16(&mut o, self.format);
        match self.format {
            4 => {
                let n = self.segments.len() as u16;
                for v in &[0x1111, 0, n * 2, 0x2222, 0x3333, 0x4444] {
                    p16(&mut o, *v)
                }
                for s in &self.segments {
                    p16(&mut o, s.1)
                }
                p16(&mut o, 0x5555);
                for s in &self.segments {
                    p16(&mut o, s.0)
                }
                for s in &self.segments {
                    p16(&mut o, s.2)
                }
                let mut arrays = Vec::new();
                for (i, s) in self.segments.iter().enumerate() {
                    match &s.3 {
                        None => p16(&mut o, 0),
                        Some(a) => {
                            p16(&mut o, (2 * (n as usize - i) + 2 * arrays.len()) as u16);
                            arrays.extend_from_slice(a);
                        }
                    }
                }
                for v in arrays {
                    p16(&mut o, v)
                }
            }
            12 => {
                p16(&mut o, 0);
                p32(&mut o, 0x77777777);
                p32(&mut o, 0);
                p32(&mut o, self.groups.len() as u32);
                for g in &self.groups {
                    p32(&mut o, g.0);
                    p32(&mut o, g.1);
                    p32(&mut o, g.2);
                }
            }
            _ => o.extend_from_slice(&[7; 40]),
        }
        o
    }

    /// the glyph of a character; 0: none
    pub fn glyph(&self, c: u32) -> u16 {
        if self.format == 4 {
            for (a, b, delta, array) in &self.segments {
                if *a as u32 <= c && c <= *b as u32 {
                    return match array {
                        None => (c as u16).wrapping_add(*delta),
                        Some(v) => match v[(c - *a as u32) as usize] {
                            0 => 0,
                            g => g.wrapping_add(*delta),
                        },
                    };
                }
            }
        } else {
            for (a, b, g) in &self.groups {
                if *a <= c && c <= *b {
                    let id = *g as u64 + (c - *a) as u64;
                    return if id <= 0xFFFF { id as u16 } else { 0 };
                }
            }
        }
        0
    }

    /// segments and groups are in order, and glyph arrays are complete
    pub fn in_order(&self) -> bool {
        if self.format == 4 {
            self.segments.iter().all(|s| s.0 <= s.1 && s.3.as_ref().map_or(true, |a| a.len() == (s.1 - s.0) as usize + 1))
                && self.segments.windows(2).all(|w| w[0].1 < w[1].0)
                && 2 * self.segments.iter().map(|s| s.3.as_ref().map_or(0, |a| a.len())).sum::<usize>() + 2 * self.segments.len() < 60000
        } else {
            self.groups.iter().all(|s| s.0 <= s.1) && self.groups.windows(2).all(|w| w[0].1 < w[1].0)
        }
    }
    pub fn edges(&self) -> Vec<u32> {
        let mut v = Vec::new();
        for s in &self.segments {
            v.extend_from_slice(&[s.0 as u32, s.1 as u32])
        }
        for s in &self.groups {
            v.extend_from_slice(&[s.0, s.1])
        }
        v
    }
}

impl Desc {
    pub fn selected(&self) -> Option<&Sub> {
        self.subs
            .iter()
            .rev()
            .find(|s| s.platform == 3 && ((s.encoding == 1 && s.format == 4) || (s.encoding == 10 && s.format == 12)))
    }

    fn tables(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let mut t = BTreeMap::new();
        for (tag, n) in &self.extra {
            if tag.len() == 4 {
                t.insert(tag.clone().into_bytes(), vec![0xEE; *n]);
            }
        }
        let mut o = vec![0; 4];
        p16(&mut o, self.glyphs);
        o.extend_from_slice(&[9; 26]);
        t.insert(b"maxp".to_vec(), o);

        let mut o = vec![1; 18];
        p16(&mut o, self.upem);
        o.extend_from_slice(&[2; 16]);
        for v in &self.bbox {
            p16(&mut o, *v as u16)
        }
        o.extend_from_slice(&[3; 10]);
        t.insert(b"head".to_vec(), o);

        let mut o = vec![4; 4];
        p16(&mut o, self.asc as u16);
        p16(&mut o, self.desc as u16);
        o.extend_from_slice(&[5; 26]);
        p16(&mut o, self.widths.len() as u16);
        t.insert(b"hhea".to_vec(), o);

        let mut o = vec![];
        for v in &self.widths {
            p16(&mut o, *v);
            p16(&mut o, 0x6666);
        }
        if self.wmore {
            o.extend_from_slice(&[8; 200]);
        }
        t.insert(b"hmtx".to_vec(), o);

        let mut o = vec![0; 2];
        p16(&mut o, self.subs.len() as u16);
        let mut at = 4 + 8 * self.subs.len();
        let subs: Vec<_> = self.subs.iter().map(Sub::bytes).collect();
        for (s, b) in self.subs.iter().zip(&subs) {
            p16(&mut o, s.platform);
            p16(&mut o, s.encoding);
            p32(&mut o, at as u32);
            at += b.len();
        }
        for b in subs {
            o.extend(b)
        }
        t.insert(b"cmap".to_vec(), o);

        let mut o = vec![0; 2];
        p16(&mut o, self.names.len() as u16);
        // some bytes before the strings
        p16(&mut o, (6 + 12 * self.names.len() + 3) as u16);
        let mut strings = Vec::new();
        for (p, e, id, text) in &self.names {
            let b: Vec<u8> = if *p == 1 {
                text.clone().into_bytes()
            } else {
                text.encode_utf16().flat_map(|c| c.to_be_bytes().to_vec()).collect()
            };
            for v in &[*p, *e, 0x0409, *id, b.len() as u16, strings.len() as u16] {
                p16(&mut o, *v)
            }
            strings.extend(b);
        }
        o.extend_from_slice(&[0x41; 3]);
        o.extend(strings);
        t.insert(b"name".to_vec(), o);
        for d in &self.dropped {
            t.remove(d.as_bytes());
        }
        t
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut o;
        if self.vera {
            o = include_bytes!("/repo/victor/fonts/vera/Vera.ttf").to_vec()
        } else {
            let t = self.tables();
            o = Vec::new();
            p32(&mut o, self.scaler);
            p16(&mut o, t.len() as u16);
            o.extend_from_slice(&[0xAA; 6]);
            let mut order: Vec<_> = t.keys().cloned().collect();
            let mut rng = Rng::new(self.order);
            for i in 0..order.len() {
                let j = rng.below(i + 1);
                order.swap(i, j)
            }
            let mut at = 12 + 16 * t.len();
            let mut offsets = BTreeMap::new();
            for k in &order {
                offsets.insert(k.clone(), at);
                at += t[k].len();
            }
            for (k, v) in &t {
                o.extend(k);
                p32(&mut o, 0xBBBBBBBB);
                p32(&mut o, offsets[k] as u32);
                p32(&mut o, v.len() as u32);
            }
            for k in &order {
                o.extend(&t[k])
            }
        }
        for &(k, at, v) in &self.changes {
            let n = o.len() as u64;
            match k {
                0 => o.truncate((at % (n + 1)) as usize),
                2 => o.extend(std::iter::repeat(0).take(at as usize % 100)),
                1 if n > 0 => o[(at % n) as usize] = v as u8,
                4 if n >= 4 => {
                    let p = (at % (n - 3)) as usize;
                    o[p..p + 4].copy_from_slice(&(v as u32).to_be_bytes())
                }
                _ => {}
            }
        }
        o
    }

    /// the name that is read
    pub fn name(&self) -> Option<String> {
        self.names.iter().find(|n| n.2 == 6 && (n.0 == 1 || (n.0 == 3 && n.1 == 1))).map(|n| {
            if n.0 == 1 {
                n.3.clone()
            } else {
                n.3.encode_utf16().map(|c| if c < 256 { c as u8 as char } else { '\u{FFFD}' }).collect()
            }
        })
    }
}

fn gen_sub(r: &mut Rng, o: &mut String, p: u16, e: u16, f: u16) {
    *o += &format!("rec {} {} {}\n", p, e, f);
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(300),
        3 => 2,
        _ => r.below(12),
    };
    let mut at: u64 = r.below(4) as u64 * 20;
    if f == 4 {
        let mut arrays = 0;
        let step = if n > 30 { 150 } else { 60 * r.range(1, 60) as usize };
        for _ in 0..n {
            let a = at + if r.chance(20) { 0 } else { r.below(step) as u64 };
            let len = match r.below(5) {
                0 => 0,
                1 => r.below(200) as u64,
                _ => r.below(10) as u64,
            };
            let mut b = a + len;
            if r.chance(2) {
                b = a + r.below(30000) as u64
            }
            if b > 0xFFFE {
                break;
            }
            let delta = match r.below(4) {
                0 => 0,
                1 => r.below(65536) as u64,
                2 => (65536 - a) & 0xFFFF,
                _ => (65536 + r.below(300) as u64 - a) & 0xFFFF,
            };
            if b - a < 300 && arrays + (b - a) < 6000 && r.chance(40) {
                arrays += b - a + 1;
                *o += &format!("a {} {} {}", a, b, if r.chance(50) { 0 } else { delta });
                for _ in a..=b {
                    *o += &format!(" {}", if r.chance(20) { 0 } else { r.below(65536) });
                }
                *o += "\n";
            } else {
                *o += &format!("s {} {} {}\n", a, b, delta);
            }
            at = b + 1;
        }
        match r.below(4) {
            0 => {}
            1 => *o += &format!("a 65535 65535 1 {}\n", r.below(3)),
            _ => *o += &format!("s 65535 65535 {}\n", if r.chance(80) { 1 } else { 2 }),
        }
    } else if f == 12 {
        for _ in 0..n {
            let a = at
                + match r.below(8) {
                    0 => 0,
                    1 => r.below(100000) as u64,
                    2 => r.below(20000) as u64,
                    _ => r.below(50) as u64,
                };
            let mut b = a + match r.below(5) { 0 => 0, 1 => r.below(300) as u64, _ => r.below(20) as u64 };
            if r.chance(3) {
                b = a + r.below(70000) as u64
            }
            if r.chance(1) {
                b = 0xFFFF_FFFF
            }
            if b > 0xFFFF_FFFF || a > b {
                break;
            }
            let g = match r.below(10) {
                0 => r.next() & 0xFFFF_FFFF,
                1 => 65530 + r.below(10) as u64,
                2 => 0,
                _ => r.below(60000) as u64,
            };
            *o += &format!("g {} {} {}\n", a, b, g);
            at = b + 1;
        }
    }
}

pub fn gen_font(r: &mut Rng, cmap: bool) -> String {
    let mut o = String::new();
    let i16s = |r: &mut Rng| match r.below(4) {
        0 => r.range(-32768, 32767),
        1 => r.range(-300, 300),
        2 => *&[0, -1, 255, 256, -256, -32768, 32767][r.below(7)],
        _ => r.range(-2000, 2000),
    };
    o += &format!("upem {}\n", [1000, 2048, 1, 65535, 256, 255, 16, 1024, r.range(1, 65535)][r.below(9)]);
    o += &format!("asc {}\ndesc {}\n", i16s(r), i16s(r));
    o += &format!("bbox {} {} {} {}\n", i16s(r), i16s(r), i16s(r), i16s(r));
    o += &format!("glyphs {}\n", r.below(65536));
    if r.chance(20) {
        o += &format!("scaler {}\n", 0x74727565)
    }
    if r.chance(3) {
        o += &format!("scaler {}\n", [0x4F54544Fu32, 0, 0x10001, 0x65757274][r.below(4)])
    }
    let nw = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(400),
        _ => r.below(20),
    };
    for _ in 0..nw {
        o += &format!("w {}\n", if r.chance(50) { r.below(3000) } else { r.below(65536) })
    }
    if r.chance(50) {
        o += "wmore\n"
    }
    let kinds: [(u16, u16, u16); 9] =
        [(3, 1, 4), (3, 10, 12), (0, 3, 4), (1, 0, 0), (3, 0, 4), (3, 1, 12), (3, 10, 4), (0, 4, 12), (3, 1, 6)];
    let ns = if cmap { 1 + r.below(4) } else { 1 };
    for i in 0..ns {
        let k = if i == 0 && r.chance(95) { kinds[r.below(2)] } else { kinds[r.below(9)] };
        gen_sub(r, &mut o, k.0, k.1, k.2);
    }
    for _ in 0..r.below(4) {
        let p = [1, 3, 0, 3][r.below(4)];
        let e = if r.chance(70) { (p == 3) as u16 } else { r.below(12) as u16 };
        let id = if r.chance(50) { 6 } else { r.below(12) };
        let text = r.pick(&["Foo", "A", "", "Bar-Bold", "Caf\u{e9}", "x\u{416}y"]).to_owned();
        o += &format!("name {} {} {} {}\n", p, e, id, if p == 1 { "Mac-Name" } else { &*text });
    }
    if r.chance(93) {
        o += &format!("name {} {} 6 {}\n", if r.chance(50) { 1 } else { 3 }, 1, "Fallback")
    }
    for _ in 0..r.below(12) {
        let tag = r.pick(&[
            "OS/2", "GSUB", "GPOS", "post", "glyf", "loca", "cvt ", "zzzz", "aaaa", "kern", "gasp", "hdmx", "hmtw", "hmty", "nama", "namf", "cmaq",
            "maxo", "maxq", "heac", "heae", "hhez", "prep", "fpgm",
        ]);
        o += &format!("t {} {}\n", tag.replace(' ', "_"), r.below(60));
    }
    if r.chance(6) {
        o += &format!("drop {}\n", r.pick(&["cmap", "name", "maxp", "head", "hhea", "hmtx"]));
    }
    o += &format!("order {}\n", r.below(1000));
    o
}

fn describe<T>(r: Result<T, victor::fonts::FontError>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

pub fn loaded(d: &Desc) -> Result<Option<std::sync::Arc<Font>>, String> {
    let must_fail = (d.scaler != 0x74727565 && d.scaler != 0x10000)
        || d.dropped.iter().any(|t| ["cmap", "name", "maxp", "head", "hhea", "hmtx"].contains(&&**t))
        || d.selected().is_none()
        || d.name().is_none();
    match Font::parse(d.bytes()) {
        Ok(f) => {
            ensure!(!must_fail, "a font without what is needed was accepted");
            Ok(Some(f))
        }
        Err(e) => {
            ensure!(must_fail, "a well-formed font was refused: {:?}", e);
            Ok(None)
        }
    }
}

/// V04
pub struct FontCmap;
impl Prop for FontCmap {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 1500) } else { (150_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a font whose character map has at least one segment or group"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        gen_font(r, true)
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let d = parse(case);
        let sub = match d.selected() {
            Some(s) if s.in_order() => s.clone(),
            Some(_) => return Ok(false),
            None => {
                loaded(&d)?;
                return Ok(false);
            }
        };
        let f = match loaded(&d)? {
            Some(f) => f,
            None => return Ok(false),
        };
        let mut chars: Vec<u32> = vec![0, 1, 32, 65, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000];
        for e in sub.edges() {
            for x in e.saturating_sub(2)..=e.saturating_add(2) {
                chars.push(x)
            }
        }
        let mut r = Rng::new(case.len() as u64);
        for e in sub.edges().chunks(2) {
            for _ in 0..3 {
                chars.push(e[0] + (r.next() % (e[1] as u64 - e[0] as u64 + 1)) as u32)
            }
        }
        for _ in 0..50 {
            chars.push(r.below(0x110000) as u32)
        }
        for c in chars {
            if let Some(ch) = std::char::from_u32(c) {
                let g = describe(vf::glyph_id(&f, ch))?;
                ensure!(g == sub.glyph(c), "character U+{:04X} has glyph {}, not {}", c, g, sub.glyph(c));
            }
        }
        let mut pairs = describe(vf::pairs(&f, 3_000_000))?;
        let edges = sub.edges();
        let mut expected = sub.pairs();
        pairs.sort();
        expected.sort();
        if pairs != expected {
            let x = pairs.iter().find(|p| expected.binary_search(p).is_err());
            let y = expected.iter().find(|p| pairs.binary_search(p).is_err());
            return Err(format!(
                "enumerating the map gives {} pairs, not {}; wrongly has {:?}, lacks {:?}",
                pairs.len(),
                expected.len(),
                x,
                y
            ));
        }
        Ok(!edges.is_empty())
    }
}
impl Sub {
    /// every character that has a glyph; segments and groups do not overlap
    pub fn pairs(&self) -> Vec<(char, u16)> {
        let mut expected = Vec::new();
        for e in self.edges().chunks(2) {
            for c in e[0]..=e[1].min(0x10FFFF) {
                if let Some(ch) = std::char::from_u32(c) {
                    let g = self.glyph_in(e[0], c);
                    if g != 0 {
                        expected.push((ch, g))
                    }
                }
            }
        }
        expected
    }
    /// like `glyph`, given the start of the segment or group
    fn glyph_in(&self, start: u32, c: u32) -> u16 {
        let one = if self.format == 4 {
            let i = self.segments.binary_search_by_key(&(start as u16), |s| s.0).unwrap();
            Sub { segments: vec![self.segments[i].clone()], format: 4, ..Sub::default() }
        } else {
            let i = self.groups.binary_search_by_key(&start, |s| s.0).unwrap();
            let g = self.groups[i];
            let id = g.2 as u64 + (c - g.0) as u64;
            return if id <= 0xFFFF { id as u16 } else { 0 };
        };
        one.glyph(c)
    }
}

/// V05
pub struct FontMetrics;
impl Prop for FontMetrics {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (4_000_000, 1000) } else { (300_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a font that is accepted and has advance widths"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        gen_font(r, false)
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let d = parse(case);
        if !d.selected().map_or(true, Sub::in_order) {
            return Ok(false);
        }
        let f = match loaded(&d)? {
            Some(f) => f,
            None => return Ok(false),
        };
        ensure!(vf::glyph_count(&f) == d.glyphs, "{} glyphs, not {}", vf::glyph_count(&f), d.glyphs);
        ensure!(vf::name(&f) == d.name().unwrap(), "the name {:?}, not {:?}", vf::name(&f), d.name());
        let e = |v: i16| v as f32 / d.upem as f32;
        let expected = [e(d.asc), e(d.desc), e(d.bbox[0]), e(d.bbox[1]), e(d.bbox[2]), e(d.bbox[3])];
        let got = vf::metrics(&f);
        for i in 0..6 {
            let what = ["ascender", "descender", "min_x", "min_y", "max_x", "max_y"][i];
            ensure!((got[i] - expected[i]).abs() <= 1e-4 * expected[i].abs(), "{} {} em, not {}", what, got[i], expected[i]);
        }
        let n = d.widths.len();
        let mut glyphs: Vec<usize> = (0..n.min(40) + 3).collect();
        glyphs.extend_from_slice(&[n.saturating_sub(2), n.saturating_sub(1), n, n + 1, 65535, d.glyphs as usize, 40000, 255, 256, 257]);
        for g in glyphs {
            match vf::glyph_width(&f, g as u16) {
                Ok(w) => {
                    ensure!(n > 0, "glyph {} of a font without widths has width {}", g, w);
                    let x = d.widths[g.min(n - 1)] as f32 / d.upem as f32;
                    ensure!((w - x).abs() <= 1e-4 * x, "glyph {} has width {} em, not {}", g, w, x);
                }
                Err(e) => ensure!(n == 0, "no width for glyph {}: {:?}", g, e),
            }
        }
        ensure!(f.bytes() == &*d.bytes(), "the bytes of the font are not those that were given");
        Ok(n > 0)
    }
}

/// V03
pub struct FontBytes;
impl Prop for FontBytes {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (20_000_000, 1500) } else { (400_000, 60) }
    }
    fn rule(&self) -> &'static str {
        "a changed font file that is still accepted"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec!["vera".to_owned(), "vera\ncut 0".to_owned()];
        for i in 0..64 {
            v.push(format!("upem 1000\nrec 3 1 4\ns 32 90 1\ns 65535 65535 1\nname 1 1 6 F\nw 500\nw 600\ncut {}", i * 7));
        }
        v
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o;
        if r.chance(15) {
            o = "vera\n".to_owned()
        } else {
            o = gen_font(r, true);
            if r.chance(10) {
                // segments that are out of order or overlap
                let a = r.below(65536);
                o += &format!("{} {} {} {} 5 6\n", r.pick(&["s", "a"]), a, r.below(65536), r.below(65536));
                o += &format!("g {} {} {}\n", r.next() as u32 >> r.below(32), r.next() as u32 >> r.below(32), r.next() as u32 >> r.below(32));
            }
        }
        // a place in the header and directory, or near the start of a table
        let bytes = parse(&o).bytes();
        let n = bytes.len();
        let tables = u16::from_be_bytes([bytes[4], bytes[5]]) as usize;
        for _ in 0..1 + r.below(4) {
            let at = match r.below(5) {
                0 => r.below(12 + 16 * tables),
                1 => r.below(n),
                _ => {
                    let e = 12 + 16 * r.below(tables.max(1)) + 8;
                    if e + 4 > n {
                        r.below(n)
                    } else {
                        let t = u32::from_be_bytes([bytes[e], bytes[e + 1], bytes[e + 2], bytes[e + 3]]) as usize;
                        t + match r.below(3) { 0 => r.below(8), 1 => r.below(60), _ => r.below(400) }
                    }
                }
            };
            match r.below(12) {
                0 => o += &format!("cut {}\n", if r.chance(50) { r.below(n + 1) } else { n - r.below(n.min(40)) }),
                1 => o += &format!("add {}\n", r.below(100)),
                2 | 3 => {
                    let v = match r.below(5) {
                        0 => 0xFFFF_FFFF - r.below(20) as u32,
                        1 => n as u32 - r.below(n.min(60)) as u32,
                        2 => 0x7FFF_FFFF + r.below(3) as u32,
                        3 => r.below(100) as u32,
                        _ => (r.next() as u32) >> r.below(32),
                    };
                    o += &format!("m4 {} {}\n", if r.chance(60) { at & !3 } else { at }, v)
                }
                _ => o += &format!("m {} {}\n", at, [0, 255, 1, 127, 128, r.below(256)][r.below(6)]),
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let d = parse(case);
        let bytes = d.bytes();
        let f = match Font::parse(bytes) {
            Ok(f) => f,
            Err(_) => return Ok(false),
        };
        for c in (0..200).chain(0x2000..0x2080).chain(0xD700..0xD800).chain(0xE000..0xE100).chain(0xFF00..0x10010).chain(0x10FFF0..0x110000) {
            if let Some(ch) = std::char::from_u32(c) {
                let _ = vf::glyph_id(&f, ch);
            }
        }
        for s in &d.subs {
            for c in s.edges() {
                for c in c.saturating_sub(1)..=c.saturating_add(1) {
                    if let Some(ch) = std::char::from_u32(c) {
                        let _ = vf::glyph_id(&f, ch);
                    }
                }
            }
        }
        for g in (0..600).chain(65500..65536) {
            let _ = vf::glyph_width(&f, g as u16);
        }
        let _ = vf::metrics(&f);
        let _ = vf::name(&f);
        let _ = vf::glyph_count(&f);
        let _ = vf::pairs(&f, 100);
        Ok(true)
    }
}
