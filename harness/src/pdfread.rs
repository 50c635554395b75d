//! A reader of PDF files and of page content, written from the PDF specification (ISO 32000-1).
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Real(String),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<V>),
    Dict(Vec<(Vec<u8>, V)>),
    Ref(u32, u32),
    /// an operator or another keyword
    Op(Vec<u8>),
}

impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Dict(d) => d.iter().find(|(n, _)| n == k.as_bytes()).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            V::Int(i) => Some(*i as f64),
            V::Real(s) => s.parse().ok(),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[V]> {
        match self {
            V::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn is_name(&self, n: &str) -> bool {
        *self == V::Name(n.as_bytes().to_vec())
    }
}

pub struct Lexer<'a> {
    pub s: &'a [u8],
    pub at: usize,
}

fn white(b: u8) -> bool {
    [0, 9, 10, 12, 13, 32].contains(&b)
}
fn delimiter(b: u8) -> bool {
    b"()<>[]{}/%".contains(&b)
}
fn hex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

impl<'a> Lexer<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Lexer { s, at: 0 }
    }
    fn peek(&self, k: usize) -> Option<u8> {
        self.s.get(self.at + k).cloned()
    }
    pub fn skip(&mut self) {
        while let Some(b) = self.peek(0) {
            if b == b'%' {
                while let Some(b) = self.peek(0) {
                    if b == 10 || b == 13 {
                        break;
                    }
                    self.at += 1;
                }
            } else if white(b) {
                self.at += 1
            } else {
                break;
            }
        }
    }
    pub fn done(&mut self) -> bool {
        self.skip();
        self.at >= self.s.len()
    }
    fn regular(&mut self) -> &'a [u8] {
        let start = self.at;
        while let Some(b) = self.peek(0) {
            if white(b) || delimiter(b) {
                break;
            }
            self.at += 1
        }
        &self.s[start..self.at]
    }
    pub fn value(&mut self) -> Result<V, String> {
        self.skip();
        let b = match self.peek(0) {
            None => return Err("end of input".into()),
            Some(b) => b,
        };
        match b {
            b'/' => {
                self.at += 1;
                let raw = self.regular();
                let mut out = Vec::new();
                let mut i = 0;
                while i < raw.len() {
                    if raw[i] == b'#' {
                        match (raw.get(i + 1).and_then(|b| hex(*b)), raw.get(i + 2).and_then(|b| hex(*b))) {
                            (Some(x), Some(y)) => out.push(x * 16 + y),
                            _ => return Err(format!("bad # in the name {:?}", String::from_utf8_lossy(raw))),
                        }
                        i += 3
                    } else {
                        if raw[i] < 33 || raw[i] > 126 {
                            // allowed, if not recommended
                        }
                        out.push(raw[i]);
                        i += 1
                    }
                }
                Ok(V::Name(out))
            }
            b'(' => {
                self.at += 1;
                let mut out = Vec::new();
                let mut depth = 1;
                loop {
                    let b = self.peek(0).ok_or("unfinished string")?;
                    self.at += 1;
                    match b {
                        b'(' => {
                            depth += 1;
                            out.push(b)
                        }
                        b')' => {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                            out.push(b)
                        }
                        13 => {
                            if self.peek(0) == Some(10) {
                                self.at += 1
                            }
                            out.push(10)
                        }
                        b'\\' => {
                            let e = self.peek(0).ok_or("unfinished string")?;
                            self.at += 1;
                            match e {
                                b'n' => out.push(10),
                                b'r' => out.push(13),
                                b't' => out.push(9),
                                b'b' => out.push(8),
                                b'f' => out.push(12),
                                10 => {}
                                13 => {
                                    if self.peek(0) == Some(10) {
                                        self.at += 1
                                    }
                                }
                                b'0'..=b'7' => {
                                    let mut v = (e - b'0') as u32;
                                    for _ in 0..2 {
                                        match self.peek(0) {
                                            Some(d @ b'0'..=b'7') => {
                                                v = v * 8 + (d - b'0') as u32;
                                                self.at += 1
                                            }
                                            _ => break,
                                        }
                                    }
                                    out.push(v as u8)
                                }
                                _ => out.push(e),
                            }
                        }
                        _ => out.push(b),
                    }
                }
                Ok(V::Str(out))
            }
            b'<' if self.peek(1) == Some(b'<') => {
                self.at += 2;
                let mut out: Vec<(Vec<u8>, V)> = Vec::new();
                loop {
                    self.skip();
                    if self.peek(0) == Some(b'>') && self.peek(1) == Some(b'>') {
                        self.at += 2;
                        return Ok(V::Dict(out));
                    }
                    let k = match self.value()? {
                        V::Name(k) => k,
                        other => return Err(format!("a dictionary key that is not a name: {:?}", other)),
                    };
                    let v = self.object()?;
                    out.push((k, v))
                }
            }
            b'<' => {
                self.at += 1;
                let mut digits = Vec::new();
                loop {
                    let b = self.peek(0).ok_or("unfinished string")?;
                    self.at += 1;
                    if b == b'>' {
                        break;
                    }
                    if white(b) {
                        continue;
                    }
                    digits.push(hex(b).ok_or("not a hexadecimal digit")?)
                }
                if digits.len() % 2 == 1 {
                    digits.push(0)
                }
                Ok(V::Str(digits.chunks(2).map(|c| c[0] * 16 + c[1]).collect()))
            }
            b'[' => {
                self.at += 1;
                let mut out = Vec::new();
                loop {
                    self.skip();
                    if self.peek(0) == Some(b']') {
                        self.at += 1;
                        return Ok(V::Arr(out));
                    }
                    let v = self.object()?;
                    out.push(v)
                }
            }
            b')' | b'>' | b']' | b'{' | b'}' => Err(format!("unexpected {:?}", b as char)),
            _ => {
                let t = self.regular();
                Ok(match t {
                    b"null" => V::Null,
                    b"true" => V::Bool(true),
                    b"false" => V::Bool(false),
                    _ => {
                        let (sign, d) = match t[0] {
                            b'+' | b'-' => (1, &t[1..]),
                            _ => (0, t),
                        };
                        let dots = d.iter().filter(|b| **b == b'.').count();
                        let digits = d.iter().filter(|b| b.is_ascii_digit()).count();
                        let text = String::from_utf8_lossy(t).into_owned();
                        if digits > 0 && dots + digits == d.len() && dots <= 1 {
                            if dots == 1 {
                                V::Real(text)
                            } else {
                                match text.trim_start_matches('+').parse() {
                                    Ok(i) => V::Int(i),
                                    // beyond the integers: a reader takes it as a real number
                                    Err(_) => V::Real(text),
                                }
                            }
                        } else if sign == 1 || t[0].is_ascii_digit() || t[0] == b'.' {
                            return Err(format!("neither a number nor a keyword: {:?}", text));
                        } else {
                            V::Op(t.to_vec())
                        }
                    }
                })
            }
        }
    }
    /// A value where `1 0 R` is a reference
    pub fn object(&mut self) -> Result<V, String> {
        let v = self.value()?;
        match v {
            V::Int(n) if n >= 0 => {
                let here = self.at;
                if let Ok(V::Int(g)) = self.value() {
                    if let Ok(V::Op(r)) = self.value() {
                        if r == b"R" {
                            return Ok(V::Ref(n as u32, g as u32));
                        }
                    }
                }
                self.at = here;
                Ok(V::Int(n))
            }
            V::Op(o) => Err(format!("unexpected keyword {:?}", String::from_utf8_lossy(&o))),
            v => Ok(v),
        }
    }
}

pub struct Pdf {
    pub objects: BTreeMap<u32, (V, Option<Vec<u8>>)>,
    pub trailer: V,
}

fn line_at<'a>(s: &'a [u8], at: usize, n: usize) -> Result<&'a [u8], String> {
    s.get(at..at + n).ok_or_else(|| "the file ends too early".to_owned())
}

impl Pdf {
    /// Reads a file by its cross-reference table, and checks that the table is right.
    pub fn load(s: &[u8]) -> Result<Pdf, String> {
        if !s.starts_with(b"%PDF-1.") {
            return Err("no header".into());
        }
        // from the end: startxref, number, %%EOF
        let tail = &s[s.len().saturating_sub(64)..];
        let p = tail.windows(9).rposition(|w| w == b"startxref").ok_or("no startxref")?;
        let tail = String::from_utf8_lossy(&tail[p..]).into_owned();
        let mut parts = tail.split_whitespace();
        parts.next();
        let xref: usize = parts.next().and_then(|x| x.parse().ok()).ok_or("no number after startxref")?;
        if parts.next() != Some("%%EOF") || parts.next().is_some() {
            return Err("no %%EOF at the end".into());
        }
        if line_at(s, xref, 5)? != b"xref\n" {
            return Err(format!("startxref is {}, where no cross-reference table begins", xref));
        }
        let mut lx = Lexer { s, at: xref + 5 };
        let start = lx.value()?.int().ok_or("no start of the table")?;
        let count = lx.value()?.int().ok_or("no count of the table")?;
        if start != 0 {
            return Err("the table does not start at object 0".into());
        }
        while let Some(b) = lx.peek(0) {
            if b == 32 {
                lx.at += 1
            } else {
                break;
            }
        }
        if lx.peek(0) != Some(10) {
            return Err("no end of line after the header of the table".into());
        }
        let mut at = lx.at + 1;
        let mut offsets = Vec::new();
        for n in 0..count {
            let e = line_at(s, at, 20)?;
            let ok = e[..10].iter().all(u8::is_ascii_digit)
                && e[10] == 32
                && e[11..16].iter().all(u8::is_ascii_digit)
                && e[16] == 32
                && (e[17] == b'n' || e[17] == b'f')
                && [&b" \n"[..], b" \r", b"\r\n"].contains(&&e[18..]);
            if !ok {
                return Err(format!("entry {} of the table is malformed: {:?}", n, String::from_utf8_lossy(e)));
            }
            let off: u64 = String::from_utf8_lossy(&e[..10]).parse().unwrap();
            let gen: u64 = String::from_utf8_lossy(&e[11..16]).parse().unwrap();
            if n == 0 && (e[17] != b'f' || gen != 65535) {
                return Err("entry 0 is not the head of the free list".into());
            }
            if e[17] == b'n' {
                if gen != 0 {
                    return Err(format!("object {} has generation {}", n, gen));
                }
                offsets.push((n as u32, off as usize));
            }
            at += 20;
        }
        let mut lx = Lexer { s, at };
        if lx.value()? != V::Op(b"trailer".to_vec()) {
            return Err("no trailer after the table".into());
        }
        let trailer = lx.object()?;
        if trailer.get("Size") != Some(&V::Int(count)) {
            return Err(format!("the table has {} entries, but the trailer says {:?}", count, trailer.get("Size")));
        }
        let mut objects = BTreeMap::new();
        for (n, off) in offsets {
            let head = format!("{} 0 obj", n);
            if s.get(off..off + head.len()) != Some(head.as_bytes()) {
                return Err(format!("object {} does not begin at its offset {}", n, off));
            }
            let mut lx = Lexer { s, at: off + head.len() };
            let v = lx.object().map_err(|e| format!("object {}: {}", n, e))?;
            let here = lx.at;
            let mut stream = None;
            let mut k = lx.value();
            if k == Ok(V::Op(b"stream".to_vec())) {
                let len = v.get("Length").and_then(V::int).ok_or("a stream without length")? as usize;
                if lx.peek(0) == Some(13) {
                    lx.at += 1
                }
                if lx.peek(0) != Some(10) {
                    return Err("no end of line after stream".into());
                }
                lx.at += 1;
                stream = Some(line_at(s, lx.at, len)?.to_vec());
                lx.at += len;
                lx.skip();
                if lx.value() != Ok(V::Op(b"endstream".to_vec())) {
                    return Err(format!("the data of stream {} are not as long as its Length {}", n, len));
                }
                k = lx.value();
            }
            if k != Ok(V::Op(b"endobj".to_vec())) {
                return Err(format!("object {} does not end where it should (at {})", n, here));
            }
            objects.insert(n, (v, stream));
        }
        let pdf = Pdf { objects, trailer };
        pdf.refs_exist()?;
        Ok(pdf)
    }

    fn refs_exist(&self) -> Result<(), String> {
        fn walk(p: &Pdf, v: &V) -> Result<(), String> {
            match v {
                V::Ref(n, g) => {
                    if *g != 0 || !p.objects.contains_key(n) {
                        return Err(format!("a reference to object {} {}, which is not there", n, g));
                    }
                }
                V::Arr(a) => {
                    for x in a {
                        walk(p, x)?
                    }
                }
                V::Dict(d) => {
                    for x in d {
                        walk(p, &x.1)?
                    }
                }
                _ => {}
            }
            Ok(())
        }
        walk(self, &self.trailer)?;
        for (v, _) in self.objects.values() {
            walk(self, v)?
        }
        Ok(())
    }

    pub fn resolve<'a>(&'a self, v: &'a V) -> &'a V {
        match v {
            V::Ref(n, _) => self.objects.get(n).map_or(v, |o| &o.0),
            _ => v,
        }
    }
    /// v.k1.k2…, following references
    pub fn path<'a>(&'a self, v: &'a V, keys: &[&str]) -> Result<&'a V, String> {
        let mut v = self.resolve(v);
        for k in keys {
            v = self.resolve(v.get(k).ok_or_else(|| format!("no {} in {:?}", k, v))?);
        }
        Ok(v)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    /// x, y, width, height in px from the top left of the page
    Rect { x: f64, y: f64, w: f64, h: f64, rgb: [f64; 3], alpha: f64 },
    Text { x: f64, y: f64, size: f64, font: u32, codes: Vec<u16>, rgb: [f64; 3], alpha: f64 },
}

#[derive(Debug, Clone)]
pub struct PageContent {
    pub width: f64,
    pub height: f64,
    pub ops: Vec<Op>,
}

type M = [f64; 6];
/// a then b
fn mul(a: M, b: M) -> M {
    [
        a[0] * b[0] + a[1] * b[2],
        a[0] * b[1] + a[1] * b[3],
        a[2] * b[0] + a[3] * b[2],
        a[2] * b[1] + a[3] * b[3],
        a[4] * b[0] + a[5] * b[2] + b[4],
        a[4] * b[1] + a[5] * b[3] + b[5],
    ]
}
fn apply(m: M, x: f64, y: f64) -> (f64, f64) {
    (x * m[0] + y * m[2] + m[4], x * m[1] + y * m[3] + m[5])
}

const PT: f64 = 0.75;

impl Pdf {
    pub fn pages(&self) -> Result<Vec<PageContent>, String> {
        let tree = self.path(&self.trailer, &["Root", "Pages"])?;
        if !self.path(&self.trailer, &["Root", "Type"])?.is_name("Catalog") || !self.path(tree, &["Type"])?.is_name("Pages") {
            return Err("wrong types of the catalog or page tree".into());
        }
        let kids = self.path(tree, &["Kids"])?.arr().ok_or("Kids")?;
        if self.path(tree, &["Count"])?.int() != Some(kids.len() as i64) {
            return Err("wrong Count of pages".into());
        }
        let mut seen = Vec::new();
        let mut out = Vec::new();
        for k in kids {
            if seen.contains(k) {
                return Err("a page is listed twice".into());
            }
            seen.push(k.clone());
            let page = self.resolve(k);
            if !self.path(page, &["Type"])?.is_name("Page") || self.path(page, &["Parent"])? != tree {
                return Err("wrong type or parent of a page".into());
            }
            out.push(self.page(page, tree)?)
        }
        Ok(out)
    }

    fn page(&self, page: &V, tree: &V) -> Result<PageContent, String> {
        let res = match page.get("Resources") {
            Some(r) => self.resolve(r),
            None => self.path(tree, &["Resources"])?,
        };
        let b: Vec<f64> = self.path(page, &["MediaBox"])?.arr().ok_or("MediaBox")?.iter().filter_map(V::num).collect();
        if b.len() != 4 {
            return Err("MediaBox".into());
        }
        let (x0, x1) = (b[0].min(b[2]), b[0].max(b[2]));
        let (y0, y1) = (b[1].min(b[3]), b[1].max(b[3]));
        let content = match page.get("Contents") {
            Some(V::Ref(n, _)) => self.objects[n].1.as_ref().ok_or("Contents is not a stream")?,
            _ => return Err("Contents".into()),
        };
        let mut ctm: M = [1., 0., 0., 1., 0., 0.];
        let mut rgb = [0.; 3];
        let mut alpha = 1.;
        let mut path: Vec<[f64; 4]> = Vec::new();
        let mut text: Option<M> = None;
        let mut font: Option<(u32, f64)> = None;
        let mut ops = Vec::new();
        let mut args: Vec<V> = Vec::new();
        let mut lx = Lexer::new(content);
        let place = |x: f64, y: f64| ((x - x0) / PT, (y1 - y) / PT);
        while !lx.done() {
            let v = lx.value()?;
            let op = match v {
                V::Op(op) => op,
                v => {
                    args.push(v);
                    continue;
                }
            };
            let n: Vec<f64> = args.iter().filter_map(V::num).collect();
            let nums = |k: usize| {
                if n.len() == k && args.len() == k {
                    Ok(())
                } else {
                    Err(format!("operator {} has operands {:?}", String::from_utf8_lossy(&op), args))
                }
            };
            match &*op {
                b"cm" => {
                    nums(6)?;
                    if text.is_some() {
                        return Err("cm within a text object".into());
                    }
                    ctm = mul([n[0], n[1], n[2], n[3], n[4], n[5]], ctm)
                }
                b"rg" => {
                    nums(3)?;
                    for i in 0..3 {
                        rgb[i] = n[i].max(0.).min(1.)
                    }
                }
                b"gs" => {
                    let k = match &args[..] {
                        [V::Name(k)] => k,
                        _ => return Err("operands of gs".into()),
                    };
                    let k = String::from_utf8_lossy(k).into_owned();
                    let g = self.path(res, &["ExtGState", &k])?;
                    if let Some(a) = g.get("ca") {
                        alpha = a.num().ok_or("ca is not a number")?
                    }
                }
                b"re" => {
                    nums(4)?;
                    if text.is_some() {
                        return Err("a path within a text object".into());
                    }
                    let a = apply(ctm, n[0], n[1]);
                    let b = apply(ctm, n[0] + n[2], n[1] + n[3]);
                    path.push([a.0, a.1, b.0, b.1]);
                }
                b"f" => {
                    nums(0)?;
                    if path.is_empty() {
                        return Err("nothing to fill".into());
                    }
                    for r in path.drain(..) {
                        let (ax, ay) = place(r[0], r[1]);
                        let (bx, by) = place(r[2], r[3]);
                        ops.push(Op::Rect { x: ax, y: ay, w: bx - ax, h: by - ay, rgb, alpha })
                    }
                }
                b"BT" => {
                    nums(0)?;
                    if text.is_some() {
                        return Err("nested text objects".into());
                    }
                    text = Some([1., 0., 0., 1., 0., 0.])
                }
                b"ET" => {
                    nums(0)?;
                    if text.take().is_none() {
                        return Err("ET without BT".into());
                    }
                }
                b"Tf" => {
                    let (k, s) = match &args[..] {
                        [V::Name(k), s] => (k, s.num().ok_or("size")?),
                        _ => return Err("operands of Tf".into()),
                    };
                    let k = String::from_utf8_lossy(k).into_owned();
                    match self.path(res, &["Font"])?.get(&k) {
                        Some(V::Ref(n, _)) => font = Some((*n, s)),
                        x => return Err(format!("the font {} of the page's resources is {:?}", k, x)),
                    }
                }
                b"Tm" => {
                    nums(6)?;
                    if text.is_none() {
                        return Err("Tm outside of a text object".into());
                    }
                    text = Some([n[0], n[1], n[2], n[3], n[4], n[5]])
                }
                b"Tj" => {
                    let s = match &args[..] {
                        [V::Str(s)] => s,
                        _ => return Err("operands of Tj".into()),
                    };
                    let tm = text.ok_or("Tj outside of a text object")?;
                    let (font, size) = font.ok_or("text without font")?;
                    let m = mul([size, 0., 0., size, 0., 0.], mul(tm, ctm));
                    if m[1] != 0. || m[2] != 0. || (m[0] - m[3]).abs() > 1e-6 * m[0].abs() {
                        return Err(format!("text is not upright and undistorted: {:?}", m));
                    }
                    let (x, y) = place(m[4], m[5]);
                    if s.len() % 2 != 0 {
                        return Err("half a code of two bytes".into());
                    }
                    ops.push(Op::Text {
                        x,
                        y,
                        size: m[3] / PT,
                        font,
                        codes: s.chunks(2).map(|c| c[0] as u16 * 256 + c[1] as u16).collect(),
                        rgb,
                        alpha,
                    })
                }
                _ => return Err(format!("unknown operator {:?}", String::from_utf8_lossy(&op))),
            }
            args.clear()
        }
        if !args.is_empty() || text.is_some() || !path.is_empty() {
            return Err("the content ends too early".into());
        }
        Ok(PageContent { width: (x1 - x0) / PT, height: (y1 - y0) / PT, ops })
    }

    /// What a font of the file is
    pub fn font(&self, n: u32) -> Result<FontInfo, String> {
        let f = &self.objects[&n].0;
        let is = |p: &[&str], n: &str| match self.path(f, p) {
            Ok(v) if v.is_name(n) => Ok(()),
            v => Err(format!("{:?} of a font is {:?}, not {}", p, v, n)),
        };
        is(&["Type"], "Font")?;
        is(&["Subtype"], "Type0")?;
        is(&["Encoding"], "Identity-H")?;
        let d = self.path(f, &["DescendantFonts"])?.arr().ok_or("DescendantFonts")?;
        if d.len() != 1 {
            return Err("DescendantFonts".into());
        }
        let d = self.resolve(&d[0]);
        if !self.path(d, &["Type"])?.is_name("Font") || !self.path(d, &["Subtype"])?.is_name("CIDFontType2") {
            return Err("the type of the descendant font".into());
        }
        if let Some(m) = d.get("CIDToGIDMap") {
            if !m.is_name("Identity") {
                return Err("CIDToGIDMap".into());
            }
        }
        let base = match (self.path(f, &["BaseFont"])?, self.path(d, &["BaseFont"])?, self.path(d, &["FontDescriptor", "FontName"])?) {
            (V::Name(a), V::Name(b), V::Name(c)) if a == b && b == c => a.clone(),
            x => return Err(format!("names of a font: {:?}", x)),
        };
        let desc = self.path(d, &["FontDescriptor"])?;
        let stream = |v: Option<&V>, what: &str| match v {
            Some(V::Ref(n, _)) => self.objects[n].1.clone().ok_or_else(|| format!("{} is not a stream", what)),
            _ => Err(format!("no {}", what)),
        };
        let file = stream(desc.get("FontFile2"), "FontFile2")?;
        let length1 = self.path(desc, &["FontFile2", "Length1"])?.int();
        if length1 != Some(file.len() as i64) {
            return Err("Length1 of the embedded font".into());
        }
        let num = |k: &str| self.path(desc, &[k])?.num().ok_or_else(|| k.to_owned());
        let bbox: Vec<f64> = self.path(desc, &["FontBBox"])?.arr().ok_or("FontBBox")?.iter().filter_map(V::num).collect();
        if bbox.len() != 4 {
            return Err("FontBBox".into());
        }
        let (ascent, descent, flags) = (num("Ascent")?, num("Descent")?, num("Flags")?);
        // W: c [w …] | first last w
        let mut widths = BTreeMap::new();
        if let Some(w) = d.get("W") {
            let w = self.resolve(w).arr().ok_or("W")?;
            let mut i = 0;
            while i < w.len() {
                let first = w[i].int().ok_or("W")?;
                match w.get(i + 1).map(|v| self.resolve(v)) {
                    Some(V::Arr(a)) => {
                        for (k, x) in a.iter().enumerate() {
                            widths.insert(first + k as i64, x.num().ok_or("W")?);
                        }
                        i += 2
                    }
                    Some(V::Int(last)) => {
                        for k in first..=*last {
                            widths.insert(k, w.get(i + 2).and_then(V::num).ok_or("W")?);
                        }
                        i += 3
                    }
                    _ => return Err("W".into()),
                }
            }
        }
        let default_width = d.get("DW").and_then(V::num).unwrap_or(1000.);
        let map = stream(f.get("ToUnicode"), "ToUnicode")?;
        Ok(FontInfo { base, file, ascent, descent, flags, bbox, widths, default_width, to_unicode: to_unicode(&map)? })
    }
}

pub struct FontInfo {
    pub base: Vec<u8>,
    pub file: Vec<u8>,
    pub ascent: f64,
    pub descent: f64,
    pub flags: f64,
    pub bbox: Vec<f64>,
    pub widths: BTreeMap<i64, f64>,
    pub default_width: f64,
    pub to_unicode: Vec<(u16, String)>,
}

/// The entries of a ToUnicode map
fn to_unicode(s: &[u8]) -> Result<Vec<(u16, String)>, String> {
    let mut lx = Lexer::new(s);
    let mut stack: Vec<V> = Vec::new();
    let mut out = Vec::new();
    let mut range = false;
    let mut finished = false;
    let mut began = false;
    while !lx.done() {
        let v = match lx.value()? {
            V::Op(o) => o,
            v => {
                stack.push(v);
                continue;
            }
        };
        let section = |lx: &mut Lexer, stack: &[V], end: &[u8]| -> Result<Vec<V>, String> {
            let n = stack.last().and_then(V::int).ok_or("no count before a block")?;
            if n < 1 || n > 100 {
                return Err(format!("a block of {} entries", n));
            }
            let mut v = Vec::new();
            loop {
                match lx.value()? {
                    V::Op(o) => {
                        if o != end {
                            return Err(format!("{:?} within a block", String::from_utf8_lossy(&o)));
                        }
                        break;
                    }
                    x => v.push(x),
                }
            }
            if v.len() as i64 != 2 * n {
                return Err(format!("a block has {} items, but its count is {}", v.len(), n));
            }
            Ok(v)
        };
        match &*v {
            b"begincmap" => began = true,
            b"endcmap" => finished = true,
            b"begincodespacerange" => {
                let v = section(&mut lx, &stack, b"endcodespacerange")?;
                range = v == [V::Str(vec![0, 0]), V::Str(vec![255, 255])];
            }
            b"beginbfchar" => {
                if !range || !began || finished {
                    return Err("a block out of place".into());
                }
                for p in section(&mut lx, &stack, b"endbfchar")?.chunks(2) {
                    match (&p[0], &p[1]) {
                        (V::Str(a), V::Str(b)) if a.len() == 2 && b.len() % 2 == 0 && !b.is_empty() => {
                            let u: Vec<u16> = b.chunks(2).map(|c| c[0] as u16 * 256 + c[1] as u16).collect();
                            out.push((
                                a[0] as u16 * 256 + a[1] as u16,
                                String::from_utf16(&u).map_err(|_| "not UTF-16".to_owned())?,
                            ))
                        }
                        x => return Err(format!("an entry of the map: {:?}", x)),
                    }
                }
            }
            _ => {}
        }
        stack.clear();
    }
    if !finished {
        return Err("the map is not finished".into());
    }
    Ok(out)
}
