//! The cascade, selectors, declarations and computed values, against a model
//! that works on the structure of a style sheet instead of its text, and that
//! chooses the winning declaration by comparing keys instead of applying all.
//!
//! A case has one line for each of:
//!   X                          (first line) an XML document
//!   E DEPTH TAG|NAME=VALUE|…   element; DEPTH 0 is html, then head and body
//!   A SEED DECLARATION         in the style attribute of the element above
//!   T DEPTH TEXT, C DEPTH TEXT, P DEPTH   text, comment, processing instruction
//!   S DEPTH TYPE               a style element (in XML: a style sheet apart)
//!   R SEED SELECTORS           rule of the style sheet above
//!   D SEED DECLARATION         of the rule above
//!   J N                        something in the style sheet that has no effect
//! Declarations are NAME: VALUE, with ! at the end if important. The text that
//! the parser gets is varied (case, white space, comments) according to SEED.
//! What starts with ? is given as it is, and invalid.
use crate::common::*;
use std::collections::BTreeMap;
use victor::dom::Document;
use victor::verif::style as vs;

// ---------------------------------------------------------------- values

#[derive(Clone, Copy, PartialEq, Debug)]
enum Len {
    Px(f64),
    Em(f64),
    Pc(f64),
    Auto,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Col {
    Rgba(u8, u8, u8, u8),
    Current,
}

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Len(Len),
    Col(Col),
    Kw(&'static str),
    Inherit,
    Initial,
    Unset,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    FontSize,
    Color,
    ColorOrCurrent,
    Lpa,
    LpaSize,
    Lp,
    LineStyle,
    LineWidth,
    Kw(&'static [&'static str]),
}

const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];

fn longhands() -> Vec<(String, Kind)> {
    let mut v = vec![
        ("font-size".to_owned(), Kind::FontSize),
        ("color".to_owned(), Kind::Color),
        ("position".to_owned(), Kind::Kw(&["static", "relative", "absolute"])),
        ("float".to_owned(), Kind::Kw(&["none", "left", "right"])),
        ("display".to_owned(), Kind::Kw(&["inline", "none", "contents", "block", "flow-root"])),
        ("width".to_owned(), Kind::LpaSize),
        ("height".to_owned(), Kind::LpaSize),
        ("background-color".to_owned(), Kind::ColorOrCurrent),
    ];
    for s in &SIDES {
        v.push((s.to_string(), Kind::Lpa));
        v.push((format!("margin-{}", s), Kind::Lpa));
        v.push((format!("padding-{}", s), Kind::Lp));
        v.push((format!("border-{}-color", s), Kind::ColorOrCurrent));
        v.push((format!("border-{}-style", s), Kind::LineStyle));
        v.push((format!("border-{}-width", s), Kind::LineWidth));
    }
    v
}

fn kind_of(name: &str) -> Option<Kind> {
    longhands().into_iter().find(|(n, _)| n == name).map(|(_, k)| k)
}

fn initial(name: &str, kind: Kind) -> Val {
    match kind {
        Kind::FontSize => Val::Len(Len::Px(16.)),
        Kind::Color => Val::Col(Col::Rgba(0, 0, 0, 255)),
        Kind::ColorOrCurrent if name == "background-color" => Val::Col(Col::Rgba(0, 0, 0, 0)),
        Kind::ColorOrCurrent => Val::Col(Col::Current),
        Kind::Lpa if name.starts_with("margin") => Val::Len(Len::Px(0.)),
        Kind::Lpa | Kind::LpaSize => Val::Len(Len::Auto),
        Kind::Lp => Val::Len(Len::Px(0.)),
        Kind::LineStyle => Val::Kw("none"),
        Kind::LineWidth => Val::Len(Len::Px(3.)),
        Kind::Kw(k) => Val::Kw(k[0]),
    }
}

fn inherited(name: &str) -> bool {
    name == "color" || name == "font-size"
}

/// Where the code is known to differ from CSS (known findings).
#[derive(Clone, Copy, Default)]
struct Deviations {
    /// the four values of a shorthand are taken as top, left, bottom, right
    sides: bool,
    /// negative sizes, paddings and border widths are taken
    negative: bool,
    /// percentages are taken as border widths
    percentage: bool,
}

fn number(s: &str) -> Option<f64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || b == b'.' || b == b'-') {
        return None;
    }
    s.parse().ok()
}

fn length(t: &str) -> Option<Len> {
    if let Some(n) = number(t) {
        return if n == 0. { Some(Len::Px(0.)) } else { None };
    }
    let k = t.len().checked_sub(2)?;
    if !t.is_char_boundary(k) {
        return None;
    }
    let (n, u) = t.split_at(k);
    let n = number(n)?;
    match u {
        "px" => Some(Len::Px(n)),
        "em" => Some(Len::Em(n)),
        _ => None,
    }
}

fn percentage(t: &str) -> Option<Len> {
    if t.ends_with('%') {
        number(&t[..t.len() - 1]).map(Len::Pc)
    } else {
        None
    }
}

fn below_zero(l: Len) -> bool {
    match l {
        Len::Px(n) | Len::Em(n) | Len::Pc(n) => n < 0.,
        Len::Auto => false,
    }
}

const NAMES: [(&str, [u8; 4]); 10] = [
    ("black", [0, 0, 0, 255]),
    ("red", [255, 0, 0, 255]),
    ("lime", [0, 255, 0, 255]),
    ("green", [0, 128, 0, 255]),
    ("blue", [0, 0, 255, 255]),
    ("rebeccapurple", [102, 51, 153, 255]),
    ("lightgoldenrodyellow", [250, 250, 210, 255]),
    ("tan", [210, 180, 140, 255]),
    ("transparent", [0, 0, 0, 0]),
    ("white", [255, 255, 255, 255]),
];

fn color(t: &str) -> Option<Col> {
    if t == "currentcolor" {
        return Some(Col::Current);
    }
    if let Some((_, c)) = NAMES.iter().find(|(n, _)| *n == t) {
        return Some(Col::Rgba(c[0], c[1], c[2], c[3]));
    }
    if t.starts_with('#') {
        let d: Option<Vec<u8>> = t[1..].chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
        let d = d?;
        return match d.len() {
            3 => Some(Col::Rgba(d[0] * 17, d[1] * 17, d[2] * 17, 255)),
            6 => Some(Col::Rgba(d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5], 255)),
            _ => None,
        };
    }
    // rgb(r,g,b) or rgba(r,g,b,a), without white space
    for (f, n) in &[("rgb(", 3), ("rgba(", 4)] {
        if t.starts_with(f) && t.ends_with(')') {
            let parts: Vec<&str> = t[f.len()..t.len() - 1].split(',').collect();
            if parts.len() != *n {
                return None;
            }
            let mut c = [255u8; 4];
            for i in 0..3 {
                c[i] = if parts[0].ends_with('%') {
                    if !parts[i].ends_with('%') {
                        return None;
                    }
                    (number(&parts[i][..parts[i].len() - 1])? / 100. * 255.).round().max(0.).min(255.) as u8
                } else {
                    number(parts[i])?.round().max(0.).min(255.) as u8
                };
            }
            if *n == 4 {
                c[3] = (number(parts[3])? * 255.).round().max(0.).min(255.) as u8;
            }
            return Some(Col::Rgba(c[0], c[1], c[2], c[3]));
        }
    }
    None
}

fn single(kind: Kind, t: &str, dev: Deviations) -> Option<Val> {
    let positive = |l: Option<Len>| l.filter(|l| dev.negative || !below_zero(*l));
    match kind {
        Kind::FontSize => positive(length(t)).map(Val::Len),
        Kind::Color | Kind::ColorOrCurrent => color(t).map(Val::Col),
        Kind::Lpa if t == "auto" => Some(Val::Len(Len::Auto)),
        Kind::Lpa => length(t).or_else(|| percentage(t)).map(Val::Len),
        Kind::LpaSize if t == "auto" => Some(Val::Len(Len::Auto)),
        Kind::LpaSize | Kind::Lp => positive(length(t).or_else(|| percentage(t))).map(Val::Len),
        Kind::LineStyle => ["none", "solid"].iter().find(|k| **k == t).map(|k| Val::Kw(k)),
        Kind::LineWidth => match t {
            "thin" => Some(Val::Len(Len::Px(1.))),
            "medium" => Some(Val::Len(Len::Px(3.))),
            "thick" => Some(Val::Len(Len::Px(5.))),
            _ => positive(length(t).or_else(|| if dev.percentage { percentage(t) } else { None })).map(Val::Len),
        },
        Kind::Kw(ks) => ks.iter().find(|k| **k == t).map(|k| Val::Kw(k)),
    }
}

/// The longhands that a declaration sets, or nothing if it is not valid.
fn declared(name: &str, value: &str, dev: Deviations) -> Option<Vec<(String, Val)>> {
    let t: Vec<&str> = value.split(' ').filter(|t| !t.is_empty()).collect();
    let wide = if t.len() == 1 {
        match t[0] {
            "inherit" => Some(Val::Inherit),
            "initial" => Some(Val::Initial),
            "unset" => Some(Val::Unset),
            _ => None,
        }
    } else {
        None
    };
    if let Some(kind) = kind_of(name) {
        if let Some(w) = wide {
            return Some(vec![(name.to_owned(), w)]);
        }
        if t.len() != 1 {
            return None;
        }
        return single(kind, t[0], dev).map(|v| vec![(name.to_owned(), v)]);
    }
    let four: Option<[String; 4]> = match name {
        "margin" | "padding" => Some([0, 1, 2, 3].map_(|i| format!("{}-{}", name, SIDES[i]))),
        "border-color" | "border-style" | "border-width" => {
            Some([0, 1, 2, 3].map_(|i| format!("border-{}-{}", SIDES[i], &name[7..])))
        }
        _ => None,
    };
    if let Some(names) = four {
        if let Some(w) = wide {
            return Some(names.iter().map(|n| (n.clone(), w.clone())).collect());
        }
        let kind = kind_of(&names[0]).unwrap();
        let v: Option<Vec<Val>> = t.iter().map(|t| single(kind, t, dev)).collect();
        let v = v?;
        let order: [usize; 4] = match v.len() {
            1 => [0, 0, 0, 0],
            2 => [0, 1, 0, 1],
            3 => [0, 1, 2, 1],
            4 if dev.sides => [0, 3, 2, 1],
            4 => [0, 1, 2, 3],
            _ => return None,
        };
        return Some((0..4).map(|i| (names[i].clone(), v[order[i]].clone())).collect());
    }
    match name {
        "border-top" => {
            let names = ["border-top-style", "border-top-color", "border-top-width"];
            if let Some(w) = wide {
                return Some(names.iter().map(|n| (n.to_string(), w.clone())).collect());
            }
            if t.is_empty() {
                return None;
            }
            let mut got: [Option<Val>; 3] = [None, None, None];
            'tokens: for t in t {
                for i in 0..3 {
                    if let Some(v) = single(kind_of(names[i]).unwrap(), t, dev) {
                        if got[i].is_some() {
                            return None;
                        }
                        got[i] = Some(v);
                        continue 'tokens;
                    }
                }
                return None;
            }
            Some(
                (0..3)
                    .map(|i| (names[i].to_owned(), got[i].clone().unwrap_or(Val::Initial)))
                    .collect(),
            )
        }
        "background" => {
            if let Some(w) = wide {
                return Some(vec![("background-color".to_owned(), w)]);
            }
            if t.len() != 1 {
                return None;
            }
            color(t[0]).map(|c| vec![("background-color".to_owned(), Val::Col(c))])
        }
        _ => None,
    }
}

trait Map4 {
    fn map_<T>(self, f: impl Fn(usize) -> T) -> [T; 4];
}
impl Map4 for [usize; 4] {
    fn map_<T>(self, f: impl Fn(usize) -> T) -> [T; 4] {
        [f(self[0]), f(self[1]), f(self[2]), f(self[3])]
    }
}

// ---------------------------------------------------------------- selectors

#[derive(Clone, Debug)]
enum Simple {
    Any,
    Type(String),
    Class(String),
    Id(String),
    /// name, operator (or ""), value, case-insensitive
    Attr(String, String, String, bool),
    Nth { a: i64, b: i64, of_type: bool, last: bool, name: String },
    Only { of_type: bool },
    Empty,
    Root,
    Not(Box<Simple>),
}

#[derive(Clone, Debug)]
struct Complex {
    /// compounds from left to right, each with the combinator before it
    parts: Vec<(char, Vec<Simple>)>,
}

struct Scan<'a>(&'a [u8], usize);

impl<'a> Scan<'a> {
    fn peek(&self) -> u8 {
        *self.0.get(self.1).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.1 += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> Option<String> {
        let s = self.1;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'-' || self.peek() == b'_' {
            self.1 += 1
        }
        if s == self.1 {
            None
        } else {
            Some(String::from_utf8(self.0[s..self.1].to_vec()).unwrap())
        }
    }
    fn until(&mut self, c: u8) -> Option<String> {
        let s = self.1;
        while self.peek() != c {
            if self.1 >= self.0.len() {
                return None;
            }
            self.1 += 1
        }
        self.1 += 1;
        Some(String::from_utf8(self.0[s..self.1 - 1].to_vec()).unwrap())
    }
    fn simple(&mut self) -> Option<Simple> {
        if self.eat(b'*') {
            return Some(Simple::Any);
        }
        if self.eat(b'.') {
            return self.ident().map(Simple::Class);
        }
        if self.eat(b'#') {
            return self.ident().map(Simple::Id);
        }
        if self.eat(b'[') {
            let mut name = String::new();
            if self.eat(b'*') {
                name.push('*')
            }
            if self.eat(b'|') {
                name.push('|')
            }
            name += &self.ident()?;
            if self.eat(b']') {
                return Some(Simple::Attr(name, String::new(), String::new(), false));
            }
            let op = self.until(b'"')?;
            let value = self.until(b'"')?;
            let i = self.until(b']')? == " i";
            return Some(Simple::Attr(name, op, value, i));
        }
        if self.eat(b':') {
            let name = self.ident()?;
            let nth = |a, b| Simple::Nth {
                a,
                b,
                of_type: name.ends_with("-type"),
                last: name.contains("last"),
                name: name.clone(),
            };
            return match &*name {
                "empty" => Some(Simple::Empty),
                "root" => Some(Simple::Root),
                "first-child" | "last-child" | "first-of-type" | "last-of-type" => Some(nth(0, 1)),
                "only-child" => Some(Simple::Only { of_type: false }),
                "only-of-type" => Some(Simple::Only { of_type: true }),
                "nth-child" | "nth-last-child" | "nth-of-type" | "nth-last-of-type" => {
                    if !self.eat(b'(') {
                        return None;
                    }
                    let t = self.until(b')')?;
                    let i = t.find('n')?;
                    Some(nth(t[..i].parse().ok()?, t[i + 1..].parse().ok()?))
                }
                "not" => {
                    if !self.eat(b'(') {
                        return None;
                    }
                    let s = self.simple()?;
                    if !self.eat(b')') {
                        return None;
                    }
                    Some(Simple::Not(Box::new(s)))
                }
                _ => None,
            };
        }
        self.ident().map(Simple::Type)
    }
}

fn parse_complex(s: &str) -> Option<Complex> {
    let mut sc = Scan(s.as_bytes(), 0);
    let mut parts = Vec::new();
    let mut comb = ' ';
    loop {
        let mut compound = Vec::new();
        while sc.1 < s.len() && sc.peek() != b' ' {
            let x = sc.simple()?;
            match &x {
                Simple::Any | Simple::Type(_) if !compound.is_empty() => return None,
                _ => {}
            }
            compound.push(x)
        }
        if compound.is_empty() {
            return None;
        }
        parts.push((comb, compound));
        if sc.1 >= s.len() {
            return Some(Complex { parts });
        }
        sc.eat(b' ');
        comb = ' ';
        if [b'>', b'+', b'~'].contains(&sc.peek()) {
            comb = sc.peek() as char;
            sc.1 += 1;
            if !sc.eat(b' ') {
                return None;
            }
        }
    }
}

fn specificity(c: &Complex) -> (u32, u32, u32) {
    fn add(s: &Simple, r: &mut (u32, u32, u32)) {
        match s {
            Simple::Any => {}
            Simple::Type(_) => r.2 += 1,
            Simple::Id(_) => r.0 += 1,
            Simple::Not(s) => add(s, r),
            _ => r.1 += 1,
        }
    }
    let mut r = (0, 0, 0);
    for (_, p) in &c.parts {
        for s in p {
            add(s, &mut r)
        }
    }
    r
}

// ---------------------------------------------------------------- text with variations

struct Vary(Rng, bool);

impl Vary {
    /// optional white space and comments
    fn gap(&mut self) -> &'static str {
        if !self.1 {
            return "";
        }
        match self.0.below(14) {
            0 => " ",
            1 => "\n\t",
            2 => "/**/",
            3 => " /* ; } { ! */ ",
            4 => "\r\n",
            5 => "\x0c",
            _ => "",
        }
    }
    fn space(&mut self) -> String {
        match self.0.below(6) {
            0 if self.1 => format!("{} ", self.gap()),
            1 if self.1 => format!(" {}", self.gap()),
            _ => " ".to_owned(),
        }
    }
    fn case(&mut self, s: &str) -> String {
        match self.0.below(4) {
            0 => s.to_ascii_uppercase(),
            1 => {
                let n = self.0.next();
                s.chars()
                    .enumerate()
                    .map(|(i, c)| if n >> (i % 60) & 1 == 1 { c.to_ascii_uppercase() } else { c })
                    .collect()
            }
            _ => s.to_owned(),
        }
    }
    /// an identifier, with some characters escaped
    fn escape(&mut self, s: &str) -> String {
        if !self.0.chance(12) {
            return s.to_owned();
        }
        let k = self.0.below(s.len());
        let mut o = String::new();
        for (i, c) in s.chars().enumerate() {
            if i == k {
                if self.0.chance(50) {
                    o += &format!("\\{:x} ", c as u32)
                } else {
                    o += &format!("\\{:06X} ", c as u32)
                }
            } else {
                o.push(c)
            }
        }
        o
    }
    fn number(&mut self, s: &str) -> String {
        let n: f64 = s.parse().unwrap();
        match self.0.below(8) {
            0 if !s.starts_with('-') => format!("+{}", s),
            1 if s.starts_with("0.") => s[1..].to_owned(),
            2 if n.fract() == 0. => format!("{}.0", s),
            3 if n.fract() == 0. && n != 0. && n % 10. == 0. => format!("{}e1", n / 10.),
            4 if n == 0. => "-0".to_owned(),
            _ => s.to_owned(),
        }
    }
    fn token(&mut self, t: &str) -> String {
        let digits = t
            .bytes()
            .take_while(|b| b.is_ascii_digit() || *b == b'.' || *b == b'-')
            .count();
        if digits > 0 && number(&t[..digits]).is_some() {
            return self.number(&t[..digits]) + &self.case(&t[digits..]);
        }
        if t.ends_with(')') {
            if let Some(i) = t.find('(') {
                let parts: Vec<String> = t[i + 1..t.len() - 1]
                    .split(',')
                    .map(|p| format!("{}{}{}", self.gap(), p, self.gap()))
                    .collect();
                return format!("{}({})", self.case(&t[..i]), parts.join(","));
            }
        }
        if t.starts_with('#') {
            return self.case(t);
        }
        if !t.bytes().all(|b| b.is_ascii_alphabetic() || b == b'-') {
            return t.to_owned();
        }
        let c = self.case(t);
        self.escape(&c)
    }
    fn declaration(&mut self, d: &Decl) -> String {
        if let Some(raw) = &d.raw {
            return format!("{}{}", raw, self.gap());
        }
        let name = self.case(&d.name);
        let name = self.escape(&name);
        let mut o = format!("{}{}{}:{}", self.gap(), name, self.gap(), self.gap());
        let mut first = true;
        for t in d.value.split(' ').filter(|t| !t.is_empty()) {
            if !first {
                o += &self.space()
            }
            first = false;
            o += &self.token(t);
        }
        o += self.gap();
        if d.important {
            o += "!";
            o += self.gap();
            o += &self.case("important");
            o += self.gap();
        }
        o
    }
    fn declarations(&mut self, ds: &[(u64, Decl)]) -> String {
        let mut o = String::new();
        for (i, (seed, d)) in ds.iter().enumerate() {
            let mut v = Vary(Rng::new(*seed), *seed != 0);
            o += &v.declaration(d);
            if i + 1 < ds.len() || v.0.chance(50) {
                o += if v.1 && v.0.chance(10) { ";;" } else { ";" }
            }
            o += v.gap();
        }
        o
    }
    fn simple(&mut self, s: &Simple, xml: bool) -> String {
        match s {
            Simple::Any => if self.1 && self.0.chance(10) { "*|*" } else { "*" }.to_owned(),
            Simple::Type(t) => {
                let t = if xml || t == "svg" || t == "math" { t.clone() } else { self.case(t) };
                // without any @namespace rule, a type without prefix is one in any namespace
                let prefix = if self.1 && self.0.chance(10) { "*|" } else { "" };
                format!("{}{}", prefix, self.escape(&t))
            }
            Simple::Class(c) => format!(".{}", self.escape(c)),
            Simple::Id(c) => format!("#{}", self.escape(c)),
            Simple::Attr(n, op, v, i) => {
                let n = if xml || n.ends_with("href") { n.clone() } else { self.case(n) };
                let mut o = format!("[{}{}{}", self.gap(), n, self.gap());
                if !op.is_empty() {
                    let ident = !v.is_empty() && v.bytes().all(|b| b.is_ascii_alphabetic());
                    let quoted = match self.0.below(3) {
                        0 => format!("'{}'", v),
                        1 if ident => v.clone(),
                        _ => format!("\"{}\"", v),
                    };
                    o += &format!("{}{}{}", op, self.gap(), quoted);
                    if *i {
                        o += " ";
                        o += &self.case("i");
                    }
                    o += self.gap();
                }
                o + "]"
            }
            Simple::Nth { a, b, name, .. } => {
                let n = self.case(name);
                if name.starts_with("nth") {
                    let arg = match (a, b, self.0.below(3)) {
                        (2, 0, 0) => self.case("even"),
                        (2, 1, 0) => self.case("odd"),
                        (0, b, _) => format!("{}", b),
                        (a, b, r) => {
                            let a = match a {
                                1 if r == 1 => "n".to_owned(),
                                -1 if r == 1 => "-n".to_owned(),
                                a => format!("{}{}", a, self.case("n")),
                            };
                            if *b == 0 && r == 2 {
                                a
                            } else if r == 1 {
                                format!("{} {} {}", a, if *b < 0 { '-' } else { '+' }, b.abs())
                            } else {
                                format!("{}{}{}", a, if *b < 0 { '-' } else { '+' }, b.abs())
                            }
                        }
                    };
                    let g = if self.1 && self.0.chance(20) { " " } else { "" };
                    format!(":{}({}{}{})", n, g, arg, g)
                } else {
                    format!(":{}", n)
                }
            }
            Simple::Only { of_type } => {
                format!(":{}", self.case(if *of_type { "only-of-type" } else { "only-child" }))
            }
            Simple::Empty => format!(":{}", self.case("empty")),
            Simple::Root => format!(":{}", self.case("root")),
            Simple::Not(s) => {
                let s = self.simple(s, xml);
                let g = if self.1 && self.0.chance(20) { " " } else { "" };
                format!(":{}({}{}{})", self.case("not"), g, s, g)
            }
        }
    }
    fn complex(&mut self, c: &Complex, xml: bool) -> String {
        let mut o = String::new();
        for (i, (comb, compound)) in c.parts.iter().enumerate() {
            if i > 0 {
                if *comb == ' ' {
                    o += &self.space()
                } else {
                    let (a, b) = (self.gap(), self.gap());
                    o += &match self.0.below(3) {
                        0 => format!("{}{}{}", a, comb, b),
                        _ => format!(" {} ", comb),
                    }
                }
            }
            for s in compound {
                o += &self.simple(s, xml)
            }
        }
        o
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug)]
struct Decl {
    name: String,
    value: String,
    important: bool,
    raw: Option<String>,
}

#[derive(Clone, Debug)]
struct Rule {
    seed: u64,
    /// None: not valid
    selectors: Option<Vec<Complex>>,
    raw: String,
    decls: Vec<(u64, Decl)>,
}

#[derive(Clone, Debug)]
enum Item {
    Rule(Rule),
    Junk(usize),
}

#[derive(Clone, Debug, Default)]
struct Sheet {
    other_type: bool,
    items: Vec<Item>,
}

#[derive(Clone, Debug)]
enum Kid {
    Element {
        tag: String,
        attrs: Vec<(String, String)>,
        style: Vec<(u64, Decl)>,
        sheet: Option<usize>,
    },
    Text(String),
    Comment(String),
    Pi,
}

#[derive(Clone, Debug)]
struct Node {
    parent: Option<usize>,
    kids: Vec<usize>,
    kid: Kid,
}

struct Case {
    xml: bool,
    nodes: Vec<Node>,
    sheets: Vec<Sheet>,
}

/// What has no effect on the rules after it.
const JUNK: [&str; 10] = [
    "@media foo { div { color: red; margin: 1px } }",
    "@import url(x.css);",
    "<!-- ",
    " -->",
    "@foo;",
    "@foo bar { color: red }",
    "/* div { color: red } */",
    "{ color: red }",
    "@charset \"utf-8\";",
    "@page { margin: 1px }",
];

fn parse_decl(s: &str) -> Option<Decl> {
    if s.starts_with('?') {
        return Some(Decl { name: String::new(), value: String::new(), important: false, raw: Some(s[1..].to_owned()) });
    }
    let i = s.find(": ")?;
    let mut v = s[i + 2..].trim();
    let important = v.ends_with('!');
    if important {
        v = v[..v.len() - 1].trim()
    }
    Some(Decl { name: s[..i].to_owned(), value: v.to_owned(), important, raw: None })
}

fn parse_case(case: &str) -> Option<Case> {
    let mut lines = case.split('\n').peekable();
    let mut c = Case { xml: false, nodes: Vec::new(), sheets: Vec::new() };
    if lines.peek() == Some(&"X") {
        c.xml = true;
        lines.next();
    }
    let mut stack: Vec<usize> = Vec::new();
    let mut element: Option<usize> = None;
    for l in lines {
        if l.is_empty() {
            continue;
        }
        let mut w = l.splitn(3, ' ');
        let (k, a, b) = (w.next()?, w.next().unwrap_or(""), w.next().unwrap_or(""));
        match k {
            "E" | "T" | "C" | "P" | "S" => {
                if k == "S" && c.xml {
                    c.sheets.push(Sheet { other_type: false, items: Vec::new() });
                    continue;
                }
                let depth: usize = a.parse().ok()?;
                if depth > stack.len() || (depth == 0 && !c.nodes.is_empty()) || (c.nodes.is_empty() && k != "E") {
                    return None;
                }
                stack.truncate(depth);
                let parent = stack.last().cloned();
                let i = c.nodes.len();
                let kid = match k {
                    "E" => {
                        let mut p = b.split('|');
                        let tag = p.next()?.to_owned();
                        let mut attrs: Vec<(String, String)> = Vec::new();
                        for a in p {
                            let e = a.find('=')?;
                            if attrs.iter().any(|(n, _)| n == &a[..e]) {
                                return None;
                            }
                            attrs.push((a[..e].to_owned(), a[e + 1..].replace('¶', "\n")))
                        }
                        Kid::Element { tag, attrs, style: Vec::new(), sheet: None }
                    }
                    "S" => {
                        c.sheets.push(Sheet { other_type: !b.is_empty() && !b.eq_ignore_ascii_case("text/css"), items: Vec::new() });
                        let attrs = if b.is_empty() { Vec::new() } else { vec![("type".to_owned(), b.to_owned())] };
                        Kid::Element { tag: "style".to_owned(), attrs, style: Vec::new(), sheet: Some(c.sheets.len() - 1) }
                    }
                    "T" => Kid::Text(b.to_owned()),
                    "C" => Kid::Comment(b.to_owned()),
                    _ => Kid::Pi,
                };
                // adjacent texts are one
                if let (Kid::Text(t), Some(p)) = (&kid, parent) {
                    if let Some(&last) = c.nodes[p].kids.last() {
                        if let Kid::Text(t0) = &mut c.nodes[last].kid {
                            t0.push_str(t);
                            continue;
                        }
                    }
                }
                if let Kid::Text(t) = &kid {
                    if t.is_empty() {
                        continue;
                    }
                }
                match (&kid, c.xml) {
                    (Kid::Pi, false) => return None,
                    _ => {}
                }
                if let Some(p) = parent {
                    c.nodes[p].kids.push(i)
                }
                if k == "E" {
                    element = Some(i);
                    stack.push(i);
                }
                c.nodes.push(Node { parent, kids: Vec::new(), kid });
            }
            "A" => {
                let d = (a.parse().ok()?, parse_decl(b)?);
                match &mut c.nodes[element?].kid {
                    Kid::Element { style, .. } => style.push(d),
                    _ => return None,
                }
            }
            "R" => {
                let s = c.sheets.last_mut()?;
                let seed = a.parse().ok()?;
                let selectors = if b.starts_with('?') {
                    None
                } else {
                    let v: Option<Vec<Complex>> = b.split(", ").map(parse_complex).collect();
                    Some(v?)
                };
                s.items.push(Item::Rule(Rule { seed, selectors, raw: b.trim_start_matches('?').to_owned(), decls: Vec::new() }))
            }
            "D" => match c.sheets.last_mut()?.items.last_mut()? {
                Item::Rule(r) => r.decls.push((a.parse().ok()?, parse_decl(b)?)),
                _ => return None,
            },
            "J" => {
                let n: usize = a.parse().ok()?;
                if n >= JUNK.len() {
                    return None;
                }
                c.sheets.last_mut()?.items.push(Item::Junk(n))
            }
            _ => return None,
        }
    }
    if c.nodes.is_empty() {
        return None;
    }
    Some(c)
}

impl Case {
    fn sheet_text(&self, s: &Sheet) -> String {
        let mut o = String::new();
        for it in &s.items {
            match it {
                Item::Junk(n) => o += JUNK[*n],
                Item::Rule(r) => {
                    let mut v = Vary(Rng::new(r.seed), r.seed != 0);
                    match &r.selectors {
                        None => o += &r.raw,
                        Some(cs) => {
                            for (j, c) in cs.iter().enumerate() {
                                if j > 0 {
                                    o += v.gap();
                                    o += ",";
                                }
                                o += v.gap();
                                o += &v.complex(c, self.xml);
                            }
                        }
                    }
                    o += v.gap();
                    o += "{";
                    o += v.gap();
                    o += &v.declarations(&r.decls);
                    o += "}";
                    o += v.gap();
                }
            }
            o += "\n"
        }
        o
    }

    fn html(&self, i: usize, o: &mut String) {
        match &self.nodes[i].kid {
            Kid::Text(t) => o.push_str(t),
            Kid::Comment(t) => *o += &format!("<!--{}-->", t),
            Kid::Pi => *o += "<?pi data?>",
            Kid::Element { tag, attrs, style, sheet } => {
                *o += "<";
                *o += tag;
                if self.xml && i == 0 {
                    *o += " xmlns='http://www.w3.org/1999/xhtml' xmlns:o='http://o.example/'"
                }
                let quote = |v: &str| {
                    let v = v.replace('&', "&amp;").replace('\'', "&#39;").replace('<', "&lt;");
                    // the parser of HTML normalizes these otherwise
                    if self.xml { v } else { v.replace('\r', "&#13;").replace('\n', "&#10;") }
                };
                for (n, v) in attrs {
                    *o += &format!(" {}='{}'", n, quote(v))
                }
                if !style.is_empty() {
                    let t = Vary(Rng::new(1), false).declarations(style);
                    // the parser of XML has its own rules about white space and control characters
                    let t = if self.xml { t.replace(|c: char| c < ' ', " ") } else { t };
                    *o += &format!(" style='{}'", quote(&t));
                }
                *o += &format!(" k='{}'>", i);
                if let Some(s) = sheet {
                    *o += &self.sheet_text(&self.sheets[*s])
                }
                for k in &self.nodes[i].kids {
                    self.html(*k, o)
                }
                if tag != "input" || self.xml {
                    *o += &format!("</{}>", tag)
                }
            }
        }
    }

    fn element(&self, i: usize) -> Option<(&str, &[(String, String)])> {
        match &self.nodes[i].kid {
            Kid::Element { tag, attrs, .. } => Some((tag, attrs)),
            _ => None,
        }
    }

    fn attr(&self, i: usize, name: &str) -> Option<String> {
        if name == "k" {
            return Some(format!("{}", i));
        }
        self.element(i)?.1.iter().find(|(n, _)| n == name).map(|(_, v)| v.clone())
    }

    /// The values of the attributes that a name in a selector stands for: `*|name` is one of any namespace.
    fn attrs_named(&self, i: usize, name: &str) -> Vec<String> {
        let mut v: Vec<String> = self.attr(i, name.trim_start_matches("*").trim_start_matches("|")).into_iter().collect();
        if name.starts_with("*|") {
            let tag = self.element(i).unwrap().0;
            let prefix = if self.xml { "o" } else { "xlink" };
            if self.xml || tag == "svg" || tag == "math" {
                v.extend(self.attr(i, &format!("{}:{}", prefix, &name[2..])))
            }
        }
        v
    }

    fn local<'a>(&'a self, i: usize) -> &'a str {
        let t = self.element(i).unwrap().0;
        t.trim_start_matches("o:")
    }

    fn matches_simple(&self, s: &Simple, i: usize) -> bool {
        match s {
            Simple::Any => true,
            Simple::Type(t) => self.local(i) == t,
            Simple::Class(c) => self
                .attr(i, "class")
                .map_or(false, |v| v.split(|c: char| " \t\n\r\x0c".contains(c)).any(|w| w == c)),
            Simple::Id(c) => self.attr(i, "id").map_or(false, |v| v == *c),
            Simple::Attr(n, op, v, ci) => self.attrs_named(i, n).into_iter().any(|a| {
                // the type attribute of HTML is compared without regard to case
                let ci = *ci || (n == "type" && !self.element(i).unwrap().0.starts_with("o:"));
                let (a, v) = if ci {
                    (a.to_ascii_lowercase(), v.to_ascii_lowercase())
                } else {
                    (a, v.clone())
                };
                match &**op {
                    "" => true,
                    "=" => a == v,
                    "~=" => !v.is_empty() && a.split(|c: char| " \t\n\r\x0c".contains(c)).any(|w| w == v),
                    "|=" => a == v || a.starts_with(&format!("{}-", v)),
                    "^=" => !v.is_empty() && a.starts_with(&v),
                    "$=" => !v.is_empty() && a.ends_with(&v),
                    "*=" => !v.is_empty() && a.contains(&v),
                    _ => unreachable!(),
                }
            }),
            Simple::Nth { a, b, of_type, last, .. } => {
                let sib = self.siblings(i, *of_type);
                let at = sib.iter().position(|x| *x == i).unwrap();
                let n = (if *last { sib.len() - at } else { at + 1 }) as i64;
                (0..200).any(|k| a * k + b == n)
            }
            Simple::Only { of_type } => self.siblings(i, *of_type).len() == 1,
            Simple::Empty => self.nodes[i].kids.iter().all(|k| match &self.nodes[*k].kid {
                Kid::Comment(_) | Kid::Pi => true,
                _ => false,
            }) && match &self.nodes[i].kid {
                Kid::Element { sheet: Some(s), .. } => self.sheet_text(&self.sheets[*s]).is_empty(),
                _ => true,
            },
            Simple::Root => i == 0,
            Simple::Not(s) => !self.matches_simple(s, i),
        }
    }

    fn siblings(&self, i: usize, of_type: bool) -> Vec<usize> {
        match self.nodes[i].parent {
            None => vec![i],
            Some(p) => self.nodes[p]
                .kids
                .iter()
                .cloned()
                .filter(|k| self.element(*k).is_some())
                .filter(|k| !of_type || self.element(*k).unwrap().0 == self.element(i).unwrap().0)
                .collect(),
        }
    }

    fn matches(&self, parts: &[(char, Vec<Simple>)], i: usize) -> bool {
        let ((comb, last), rest) = parts.split_last().unwrap();
        if !last.iter().all(|s| self.matches_simple(s, i)) {
            return false;
        }
        if rest.is_empty() {
            return true;
        }
        match comb {
            ' ' => {
                let mut p = self.nodes[i].parent;
                while let Some(a) = p {
                    if self.matches(rest, a) {
                        return true;
                    }
                    p = self.nodes[a].parent
                }
                false
            }
            '>' => self.nodes[i].parent.map_or(false, |p| self.matches(rest, p)),
            _ => {
                let sib = self.siblings(i, false);
                let at = sib.iter().position(|x| *x == i).unwrap();
                if *comb == '+' {
                    at > 0 && self.matches(rest, sib[at - 1])
                } else {
                    sib[..at].iter().any(|s| self.matches(rest, *s))
                }
            }
        }
    }

    /// The declared values for an element that win, by longhand.
    fn winners(&self, i: usize, dev: Deviations) -> BTreeMap<String, Val> {
        // (origin and importance, specificity, position)
        type Key = (u32, (u32, u32, u32), usize);
        let mut best: BTreeMap<String, (Key, Val)> = BTreeMap::new();
        let mut offer = |name: &str, value: &str, key: Key| {
            if let Some(v) = declared(name, value, dev) {
                for (n, v) in v {
                    let e = best.entry(n).or_insert((key, v.clone()));
                    if key >= e.0 {
                        *e = (key, v)
                    }
                }
            }
        };
        let mut at = 0;
        for (sel, decls) in UA {
            for s in sel.split(", ") {
                let c = parse_complex(s).unwrap();
                if self.matches(&c.parts, i) {
                    for d in decls.iter() {
                        let d = parse_decl(d).unwrap();
                        at += 1;
                        offer(&d.name, &d.value, (if d.important { 3 } else { 0 }, specificity(&c), at));
                    }
                }
            }
        }
        for sheet in &self.sheets {
            if sheet.other_type {
                continue;
            }
            for it in sheet.items.iter() {
                let (cs, decls) = match it {
                    Item::Rule(Rule { selectors: Some(cs), decls, .. }) => (cs, decls),
                    _ => continue,
                };
                for c in cs {
                    if self.matches(&c.parts, i) {
                        for (j, (_, d)) in decls.iter().enumerate() {
                            if d.raw.is_none() {
                                offer(&d.name, &d.value, (if d.important { 2 } else { 1 }, specificity(c), at + 1 + j));
                            }
                        }
                    }
                }
                at += decls.len();
            }
        }
        if let Kid::Element { style, tag, .. } = &self.nodes[i].kid {
            if !tag.starts_with("o:") {
                for (_, d) in style {
                    at += 1;
                    if d.raw.is_none() {
                        offer(&d.name, &d.value, (if d.important { 2 } else { 1 }, (1000, 0, 0), at));
                    }
                }
            }
        }
        best.into_iter().map(|(n, (_, v))| (n, v)).collect()
    }
}

const UA: &[(&str, &[&str])] = &[
    ("[hidden], head, style, template", &["display: none"]),
    ("embed[hidden]", &["display: inline", "height: 0", "width: 0"]),
    ("input[type=\"hidden\" i]", &["display: none !"]),
    ("html, body", &["display: block"]),
    ("body", &["margin: 8px"]),
    ("div, figure, main", &["display: block"]),
];

type Computed = BTreeMap<String, Val>;

fn compute(case: &Case, i: usize, parent: Option<&Computed>, dev: Deviations) -> Computed {
    let win = case.winners(i, dev);
    let mut out = Computed::new();
    let mut all = longhands();
    // the font size first: other lengths depend on it
    all.sort_by_key(|(n, _)| n != "font-size");
    for (name, kind) in &all {
        let init = initial(name, *kind);
        let from_parent = || parent.map_or(init.clone(), |p| p[name].clone());
        let default = if inherited(name) { from_parent() } else { init.clone() };
        let v = match win.get(name) {
            None | Some(Val::Unset) => default,
            Some(Val::Inherit) => from_parent(),
            Some(Val::Initial) => init.clone(),
            Some(Val::Len(Len::Em(n))) => {
                let em = if name == "font-size" {
                    parent.map_or(Val::Len(Len::Px(16.)), |p| p["font-size"].clone())
                } else {
                    out["font-size"].clone()
                };
                match em {
                    Val::Len(Len::Px(em)) => Val::Len(Len::Px(n * em)),
                    _ => unreachable!(),
                }
            }
            Some(Val::Col(Col::Current)) if name == "color" => from_parent(),
            Some(v) => v.clone(),
        };
        out.insert(name.clone(), v);
    }
    for s in &SIDES {
        if out[&format!("border-{}-style", s)] == Val::Kw("none") {
            out.insert(format!("border-{}-width", s), Val::Len(Len::Px(0.)));
        }
    }
    out.insert("specified-display".to_owned(), out["display"].clone());
    if out["display"] == Val::Kw("inline") && (out["float"] != Val::Kw("none") || out["position"] == Val::Kw("absolute")) {
        out.insert("display".to_owned(), Val::Kw("block"));
    }
    out
}

fn agree(v: &Val, s: &str) -> bool {
    match v {
        Val::Len(Len::Auto) => s == "auto",
        Val::Len(Len::Px(n)) => s.ends_with("px") && close(*n, &s[..s.len() - 2]),
        Val::Len(Len::Pc(n)) => s.ends_with('%') && close(*n, &s[..s.len() - 1]),
        Val::Col(Col::Current) => s == "currentcolor",
        Val::Col(Col::Rgba(r, g, b, a)) => s == format!("{},{},{},{}", r, g, b, a),
        Val::Kw(k) => *k == s,
        _ => false,
    }
}

fn close(n: f64, s: &str) -> bool {
    match s.parse::<f64>() {
        Ok(x) => (x - n).abs() <= 1e-5 * n.abs() + 1e-6,
        Err(_) => false,
    }
}

fn compare(case: &Case, got: &BTreeMap<usize, BTreeMap<String, String>>, dev: Deviations) -> Result<(), String> {
    let mut done: BTreeMap<usize, Computed> = BTreeMap::new();
    for i in 0..case.nodes.len() {
        if case.element(i).is_none() {
            continue;
        }
        let parent = case.nodes[i].parent.map(|p| done[&p].clone());
        let c = compute(case, i, parent.as_ref(), dev);
        let g = &got[&i];
        for (n, v) in &c {
            if i == 0 && n == "display" {
                // the root element is block-level in layout, see the paint of documents
                continue;
            }
            if !agree(v, &g[n]) {
                return Err(format!("element {} ({}): {} is {}, not {:?}", i, case.element(i).unwrap().0, n, g[n], v));
            }
        }
        done.insert(i, c);
    }
    Ok(())
}

const DEVIATIONS: [(&str, Deviations); 4] = [
    ("four-sides-order", Deviations { sides: true, negative: false, percentage: false }),
    ("negative-size", Deviations { sides: false, negative: true, percentage: false }),
    ("percentage-border", Deviations { sides: false, negative: false, percentage: true }),
    ("four-sides-order", Deviations { sides: true, negative: true, percentage: true }),
];

/// `report`: whether known deviations count as violations of the property.
fn check(text: &str, report: bool) -> Result<bool, String> {
    let case = match parse_case(text) {
        None => return Ok(false),
        Some(c) => c,
    };
    let mut html = String::new();
    case.html(0, &mut html);
    let (doc, sheets) = if case.xml {
        let sheets: Vec<String> = case.sheets.iter().map(|s| case.sheet_text(s)).collect();
        match Document::parse_xml(html.as_bytes()) {
            Ok(d) => (d, Some(sheets)),
            Err(_) => return Ok(false),
        }
    } else {
        (Document::parse_html(format!("<!DOCTYPE html>{}", html).as_bytes()), None)
    };
    let computed = vs::computed(&doc, sheets.as_ref().map(|s| &**s));
    // the document must be the one that was meant
    let mut got = BTreeMap::new();
    let mut order = Vec::new();
    for (k, parent, props) in computed {
        let i: usize = match k.and_then(|k| k.parse().ok()) {
            Some(i) => i,
            None => return Ok(false),
        };
        order.push((i, parent.and_then(|p| p.parse::<usize>().ok())));
        got.insert(i, props.into_iter().collect::<BTreeMap<String, String>>());
    }
    let meant: Vec<(usize, Option<usize>)> = (0..case.nodes.len())
        .filter(|i| case.element(*i).is_some())
        .map(|i| (i, case.nodes[i].parent))
        .collect();
    if order != meant {
        return Ok(false);
    }
    match compare(&case, &got, Deviations::default()) {
        Ok(()) => Ok(meant.len() > 3),
        Err(e) => {
            for (key, dev) in &DEVIATIONS {
                if compare(&case, &got, *dev).is_ok() {
                    if !report {
                        return Ok(meant.len() > 3);
                    }
                    return Err(format!("[{}] {}", key, e));
                }
            }
            Err(format!("{}\n{}{}", e, html, sheets.map_or(String::new(), |s| format!("\nSheets: {:?}", s))))
        }
    }
}

fn key(message: &str) -> String {
    if message.starts_with('[') {
        message[1..].split(']').next().unwrap().to_owned()
    } else {
        String::new()
    }
}

// ---------------------------------------------------------------- generation

const TAGS: [&str; 10] = ["div", "span", "section", "main", "figure", "x-y", "input", "embed", "svg", "math"];
const CLASSES: [&str; 5] = ["a", "b", "c", "A", "ab"];
const VALUES: [&str; 12] = ["foo", "foo-bar", "foo bar", "FOO", "", "bar", "hidden", "HIDDEN", "f", "oo", "bar foo", "-bar"];

fn seed(r: &mut Rng) -> u64 {
    if r.chance(50) {
        0
    } else {
        1 + r.below(100000) as u64
    }
}

/// Attributes with a namespace or for elements of which names are compared without regard to case.
fn gen_foreign(r: &mut Rng, xml: bool) -> String {
    let mut o = String::new();
    let prefixed = if xml { "o:href" } else { "xlink:href" };
    let two = if r.chance(50) { ["href", prefixed] } else { [prefixed, "href"] };
    for n in &two {
        if r.chance(60) {
            o += &format!("|{}={}", n, r.pick(&VALUES))
        }
    }
    o
}

fn gen_attrs(r: &mut Rng, xml: bool) -> String {
    let mut o = String::new();
    if r.chance(8) {
        o += &gen_foreign(r, xml)
    }
    if r.chance(50) {
        let n = 1 + r.below(3);
        // what separates words; U+000B and U+00A0 do not
        let seps = if xml { [" ", "  ", " ", " ", " ", " ", " ", "\u{a0}"] } else { [" ", "  ", "\t", "¶", "\r", "\x0c", " ", "\u{a0}"] };
        let mut v = String::new();
        for i in 0..n {
            if i > 0 || r.chance(10) {
                v += seps[r.below(8)]
            }
            v += r.pick(&CLASSES)
        }
        o += &format!("|class={}", v)
    }
    if r.chance(25) {
        o += &format!("|id={}", r.pick(&["i", "j", "I"]))
    }
    for n in &["t", "u", "data-x", "type"] {
        if r.chance(15) {
            o += &format!("|{}={}", n, r.pick(&VALUES))
        }
    }
    if r.chance(4) {
        o += "|hidden="
    }
    o
}

fn gen_tree(r: &mut Rng, out: &mut String, depth: usize, left: &mut usize, xml: bool, attrs: usize, styles: &mut dyn FnMut(&mut Rng, &mut String)) {
    let n = 1 + r.below(5);
    for _ in 0..n {
        if *left == 0 {
            return;
        }
        *left -= 1;
        // many nodes that are not elements
        let run = if r.chance(4) { 1 + r.below(9) } else { 0 };
        for _ in 0..run {
            match r.below(3) {
                0 => *out += &format!("T {} {}\n", depth, r.pick(&["x", " "])),
                1 if xml => *out += &format!("P {}\n", depth),
                _ => *out += &format!("C {} c\n", depth),
            }
        }
        match r.below(12) {
            0 | 1 => *out += &format!("T {} {}\n", depth, r.pick(&["x", " ", "text y", "\t"])),
            2 => *out += &format!("C {} {}\n", depth, r.pick(&["c", " ", ""])),
            3 if xml => *out += &format!("P {}\n", depth),
            _ => {
                let tag = if xml && r.chance(20) { "o:other" } else { r.pick(&TAGS) };
                // names are only compared without regard to case in HTML
                let foreign = tag == "svg" || tag == "math";
                if foreign && xml {
                    continue;
                }
                *out += &format!("E {} {}{}\n", depth, tag, if foreign && r.chance(attrs) { gen_foreign(r, xml) } else if !foreign && r.chance(attrs) { gen_attrs(r, xml) } else { String::new() });
                styles(r, out);
                let void = foreign || tag == "input" || tag == "embed";
                if !void && depth < 7 && r.chance(60) {
                    gen_tree(r, out, depth + 1, left, xml, attrs, styles)
                }
            }
        }
    }
}

fn gen_number(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "0".to_owned(),
        1 => format!("{}", r.range(0, 30)),
        2 => format!("0.{}", [25, 5, 75][r.below(3)]),
        3 => format!("-{}", r.range(1, 9)),
        4 => format!("{}.5", r.range(0, 9)),
        _ => format!("{}", 10 * r.range(1, 12)),
    }
}

fn positive(r: &mut Rng) -> String {
    loop {
        let n = gen_number(r);
        if !n.starts_with('-') {
            return n;
        }
    }
}

fn gen_color(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => "currentcolor".to_owned(),
        2 => format!("#{:03x}", r.below(0x1000)),
        3 => format!("#{:06x}", r.below(0x1000000)),
        4 => format!("rgb({},{},{})", r.below(256), r.range(-20, 300), r.below(256)),
        5 => format!("rgba({},{},{},{})", r.below(256), r.below(256), r.below(256), ["0", "1", "0.2", "0.4", "0.6", "0.8", "2"][r.below(7)]),
        6 => format!("rgb({}%,{}%,{}%)", r.below(6) * 20, r.below(6) * 20, r.below(6) * 20),
        _ => NAMES[r.below(NAMES.len())].0.to_owned(),
    }
}

fn gen_value(r: &mut Rng, kind: Kind, negative: bool) -> String {
    let num = |r: &mut Rng| if negative { gen_number(r) } else { positive(r) };
    let len = |r: &mut Rng| {
        if r.chance(10) {
            "0".to_owned()
        } else {
            format!("{}{}", num(r), if r.chance(60) { "px" } else { "em" })
        }
    };
    match kind {
        Kind::FontSize => {
            let n = positive(r);
            if r.chance(40) {
                format!("{}px", n)
            } else {
                format!("{}em", [0.5, 2., 1.5, 0.25, 3.][r.below(5)])
            }
        }
        Kind::Color | Kind::ColorOrCurrent => gen_color(r),
        Kind::Lpa | Kind::LpaSize if r.chance(20) => "auto".to_owned(),
        Kind::Lpa | Kind::LpaSize | Kind::Lp => {
            if r.chance(30) {
                format!("{}%", num(r))
            } else {
                len(r)
            }
        }
        Kind::LineStyle => r.pick(&["solid", "solid", "none"]).to_owned(),
        Kind::LineWidth => {
            if r.chance(40) {
                r.pick(&["thin", "medium", "thick"]).to_owned()
            } else {
                len(r)
            }
        }
        Kind::Kw(k) => k[r.below(k.len())].to_owned(),
    }
}

const SHORT: [&str; 7] = ["margin", "padding", "border-color", "border-style", "border-width", "border-top", "background"];

fn gen_valid(r: &mut Rng) -> (String, String) {
    if r.chance(35) {
        let n = r.pick(&SHORT);
        if r.chance(10) {
            return (n.to_owned(), r.pick(&["inherit", "initial", "unset"]).to_owned());
        }
        let kind = match n {
            "margin" => Kind::Lpa,
            "padding" => Kind::Lp,
            "border-color" | "background" => Kind::ColorOrCurrent,
            "border-style" => Kind::LineStyle,
            _ => Kind::LineWidth,
        };
        if n == "background" {
            return (n.to_owned(), gen_value(r, kind, false));
        }
        if n == "border-top" {
            let mut v = vec![gen_value(r, Kind::LineStyle, false), gen_color(r), gen_value(r, Kind::LineWidth, false)];
            while v.len() > 1 && r.chance(40) {
                let k = r.below(v.len());
                v.remove(k);
            }
            for i in (1..v.len()).rev() {
                let k = r.below(i + 1);
                v.swap(i, k);
            }
            return (n.to_owned(), v.join(" "));
        }
        let count = 1 + r.below(4);
        let mut v: Vec<String> = (0..count).map(|_| gen_value(r, kind, n == "margin")).collect();
        if count == 4 && !r.chance(2) {
            // the order of the second and fourth value is a known finding
            v[3] = v[1].clone()
        }
        return (n.to_owned(), v.join(" "));
    }
    let all = longhands();
    let (n, k) = &all[r.below(all.len())];
    if r.chance(12) {
        return (n.clone(), r.pick(&["inherit", "initial", "unset"]).to_owned());
    }
    (n.clone(), gen_value(r, *k, *k == Kind::Lpa))
}

const RAW: [&str; 22] = [
    "color red", "color", ": red", "color: ", "color:: red", "@foo", "@foo { color: red }", "color: (red; color: blue)",
    "color: [red", "foo: bar", "color: red blue", "color: red !importan", "color: red ! important x", "margin: 1px 2px 3px 4px 5px",
    "margin: 1px, 2px", "margin: 1", "padding: auto", "width: 10foo", "12px", "color: 'red'", "color: url(red)", "font-size: big",
];

fn gen_decl(r: &mut Rng, invalid: usize, important: usize) -> String {
    if r.chance(invalid) {
        if r.chance(50) {
            let k = r.below(RAW.len());
            // an open bracket takes the rest along
            return if k == 8 { "?color: {red}".to_owned() } else { format!("?{}", RAW[k]) };
        }
        let (n, v) = gen_valid(r);
        let (n2, v2) = gen_valid(r);
        return match r.below(5) {
            0 => format!("{}: {} {}", n, v, v2),
            1 => format!("{}: {}", n2, v),
            2 => format!("{}x: {}", n, v),
            3 => format!("{}: {} inherit", n, v),
            _ => format!("{}: {} foo !", n, v),
        };
    }
    let (n, v) = gen_valid(r);
    format!("{}: {}{}", n, v, if r.chance(important) { " !" } else { "" })
}

fn gen_simple(r: &mut Rng, deep: bool) -> String {
    match r.below(if deep { 13 } else { 12 }) {
        0 | 1 => format!(".{}", r.pick(&CLASSES)),
        2 => format!("#{}", r.pick(&["i", "j", "I"])),
        3 => format!("[{}]", r.pick(&["t", "u", "data-x", "type", "id", "class", "hidden", "href", "*|href", "|href"])),
        4 | 5 => format!(
            "[{}{}\"{}\"{}]",
            r.pick(&["t", "u", "data-x", "type", "id", "class", "href", "*|href"]),
            r.pick(&["=", "~=", "|=", "^=", "$=", "*="]),
            r.pick(&VALUES),
            if r.chance(20) { " i" } else { "" }
        ),
        6 => format!(":{}", r.pick(&["first-child", "last-child", "first-of-type", "last-of-type"])),
        7 => format!(":{}", r.pick(&["only-child", "only-of-type"])),
        8 | 9 => format!(
            ":{}({}n{:+})",
            r.pick(&["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"]),
            r.range(-2, 3),
            r.range(-3, 5)
        ),
        10 => ":empty".to_owned(),
        11 => ":root".to_owned(),
        _ => format!(":not({})", if r.chance(30) { r.pick(&TAGS).to_owned() } else { gen_simple(r, false) }),
    }
}

fn gen_selector(r: &mut Rng) -> String {
    let mut o = String::new();
    let n = 1 + [0, 0, 0, 1, 1, 2, 3][r.below(7)];
    for i in 0..n {
        if i > 0 {
            o += r.pick(&[" ", " ", " > ", " + ", " ~ "])
        }
        let mut any = false;
        if r.chance(50) {
            any = true;
            o += if r.chance(25) { "*" } else { r.pick(&["div", "span", "section", "main", "figure", "x-y", "other", "body", "html", "head", "style", "input", "embed", "svg", "*"]) }
        }
        let mut k = [0, 1, 1, 2][r.below(4)];
        if !any && k == 0 {
            k = 1
        }
        for _ in 0..k {
            o += &gen_simple(r, true)
        }
    }
    o
}

const BAD: [&str; 14] = [
    "div >", "> div", "div,,p", ":unknown", "::before", ".", "#1a", ".1a", "div $ p", "[a=]", ":nth-child(foo)", "", "div, ", ", div",
];

fn gen_list(r: &mut Rng, invalid: usize) -> String {
    if r.chance(invalid) {
        return format!("?{}", r.pick(&BAD));
    }
    let n = 1 + [0, 0, 0, 1, 2][r.below(5)];
    (0..n).map(|_| gen_selector(r)).collect::<Vec<_>>().join(", ")
}

fn gen_sheet(r: &mut Rng, out: &mut String, rules: usize, junk: usize, invalid_selectors: usize, decl: &mut dyn FnMut(&mut Rng) -> String) {
    for _ in 0..rules {
        if r.chance(junk) {
            *out += &format!("J {}\n", r.below(JUNK.len()))
        }
        let s = seed(r);
        *out += &format!("R {} {}\n", s, gen_list(r, invalid_selectors));
        let n = if r.chance(1) { 60 + r.below(20) } else { 1 + r.below(3) };
        for _ in 0..n {
            *out += &format!("D {} {}\n", seed(r), decl(r))
        }
    }
}

fn skeleton(r: &mut Rng, xml: bool, n: usize, attrs: usize, rules: usize, junk: usize, invalid: usize, decl: &mut dyn FnMut(&mut Rng) -> String, inline: usize) -> String {
    let mut o = String::new();
    if xml {
        o += "X\n"
    }
    let a = |r: &mut Rng| if r.chance(attrs / 2) { gen_attrs(r, xml) } else { String::new() };
    o += &format!("E 0 html{}\n", a(r));
    if r.chance(inline / 2) {
        o += &format!("A {} {}\n", seed(r), decl(r))
    }
    o += "E 1 head\n";
    let rules = if r.chance(5) { 50 } else { rules };
    for _ in 0..1 + r.below(2) {
        o += &format!("S 2{}\n", r.pick(&["", "", "", "", " text/css", " TEXT/CSS", " text/plain"]));
        let k = 1 + r.below(rules);
        gen_sheet(r, &mut o, k, junk, invalid, decl);
        if r.chance(10) {
            o += "C 2 x\n"
        }
    }
    o += &format!("E 1 body{}\n", a(r));
    let mut left = n;
    let mut styles = |r: &mut Rng, out: &mut String| {
        if r.chance(inline) {
            for _ in 0..1 + r.below(3) {
                *out += &format!("A {} {}\n", seed(r), decl(r))
            }
        }
    };
    gen_tree(r, &mut o, 2, &mut left, xml, attrs, &mut styles);
    if r.chance(30) && !xml {
        o += "S 2\n";
        let k = 1 + r.below(rules);
        gen_sheet(r, &mut o, k, junk, invalid, decl);
    }
    o
}

macro_rules! common {
    ($report: expr) => {
        fn check(&self, case: &str) -> Result<bool, String> {
            check(case, $report)
        }
        fn key(&self, _case: &str, message: &str) -> String {
            key(message)
        }
    };
}

pub struct Cascade;

impl Prop for Cascade {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 600) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "documents with rules and style attributes that set the same few properties, normal and important"
    }
    fn generate(&self, r: &mut Rng, _: u64) -> String {
        // few properties, so that declarations compete
        let props: Vec<(&str, Vec<&str>)> = vec![
            ("color", vec!["red", "blue", "lime", "inherit", "initial"]),
            ("margin-left", vec!["1px", "2px", "3px", "auto"]),
            ("margin", vec!["4px", "5px 6px", "unset"]),
            ("display", vec!["none", "inline", "block", "contents"]),
            ("font-size", vec!["2em", "10px", "20px"]),
            ("width", vec!["1em", "50%", "auto"]),
            ("border-top", vec!["solid", "1px", "red solid"]),
            ("border-top-style", vec!["solid", "none"]),
        ];
        let used = 1 + r.below(3);
        let chosen: Vec<usize> = (0..used).map(|_| r.below(props.len())).collect();
        let important = [0, 10, 30][r.below(3)];
        let mut decl = |r: &mut Rng| {
            let (n, v) = &props[chosen[r.below(chosen.len())]];
            format!("{}: {}{}", n, v[r.below(v.len())], if r.chance(important) { " !" } else { "" })
        };
        let xml = r.chance(15);
        skeleton(r, xml, 10, 70, 9, 10, 5, &mut decl, 25)
    }
    common!(false);
}

pub struct Declarations;

impl Prop for Declarations {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 600) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "documents with valid and invalid declarations of all properties in rules and style attributes"
    }
    fn fixed(&self) -> Vec<String> {
        let t = |d: &str| format!("E 0 html\nE 1 head\nE 1 body\nE 2 div\nA 0 {}", d);
        vec![
            t("margin: 1px 2px 3px 4px"),
            t("padding-left: -1px"),
            t("border-style: solid\nA 0 border-left-width: 10%"),
        ]
    }
    fn generate(&self, r: &mut Rng, _: u64) -> String {
        let invalid = [0, 25, 50][r.below(3)];
        let mut decl = |r: &mut Rng| gen_decl(r, invalid, 10);
        let xml = r.chance(10);
        skeleton(r, xml, 4, 30, 5, 25, 15, &mut decl, 60)
    }
    common!(true);
}

pub struct Selectors;

impl Prop for Selectors {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 600) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "documents of up to about 30 nodes with rules of random selectors, each with a mark of its own"
    }
    fn generate(&self, r: &mut Rng, _: u64) -> String {
        // a mark that no other rule has, as far as there are properties
        let all: Vec<String> = longhands().into_iter().filter(|(_, k)| *k == Kind::Lpa || *k == Kind::Lp).map(|(n, _)| n).collect();
        let mut n = 0;
        let mut decl = |_: &mut Rng| {
            n += 1;
            format!("{}: {}px", all[n % all.len()], n)
        };
        let xml = r.chance(30);
        skeleton(r, xml, 30, 80, 8, 5, 8, &mut decl, 3)
    }
    common!(false);
}

pub struct ComputedP;

impl Prop for ComputedP {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 600) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "deep documents with style attributes: font sizes, ems, inheritance, borders, positions, floats"
    }
    fn generate(&self, r: &mut Rng, _: u64) -> String {
        let mut decl = |r: &mut Rng| match r.below(8) {
            0 => format!("font-size: {}", gen_value(r, Kind::FontSize, false)),
            1 => format!("{}: inherit", longhands()[r.below(32)].0),
            2 => format!("{}: {}em", r.pick(&["width", "margin-top", "padding-left", "border-left-width", "top", "right"]), ["2", "0.5", "1.5"][r.below(3)]),
            3 => format!("border-{}-{}", r.pick(&SIDES), r.pick(&["style: solid", "style: none", "width: 2em", "width: thick"])),
            4 => format!("color: {}", gen_color(r)),
            5 => r.pick(&["position: absolute", "float: left", "float: right", "position: relative", "display: inline", "display: contents", "display: flow-root", "display: none"]).to_owned(),
            _ => {
                let (n, v) = gen_valid(r);
                format!("{}: {}", n, v)
            }
        };
        let xml = r.chance(10);
        skeleton(r, xml, 25, 30, 4, 0, 0, &mut decl, 60)
    }
    common!(false);
}
