//! Layout and painting of documents, against a model of the CSS specifications
//! that lays out in another way: one walk over a block formatting context with
//! a list of pending margins, and boxes that get their place when it is known.
//!
//! A case has one line per node, in document order:
//!   DEPTH TAG DECLARATIONS     an element (html, body, div or span)
//!   DEPTH # TEXT               text, with \n and \t for line feeds and tabs
//!   DEPTH ! TEXT               a comment
use crate::common::*;
use crate::ensure;
use crate::pdfread::*;
use std::collections::{BTreeMap, HashMap};
use victor::dom::Document;
use victor::fonts::BITSTREAM_VERA_SANS;
use victor::verif::font as vf;

// ---------------------------------------------------------------- documents

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lpa {
    Px(f64),
    Pc(f64),
    Auto,
}
use Lpa::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Disp {
    Block,
    FlowRoot,
    Inline,
    Contents,
    None,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pos {
    Static,
    Relative,
    Absolute,
}

const T: usize = 0;
const L: usize = 1;
const B: usize = 2;
const R: usize = 3;
const SIDES: [&str; 4] = ["top", "left", "bottom", "right"];

#[derive(Clone, Debug)]
pub struct Style {
    pub specified: Disp,
    pub disp: Disp,
    pub pos: Pos,
    pub inset: [Lpa; 4],
    pub width: Lpa,
    pub height: Lpa,
    pub margin: [Lpa; 4],
    pub padding: [Lpa; 4],
    pub border: [f64; 4],
    pub size: f64,
    pub color: [f64; 4],
    pub background: [f64; 4],
}

#[derive(Debug)]
pub enum Kind {
    El(String),
    Text(String),
    Comment(String),
}

#[derive(Debug)]
pub struct Node {
    pub kind: Kind,
    pub css: String,
    pub children: Vec<usize>,
    pub style: Option<Style>,
}

pub struct Doc {
    pub nodes: Vec<Node>,
    pub html: usize,
    pub css_html: String,
}

/// Why a case is outside of what the model describes
pub type Skip = &'static str;

fn unescape(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\t", "\t")
}

pub fn parse_doc(case: &str) -> Option<Doc> {
    let mut nodes: Vec<Node> = Vec::new();
    let new = |nodes: &mut Vec<Node>, kind, css: &str| {
        nodes.push(Node { kind, css: css.to_owned(), children: vec![], style: None });
        nodes.len() - 1
    };
    let html = new(&mut nodes, Kind::El("html".into()), "");
    let body = new(&mut nodes, Kind::El("body".into()), "");
    nodes[html].children.push(body);
    let mut stack: Vec<(i64, usize)> = vec![(-1, body)];
    for line in case.lines() {
        let mut it = line.splitn(3, ' ');
        let depth: i64 = match it.next().unwrap_or("").parse() {
            Ok(d) if d >= 0 => d,
            _ => continue,
        };
        let tag = it.next().unwrap_or("");
        let rest = it.next().unwrap_or("");
        while stack.last().unwrap().0 >= depth {
            stack.pop();
        }
        let parent = stack.last().unwrap().1;
        match tag {
            "html" => nodes[html].css = rest.to_owned(),
            "body" => nodes[body].css = rest.to_owned(),
            "#" => {
                if !rest.is_empty() {
                    let n = new(&mut nodes, Kind::Text(unescape(rest)), "");
                    nodes[parent].children.push(n)
                }
            }
            "!" => {
                let n = new(&mut nodes, Kind::Comment(rest.replace("-", "")), "");
                nodes[parent].children.push(n)
            }
            "div" | "span" => {
                let n = new(&mut nodes, Kind::El(tag.to_owned()), rest);
                nodes[parent].children.push(n);
                stack.push((depth, n))
            }
            _ => return None,
        }
    }
    let mut doc = Doc { nodes, html, css_html: String::new() };
    let mut n = 0;
    doc.css_html = "<!DOCTYPE html>".into();
    let mut out = String::new();
    give_colors(&mut doc.nodes, html, &mut n, &mut out);
    doc.css_html += &out;
    cascade(&mut doc.nodes, html, None)?;
    Some(doc)
}

fn give_colors(nodes: &mut Vec<Node>, i: usize, n: &mut usize, out: &mut String) {
    match &nodes[i].kind {
        Kind::Text(t) => {
            *out += t;
            return;
        }
        Kind::Comment(t) => {
            *out += &format!("<!--{}-->", t);
            return;
        }
        Kind::El(tag) => {
            let k = *n;
            *n += 1;
            let mut css = nodes[i].css.clone();
            let declares = |name: &str| nodes[i].css.split(';').any(|d| d.split(':').next().unwrap().trim() == name);
            if !declares("color") {
                css += &format!("; color: rgb({}, {}, 200)", k & 255, k >> 8)
            }
            if !declares("background-color") {
                css += &format!("; background-color: rgb({}, {}, 100)", k & 255, k >> 8)
            }
            *out += &format!("<{} style=\"{}\">", tag, css);
            nodes[i].css = css;
            for c in nodes[i].children.clone() {
                give_colors(nodes, c, n, out)
            }
            let tag = match &nodes[i].kind {
                Kind::El(t) => t.clone(),
                _ => unreachable!(),
            };
            if tag != "html" && tag != "body" {
                *out += &format!("</{}>", tag)
            }
        }
    }
}

fn lpa(v: &str, em: f64) -> Option<Lpa> {
    if v == "auto" {
        Some(Auto)
    } else if v == "0" {
        Some(Px(0.))
    } else if v.ends_with("px") {
        v[..v.len() - 2].parse().ok().map(Px)
    } else if v.ends_with("em") {
        v[..v.len() - 2].parse().ok().map(|x: f64| Px(x * em))
    } else if v.ends_with('%') {
        v[..v.len() - 1].parse().ok().map(|x: f64| Pc(x / 100.))
    } else {
        None
    }
}

fn cascade(nodes: &mut Vec<Node>, i: usize, parent: Option<&Style>) -> Option<()> {
    let tag = match &nodes[i].kind {
        Kind::El(t) => t.clone(),
        _ => return Some(()),
    };
    let mut s = Style {
        specified: if tag == "span" { Disp::Inline } else { Disp::Block },
        disp: Disp::Inline,
        pos: Pos::Static,
        inset: [Auto; 4],
        width: Auto,
        height: Auto,
        margin: [if tag == "body" { Px(8.) } else { Px(0.) }; 4],
        padding: [Px(0.); 4],
        border: [0.; 4],
        size: parent.map_or(16., |p| p.size),
        color: parent.map_or([0., 0., 0., 1.], |p| p.color),
        background: [0.; 4],
    };
    let decls: Vec<(String, String)> = nodes[i]
        .css
        .split(';')
        .filter_map(|d| {
            let mut it = d.splitn(2, ':');
            let n = it.next()?.trim().to_owned();
            Some((n, it.next()?.trim().to_owned()))
        })
        .collect();
    let color = |v: &str, current: [f64; 4]| -> Option<[f64; 4]> {
        match v {
            "transparent" => Some([0.; 4]),
            "currentColor" => Some(current),
            _ => {
                let x: Vec<f64> = v[v.find('(')? + 1..v.find(')')?].split(',').map(|x| x.trim().parse().unwrap_or(0.)).collect();
                let a = x.get(3).cloned().unwrap_or(1.);
                // opacity is kept in 8 bits
                Some([x[0] / 255., x[1] / 255., x[2] / 255., (a * 255.).round() / 255.])
            }
        }
    };
    for (n, v) in &decls {
        match &**n {
            "font-size" => {
                s.size = match lpa(v, s.size)? {
                    Px(x) => x,
                    Pc(_) | Auto => return None,
                }
            }
            "color" => s.color = color(v, parent.map_or([0., 0., 0., 1.], |p| p.color))?,
            _ => {}
        }
    }
    let em = s.size;
    let mut solid = [false; 4];
    let mut widths = [3.; 4];
    for (n, v) in &decls {
        let v = &**v;
        match &**n {
            "display" => {
                s.specified = match v {
                    "block" => Disp::Block,
                    "flow-root" => Disp::FlowRoot,
                    "inline" => Disp::Inline,
                    "contents" => Disp::Contents,
                    "none" => Disp::None,
                    _ => return None,
                }
            }
            "position" => {
                s.pos = match v {
                    "static" => Pos::Static,
                    "relative" => Pos::Relative,
                    "absolute" => Pos::Absolute,
                    _ => return None,
                }
            }
            "width" => s.width = lpa(v, em)?,
            "height" => s.height = lpa(v, em)?,
            "background-color" => s.background = color(v, s.color)?,
            "color" | "font-size" => {}
            n => {
                let side = |prefix: &str, suffix: &str| SIDES.iter().position(|x| *n == format!("{}{}{}", prefix, x, suffix));
                if let Some(k) = side("", "") {
                    s.inset[k] = lpa(v, em)?
                } else if let Some(k) = side("margin-", "") {
                    s.margin[k] = lpa(v, em)?
                } else if let Some(k) = side("padding-", "") {
                    s.padding[k] = lpa(v, em)?
                } else if let Some(k) = side("border-", "-style") {
                    solid[k] = v == "solid"
                } else if let Some(k) = side("border-", "-width") {
                    widths[k] = match lpa(v, em)? {
                        Px(x) => x,
                        _ => return None,
                    }
                } else {
                    return None;
                }
            }
        }
    }
    for k in 0..4 {
        s.border[k] = if solid[k] { widths[k] } else { 0. }
    }
    s.disp = s.specified;
    if s.pos == Pos::Absolute && s.disp == Disp::Inline {
        s.disp = Disp::Block
    }
    for c in nodes[i].children.clone() {
        cascade(nodes, c, Some(&s))?
    }
    nodes[i].style = Some(s);
    Some(())
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
pub enum MOp {
    Rect { x: f64, y: f64, w: f64, h: f64, color: [f64; 4] },
    Text { x: f64, y: f64, size: f64, text: String, color: [f64; 4] },
}

/// A flattened inline formatting context
enum Ev {
    Open(usize, bool),
    Close(usize, bool),
    /// text and the element that it is in
    Text(String, usize),
    Abs(usize),
}

enum Level {
    Inlines(Vec<Ev>),
    Block(usize),
    Abs(usize),
}

struct BoxOut {
    el: Option<usize>,
    /// border box; the place at the top is known when it is resolved
    x: f64,
    y: Option<f64>,
    w: f64,
    h: f64,
    shift: (f64, f64),
    items: Vec<Item>,
}

enum Item {
    Box(usize),
    /// relative to the place at which the box was resolved, and x
    Op(MOp, Place),
    Abs(usize, f64, Place),
}

#[derive(Clone, Copy)]
enum Place {
    At(f64),
    /// index into `marks`
    Mark(usize),
}

struct Flow<'a> {
    nodes: &'a [Node],
    boxes: Vec<BoxOut>,
    marks: Vec<Option<f64>>,
    unresolved: Vec<usize>,
    open_marks: Vec<usize>,
    pending: Vec<f64>,
    pos: f64,
    /// the boxes that contain the current place
    widths: &'a dyn Fn(char) -> f64,
    ascender: f64,
}

fn collapse(m: &[f64]) -> f64 {
    m.iter().cloned().fold(0f64, f64::max) + m.iter().cloned().fold(0f64, f64::min)
}

fn px(v: Lpa, reference: f64) -> Option<f64> {
    match v {
        Px(x) => Some(x),
        Pc(x) => Some(x * reference),
        Auto => None,
    }
}

fn px0(v: Lpa, reference: f64) -> f64 {
    px(v, reference).unwrap_or(0.)
}

/// Offset of a relatively positioned box
fn shift(s: &Style, w: f64, h: Option<f64>) -> Result<(f64, f64), Skip> {
    if s.pos != Pos::Relative {
        return Ok((0., 0.));
    }
    let d = |a: Lpa, b: Lpa, r: f64| match (px(a, r), px(b, r)) {
        (Some(a), _) => a,
        (None, Some(b)) => -b,
        (None, None) => 0.,
    };
    if h.is_none() {
        if let (Pc(_), Px(_)) | (Pc(_), Pc(_)) = (s.inset[T], s.inset[B]) {
            return Err("percentage of an automatic height");
        }
    }
    Ok((d(s.inset[L], s.inset[R], w), d(s.inset[T], s.inset[B], h.unwrap_or(0.))))
}

/// The content of a block container: segments of inline content and block-level boxes
fn levels(nodes: &[Node], container: usize) -> Vec<Level> {
    struct S<'a> {
        nodes: &'a [Node],
        out: Vec<Level>,
        cur: Vec<Ev>,
        open: Vec<(usize, bool)>,
        /// the text of the segment so far ends in white space, or there is none
        space: bool,
    }
    impl<'a> S<'a> {
        fn split(&mut self) {
            for k in (0..self.open.len()).rev() {
                self.cur.push(Ev::Close(self.open[k].0, false))
            }
            let cur = std::mem::replace(&mut self.cur, Vec::new());
            if !cur.is_empty() {
                self.out.push(Level::Inlines(cur))
            }
            self.space = true
        }
        fn visit(&mut self, parent: usize) {
            for &c in &self.nodes[parent].children {
                match &self.nodes[c].kind {
                    Kind::Comment(_) => {}
                    Kind::Text(t) => {
                        let mut o = String::new();
                        for ch in t.chars() {
                            if ch == ' ' || ch == '\n' || ch == '\t' {
                                if !self.space {
                                    o.push(' ')
                                }
                                self.space = true
                            } else {
                                o.push(ch);
                                self.space = false
                            }
                        }
                        if !o.is_empty() {
                            if let Some(Ev::Text(t, p)) = self.cur.last_mut() {
                                if *p == parent {
                                    t.push_str(&o);
                                    continue;
                                }
                            }
                            self.cur.push(Ev::Text(o, parent))
                        }
                    }
                    Kind::El(_) => {
                        let s = self.nodes[c].style.as_ref().unwrap();
                        match s.disp {
                            Disp::None => {}
                            Disp::Contents => self.visit(c),
                            Disp::Inline => {
                                self.cur.push(Ev::Open(c, true));
                                self.open.push((c, true));
                                self.visit(c);
                                let (c, _) = self.open.pop().unwrap();
                                self.cur.push(Ev::Close(c, true));
                            }
                            Disp::Block | Disp::FlowRoot if s.pos == Pos::Absolute => {
                                if self.cur.is_empty() && self.open.is_empty() {
                                    self.out.push(Level::Abs(c))
                                } else {
                                    self.cur.push(Ev::Abs(c))
                                }
                            }
                            Disp::Block | Disp::FlowRoot => {
                                self.split();
                                self.out.push(Level::Block(c));
                                for o in &mut self.open {
                                    o.1 = false;
                                    self.cur.push(Ev::Open(o.0, false))
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut s = S { nodes, out: vec![], cur: vec![], open: vec![], space: true };
    s.visit(container);
    s.split();
    s.out
}

impl<'a> Flow<'a> {
    fn new(nodes: &'a [Node], widths: &'a dyn Fn(char) -> f64, ascender: f64) -> Self {
        Flow {
            nodes,
            boxes: vec![],
            marks: vec![],
            unresolved: vec![],
            open_marks: vec![],
            pending: vec![],
            pos: 0.,
            widths,
            ascender,
        }
    }

    fn style(&self, el: usize) -> &'a Style {
        self.nodes[el].style.as_ref().unwrap()
    }

    /// Here the pending margins end: something has a place
    fn flush(&mut self) {
        self.pos += collapse(&self.pending);
        self.pending.clear();
        let y = self.pos;
        self.resolve(y)
    }

    fn resolve(&mut self, y: f64) {
        for b in self.unresolved.drain(..) {
            self.boxes[b].y = Some(y)
        }
        for m in self.open_marks.drain(..) {
            self.marks[m] = Some(y)
        }
    }

    /// A place that is the current one once margins are known
    fn here(&mut self, b: usize) -> Place {
        if self.boxes[b].y.is_some() {
            Place::At(self.pos)
        } else {
            self.marks.push(None);
            self.open_marks.push(self.marks.len() - 1);
            Place::Mark(self.marks.len() - 1)
        }
    }

    /// A block-level box in normal flow. `cx`, `cw`, `ch`: containing block
    fn block(&mut self, el: usize, cx: f64, cw: f64, ch: Option<f64>, parent: Option<usize>) -> Result<usize, Skip> {
        let s = self.style(el);
        let pad: Vec<f64> = s.padding.iter().map(|p| px0(*p, cw)).collect();
        let pb: Vec<f64> = (0..4).map(|k| pad[k] + s.border[k]).collect();
        // CSS 2.1, 10.3.3
        let (ml, mr) = (px(s.margin[L], cw), px(s.margin[R], cw));
        let (w, ml) = match px(s.width, cw) {
            None => {
                let (ml, mr) = (ml.unwrap_or(0.), mr.unwrap_or(0.));
                (cw - ml - mr - pb[L] - pb[R], ml)
            }
            Some(w) => {
                let rest = cw - w - pb[L] - pb[R];
                let ml = match (ml, mr) {
                    (Some(ml), _) => ml,
                    (None, Some(mr)) => (rest - mr).max(0.),
                    (None, None) => (rest / 2.).max(0.),
                };
                (w, ml)
            }
        };
        if w < 0. {
            return Err("negative width");
        }
        let h = match s.height {
            Auto => None,
            Px(x) => Some(x),
            Pc(x) => ch.map(|h| h * x),
        };
        if h.map_or(false, |h| h < 0.) {
            return Err("negative height");
        }
        let independent = parent.is_none() || s.disp == Disp::FlowRoot;
        let b = self.boxes.len();
        self.boxes.push(BoxOut {
            el: Some(el),
            x: cx + ml,
            y: None,
            w: w + pb[L] + pb[R],
            h: 0.,
            shift: shift(s, cw, ch)?,
            items: vec![],
        });
        self.unresolved.push(b);
        self.pending.push(px0(s.margin[T], cw));
        if independent || pb[T] != 0. {
            self.flush();
            self.pos += pb[T]
        }
        self.content(b, el, cx + ml + pb[L], w, h)?;
        if independent || pb[B] != 0. {
            // margins of children stay inside, also below what has a given height
            self.flush()
        }
        let resolved = self.boxes[b].y;
        match (h, resolved) {
            (Some(h), _) if h > 0. || resolved.is_some() => {
                if resolved.is_none() {
                    // nothing in it has a place: its top is where all margins so far end
                    self.flush()
                }
                self.pending.clear();
                self.pos = self.boxes[b].y.unwrap() + pb[T] + h + pb[B];
                self.boxes[b].h = pb[T] + h + pb[B]
            }
            (_, Some(y)) => {
                // automatic height: up to the end of the last thing in it
                self.pos += pb[B];
                self.boxes[b].h = self.pos - y
            }
            // Margins collapse through (CSS 2.1, 8.3.1: the top is that of the parent
            // if these margins are also its own, or as if the box had a bottom border)
            (_, None) => {
                if parent.map_or(true, |p| self.boxes[p].y.is_some()) {
                    let y = self.pos + collapse(&self.pending);
                    self.resolve(y)
                }
            }
        }
        if self.boxes[b].h < 0. || (h.is_none() && self.boxes[b].h < pb[T] + pb[B]) {
            return Err("negative height");
        }
        self.pending.push(px0(s.margin[B], cw));
        Ok(b)
    }

    fn content(&mut self, b: usize, el: usize, cx: f64, cw: f64, ch: Option<f64>) -> Result<(), Skip> {
        let levels = levels(self.nodes, el);
        let mixed = levels.len() > 1;
        for l in levels {
            match l {
                Level::Block(c) => {
                    let k = self.block(c, cx, cw, ch, Some(b))?;
                    self.boxes[b].items.push(Item::Box(k))
                }
                Level::Abs(c) => {
                    if collapse(&self.pending) != 0. && self.boxes[b].y.is_some() {
                        let s = self.style(c);
                        if s.inset[T] == Auto && s.inset[B] == Auto {
                            return Err("static position after a margin");
                        }
                    }
                    let p = self.here(b);
                    self.boxes[b].items.push(Item::Abs(c, cx, p))
                }
                Level::Inlines(evs) => {
                    for e in &evs {
                        if let Ev::Open(el, _) = e {
                            let s = self.style(*el);
                            if let (true, true, &[Pc(_), _, _, _]) | (true, true, &[_, _, Pc(_), _]) = (mixed, s.pos == Pos::Relative, &s.inset) {
                                return Err("percentage of the height of an anonymous block");
                            }
                        }
                    }
                    self.inlines(b, evs, cx, cw, ch)?
                }
            }
        }
        Ok(())
    }

    fn inlines(&mut self, b: usize, evs: Vec<Ev>, cx: f64, cw: f64, ch: Option<f64>) -> Result<(), Skip> {
        struct Open {
            el: usize,
            /// left edge of the content, and place at its top in the line
            x: f64,
            top: f64,
            first: bool,
            /// index into the line's list of operations of its background
            at: usize,
            height: f64,
            shift: (f64, f64),
        }
        struct St {
            ops: Vec<(MOp, f64)>, // relative to the top of the context
            abs: Vec<(usize, f64, f64)>,
            x: f64,
            open: Vec<Open>,
            line: f64,
            height: f64,
        }
        let nodes = self.nodes;
        let style = |el: usize| nodes[el].style.as_ref().unwrap();
        let sides = |el: usize| -> Vec<[f64; 3]> {
            let s = style(el);
            (0..4).map(|k| [px0(s.padding[k], cw), s.border[k], px0(s.margin[k], cw)]).collect()
        };
        let sum = |x: [f64; 3]| x[0] + x[1] + x[2];
        let mut st = St { ops: vec![], abs: vec![], x: 0., open: vec![], line: 0., height: 0. };
        let dummy = || MOp::Rect { x: 0., y: 0., w: 0., h: 0., color: [0.; 4] };
        let open = |st: &mut St, el: usize, first: bool| -> Result<(), Skip> {
            let e = sides(el);
            if first {
                st.x += sum(e[L])
            }
            let base = st.open.last().map_or(0., |o| o.top);
            let up = st.open.last().map_or((0., 0.), |o| o.shift);
            let d = shift(style(el), cw, ch)?;
            st.ops.push((dummy(), 0.));
            st.open.push(Open {
                el,
                x: st.x,
                top: base + sum(e[T]),
                first,
                at: st.ops.len() - 1,
                height: 0.,
                shift: (up.0 + d.0, up.1 + d.1),
            });
            Ok(())
        };
        let close = |st: &mut St, last: bool| {
            let o = st.open.pop().unwrap();
            let e = sides(o.el);
            let left = if o.first { e[L][0] + e[L][1] } else { 0. };
            let right = if last { e[R][0] + e[R][1] } else { 0. };
            let y = o.top - e[T][0] - e[T][1];
            st.ops[o.at].0 = MOp::Rect {
                x: cx + o.x - left + o.shift.0,
                y: 0.,
                w: st.x - o.x + left + right,
                h: o.height + e[T][0] + e[T][1] + e[B][0] + e[B][1],
                color: style(o.el).background,
            };
            st.ops[o.at].1 = st.line + y + o.shift.1;
            if last {
                st.x += sum(e[R])
            }
            let outer = o.height + sum(e[T]) + sum(e[B]);
            match st.open.last_mut() {
                Some(p) => p.height = p.height.max(outer),
                None => st.height = st.height.max(outer),
            }
        };
        for ev in evs {
            match ev {
                Ev::Open(el, first) => open(&mut st, el, first)?,
                Ev::Close(_, last) => close(&mut st, last),
                Ev::Abs(el) => {
                    let s = style(el);
                    let inline = s.specified == Disp::Inline;
                    let stat = |a: usize, b: usize| s.inset[a] == Auto && s.inset[b] == Auto;
                    if stat(T, B) || stat(L, R) {
                        if st.open.iter().any(|o| o.shift != (0., 0.)) {
                            return Err("static position in a relatively positioned inline");
                        }
                        if !inline && st.x != 0. {
                            return Err("static position of a block in a line");
                        }
                        if !inline && st.height != 0. {
                            return Err("static position of a block in a line");
                        }
                    }
                    if st.open.iter().any(|o| style(o.el).pos == Pos::Relative) {
                        return Err("positioned inline ancestor");
                    }
                    let x = if inline { cx + st.x } else { cx };
                    st.abs.push((el, x, st.line));
                }
                Ev::Text(t, el) => {
                    let s = style(el);
                    let mut rest: &str = &t;
                    loop {
                        let available = cw - st.x;
                        let fits = |n: usize| -> Result<bool, Skip> {
                            let w: f64 = rest[..n].chars().map(|c| (self.widths)(c)).sum::<f64>() * s.size;
                            // sums and products of such numbers are exact in f32
                            let exact = |x: f64| (x * 4096.).fract() == 0. && x.abs() < 2048.;
                            if exact(w) && exact(available) {
                                return Ok(w <= available);
                            }
                            if (w - available).abs() < 0.02 {
                                return Err("about as wide as the line");
                            }
                            Ok(w < available)
                        };
                        let spaces: Vec<usize> = rest.char_indices().filter(|(_, c)| *c == ' ').map(|(i, _)| i).collect();
                        let (take, skip) = if fits(rest.len())? {
                            (rest.len(), 0)
                        } else {
                            let mut best = None;
                            for &k in &spaces {
                                if fits(k)? {
                                    best = Some(k)
                                }
                            }
                            match best.or(spaces.first().cloned()) {
                                Some(k) => (k, 1),
                                None => (rest.len(), 0),
                            }
                        };
                        let run = &rest[..take];
                        let w: f64 = run.chars().map(|c| (self.widths)(c)).sum::<f64>() * s.size;
                        let top = st.open.last().map_or(0., |o| o.top);
                        let d = st.open.last().map_or((0., 0.), |o| o.shift);
                        st.ops.push((
                            MOp::Text {
                                x: cx + st.x + d.0,
                                y: self.ascender * s.size,
                                size: s.size,
                                text: run.to_owned(),
                                color: s.color,
                            },
                            st.line + top + d.1,
                        ));
                        st.x += w;
                        let lh = 1.2 * s.size;
                        match st.open.last_mut() {
                            Some(o) => o.height = o.height.max(lh),
                            None => st.height = st.height.max(lh),
                        }
                        rest = &rest[take + skip..];
                        if rest.is_empty() {
                            break;
                        }
                        // the next line
                        let els: Vec<usize> = st.open.iter().map(|o| o.el).collect();
                        while !st.open.is_empty() {
                            close(&mut st, false)
                        }
                        st.line += st.height;
                        st.height = 0.;
                        st.x = 0.;
                        for el in els {
                            open(&mut st, el, false)?
                        }
                    }
                }
            }
        }
        while !st.open.is_empty() {
            close(&mut st, false)
        }
        let total = st.line + st.height;
        if total < 0. {
            return Err("negative height of lines");
        }
        if total != 0. {
            self.flush()
        } else if collapse(&self.pending) != 0. {
            let tall = |op: &MOp| match op {
                MOp::Rect { h, .. } => *h != 0.,
                _ => true,
            };
            let stat = |el: usize| style(el).inset[T] == Auto && style(el).inset[B] == Auto;
            if st.ops.iter().any(|(op, _)| tall(op)) || st.abs.iter().any(|a| stat(a.0)) {
                return Err("in a line without height after a margin");
            }
        }
        let p = self.here(b);
        for (mut op, y) in st.ops {
            match &mut op {
                MOp::Rect { y: oy, .. } | MOp::Text { y: oy, .. } => *oy += y,
            }
            self.boxes[b].items.push(Item::Op(op, p))
        }
        for (el, x, y) in st.abs {
            // in the order of the document relative to other such boxes
            let p = match p {
                Place::At(p) => Place::At(p + y),
                p => p,
            };
            self.boxes[b].items.push(Item::Abs(el, x, p))
        }
        self.pos += total;
        Ok(())
    }
}

struct Painter<'a> {
    nodes: &'a [Node],
    widths: &'a dyn Fn(char) -> f64,
    ascender: f64,
    groups: Vec<Vec<MOp>>,
}

type Cb = (f64, f64, f64, f64);

impl<'a> Painter<'a> {
    fn place(f: &Flow, p: Place) -> f64 {
        match p {
            Place::At(y) => y,
            Place::Mark(m) => f.marks[m].unwrap_or(f.pos),
        }
    }

    fn paint(&mut self, f: &Flow<'a>, b: usize, d: (f64, f64), cb: Cb, group: usize) -> Result<(), Skip> {
        let o = &f.boxes[b];
        let d = (d.0 + o.shift.0, d.1 + o.shift.1);
        let s = self.nodes[o.el.unwrap()].style.as_ref().unwrap();
        let y = o.y.unwrap_or(f.pos);
        self.groups[group].push(MOp::Rect { x: o.x + d.0, y: y + d.1, w: o.w, h: o.h, color: s.background });
        let cb = if s.pos != Pos::Static {
            let e = &s.border;
            (o.x + d.0 + e[L], y + d.1 + e[T], o.w - e[L] - e[R], o.h - e[T] - e[B])
        } else {
            cb
        };
        for i in &o.items {
            match i {
                Item::Box(k) => self.paint(f, *k, d, cb, group)?,
                Item::Op(op, p) => {
                    let mut op = op.clone();
                    let p = Self::place(f, *p);
                    match &mut op {
                        MOp::Rect { x, y, .. } | MOp::Text { x, y, .. } => {
                            *x += d.0;
                            *y += d.1 + p
                        }
                    }
                    self.groups[group].push(op)
                }
                Item::Abs(el, x, p) => self.absolute(*el, (x + d.0, Self::place(f, *p) + d.1), cb)?,
            }
        }
        Ok(())
    }

    /// CSS 2.1, 10.3.7 and 10.6.4. `stat`: the static position
    fn absolute(&mut self, el: usize, stat: (f64, f64), cb: Cb) -> Result<(), Skip> {
        let s = self.nodes[el].style.as_ref().unwrap();
        let (cw, ch) = (cb.2, cb.3);
        let pad: Vec<f64> = s.padding.iter().map(|p| px0(*p, cw)).collect();
        let e: Vec<f64> = (0..4).map(|k| pad[k] + s.border[k]).collect();
        let m: Vec<Option<f64>> = s.margin.iter().map(|v| px(*v, cw)).collect();
        // the inline axis
        let (l, r) = (px(s.inset[L], cw), px(s.inset[R], cw));
        let (w, ml, left);
        match (l, r, px(s.width, cw)) {
            (Some(l), Some(r), Some(w0)) => {
                let rest = cw - l - r - w0 - e[L] - e[R];
                w = w0;
                left = l;
                ml = match (m[L], m[R]) {
                    (None, None) if rest >= 0. => rest / 2.,
                    (None, None) => 0.,
                    (None, Some(mr)) => rest - mr,
                    (Some(ml), _) => ml,
                };
            }
            (Some(l), Some(r), None) => {
                ml = m[L].unwrap_or(0.);
                w = cw - l - r - e[L] - e[R] - ml - m[R].unwrap_or(0.);
                left = l
            }
            (_, _, None) => return Err("shrink-to-fit width"),
            (Some(l), None, Some(w0)) => {
                w = w0;
                ml = m[L].unwrap_or(0.);
                left = l
            }
            (None, None, Some(w0)) => {
                w = w0;
                ml = m[L].unwrap_or(0.);
                left = stat.0 - cb.0
            }
            (None, Some(r), Some(w0)) => {
                w = w0;
                ml = m[L].unwrap_or(0.);
                left = cw - r - w0 - e[L] - e[R] - ml - m[R].unwrap_or(0.)
            }
        }
        if w < 0. {
            return Err("negative width");
        }
        let (t, b) = (px(s.inset[T], ch), px(s.inset[B], ch));
        let given = px(s.height, ch);
        let given = match (t, b, given) {
            (Some(t), Some(b), None) => Some(ch - t - b - e[T] - e[B] - m[T].unwrap_or(0.) - m[B].unwrap_or(0.)),
            (_, _, h) => h,
        };
        let mut f = Flow::new(self.nodes, self.widths, self.ascender);
        // its content, as that of a block formatting context at (0, 0)
        let k = f.boxes.len();
        f.boxes.push(BoxOut { el: Some(el), x: 0., y: Some(0.), w: w + e[L] + e[R], h: 0., shift: (0., 0.), items: vec![] });
        f.pos = e[T];
        f.content(k, el, e[L], w, given)?;
        f.flush();
        let h = given.unwrap_or(f.pos - e[T]);
        if h < 0. {
            return Err("negative height");
        }
        f.boxes[k].h = h + e[T] + e[B];
        let (mt, top) = match (t, b) {
            (Some(t), Some(b)) => {
                let rest = ch - t - b - h - e[T] - e[B];
                let mt = match (m[T], m[B]) {
                    (None, None) => rest / 2.,
                    (None, Some(mb)) => rest - mb,
                    (Some(mt), _) => mt,
                };
                // with an automatic height, automatic margins are 0
                (if s.height == Auto { m[T].unwrap_or(0.) } else { mt }, t)
            }
            (Some(t), None) => (m[T].unwrap_or(0.), t),
            (None, None) => (m[T].unwrap_or(0.), stat.1 - cb.1),
            (None, Some(b)) => {
                let mt = m[T].unwrap_or(0.);
                (mt, ch - b - h - e[T] - e[B] - mt - m[B].unwrap_or(0.))
            }
        };
        self.groups.push(vec![]);
        let g = self.groups.len() - 1;
        self.paint(&f, k, (cb.0 + left + ml, cb.1 + top + mt), cb, g)
    }
}

const PAGE: Cb = (0., 0., 600., 800.);

/// What is painted: in normal flow, then one list per absolutely positioned box
pub fn model(doc: &Doc, widths: &dyn Fn(char) -> f64, ascender: f64) -> Result<Vec<Vec<MOp>>, Skip> {
    let mut p = Painter { nodes: &doc.nodes, widths, ascender, groups: vec![vec![]] };
    let s = doc.nodes[doc.html].style.as_ref().unwrap();
    if s.disp != Disp::None {
        if s.pos == Pos::Absolute {
            p.absolute(doc.html, (0., 0.), PAGE)?
        } else {
            let mut f = Flow::new(&doc.nodes, widths, ascender);
            let b = f.block(doc.html, 0., 600., Some(800.), None)?;
            f.flush();
            p.paint(&f, b, (0., 0.), PAGE, 0)?
        }
    }
    Ok(p.groups)
}

// ---------------------------------------------------------------- comparison

/// What the PDF shows
pub fn painted(html: &str) -> Result<Vec<MOp>, String> {
    let bytes = Document::parse_html(html.as_bytes()).to_pdf_bytes();
    let pdf = Pdf::load(&bytes)?;
    let pages = pdf.pages()?;
    ensure!(pages.len() == 1, "{} pages", pages.len());
    let page = &pages[0];
    ensure!((page.width - 600.).abs() < 0.01 && (page.height - 800.).abs() < 0.01, "page of {} × {}", page.width, page.height);
    let mut maps: HashMap<u32, BTreeMap<u16, String>> = HashMap::new();
    let mut out = Vec::new();
    for op in &page.ops {
        out.push(match op {
            Op::Rect { x, y, w, h, rgb, alpha } => MOp::Rect { x: *x, y: *y, w: *w, h: *h, color: [rgb[0], rgb[1], rgb[2], *alpha] },
            Op::Text { x, y, size, font, codes, rgb, alpha } => {
                if !maps.contains_key(font) {
                    maps.insert(*font, pdf.font(*font)?.to_unicode.into_iter().collect());
                }
                let m = &maps[font];
                let text = codes.iter().map(|c| m.get(c).map_or("\u{fffd}", |s| &**s)).collect();
                MOp::Text { x: *x, y: *y, size: *size, text, color: [rgb[0], rgb[1], rgb[2], *alpha] }
            }
        })
    }
    Ok(out)
}

fn visible(op: &MOp) -> bool {
    match op {
        MOp::Rect { w, h, color, .. } => *w > 1e-3 && *h > 1e-3 && color[3] > 0.,
        MOp::Text { text, .. } => !text.is_empty(),
    }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 0.03 + 1e-5 * a.abs().max(b.abs())
}

fn same(a: &MOp, b: &MOp) -> bool {
    let color = |a: &[f64; 4], b: &[f64; 4]| a.iter().zip(b).all(|(a, b)| (a - b).abs() < 0.001);
    match (a, b) {
        (MOp::Rect { x, y, w, h, color: c }, MOp::Rect { x: x2, y: y2, w: w2, h: h2, color: c2 }) => {
            near(*x, *x2) && near(*y, *y2) && near(*w, *w2) && near(*h, *h2) && color(c, c2)
        }
        (MOp::Text { x, y, size, text, color: c }, MOp::Text { x: x2, y: y2, size: s2, text: t2, color: c2 }) => {
            near(*x, *x2) && near(*y, *y2) && near(*size, *s2) && text == t2 && color(c, c2)
        }
        _ => false,
    }
}

fn color_key(op: &MOp) -> [i64; 3] {
    let c = match op {
        MOp::Rect { color, .. } | MOp::Text { color, .. } => color,
    };
    [(c[0] * 255.).round() as i64, (c[1] * 255.).round() as i64, (c[2] * 255.).round() as i64]
}

fn show(op: Option<&MOp>) -> String {
    match op {
        None => "nothing".into(),
        Some(MOp::Rect { x, y, w, h, color }) => {
            format!("rectangle at ({:.2}, {:.2}) of {:.2} × {:.2} in {}", x, y, w, h, show_color(color))
        }
        Some(MOp::Text { x, y, size, text, color }) => {
            format!("text {:?} at ({:.2}, {:.2}) of size {} in {}", text, x, y, size, show_color(color))
        }
    }
}

fn show_color(c: &[f64; 4]) -> String {
    let b = |x: f64| (x * 255.).round() as i64;
    format!("({}, {}, {}; {:.2})", b(c[0]), b(c[1]), b(c[2]), c[3])
}

pub fn vera() -> (impl Fn(char) -> f64, f64) {
    let f = BITSTREAM_VERA_SANS.clone();
    let m = vf::metrics(&f)[0] as f64;
    let mut table: HashMap<char, f64> = HashMap::new();
    for c in (32..127u8).map(char::from).chain("\u{a0}éßÜñ".chars()) {
        let g = vf::glyph_id(&f, c).unwrap();
        table.insert(c, vf::glyph_width(&f, g).unwrap() as f64);
    }
    (move |c: char| *table.get(&c).unwrap_or(&f64::NAN), m)
}

pub fn check(case: &str) -> Result<bool, String> {
    let doc = match parse_doc(case) {
        Some(d) => d,
        None => return Ok(false),
    };
    let (widths, ascender) = vera();
    let want = model(&doc, &widths, ascender);
    // also where the model does not tell what is painted, it must not fail
    let got = painted(&doc.css_html)?;
    let want = match want {
        Ok(w) => w,
        Err(_) => return Ok(false),
    };
    let got: Vec<MOp> = got.into_iter().filter(visible).collect();
    let want: Vec<Vec<MOp>> = want.into_iter().map(|g| g.into_iter().filter(visible).collect()).collect();
    let mut lists: Vec<Vec<MOp>> = want.iter().map(|_| Vec::new()).collect();
    if want.len() == 1 {
        lists[0] = got
    } else {
        let mut of: HashMap<[i64; 3], usize> = HashMap::new();
        for (g, l) in want.iter().enumerate() {
            for op in l {
                if *of.entry(color_key(op)).or_insert(g) != g {
                    return Ok(false);
                }
            }
        }
        for op in got {
            match of.get(&color_key(&op)) {
                Some(g) => lists[*g].push(op),
                None => return Err(format!("{} is painted, which no element has", show(Some(&op)))),
            }
        }
    }
    let mut n = 0;
    for (g, w) in lists.iter().zip(&want) {
        for k in 0..g.len().max(w.len()) {
            let ok = match (g.get(k), w.get(k)) {
                (Some(a), Some(b)) => same(a, b),
                _ => false,
            };
            ensure!(ok, "{} is painted, not {}", show(g.get(k)), show(w.get(k)));
            n += 1
        }
    }
    Ok(n > 2)
}

// ---------------------------------------------------------------- generators

const LENGTHS: [&str; 12] = ["0", "1px", "5px", "10px", "20px", "40px", "0.5px", "100px", "1em", "2.5em", "7.25px", "250px"];
const PERCENT: [&str; 7] = ["0%", "5%", "10%", "25%", "50%", "100%", "120%"];

fn length(r: &mut Rng, percent: usize, auto: usize, negative: usize) -> String {
    if r.chance(auto) {
        "auto".into()
    } else if r.chance(percent) {
        let s = if r.chance(negative) { "-" } else { "" };
        format!("{}{}", s, PERCENT[r.below(PERCENT.len())])
    } else {
        let l = LENGTHS[r.below(LENGTHS.len())];
        if r.chance(negative) && l != "0" {
            format!("-{}", l)
        } else {
            l.into()
        }
    }
}

fn small(r: &mut Rng) -> String {
    ["0", "1px", "2px", "3.5px", "8px", "15px", "0.5em"][r.below(7)].into()
}

fn decl(css: &mut String, n: &str, v: &str) {
    if !css.is_empty() {
        css.push_str("; ")
    }
    css.push_str(n);
    css.push_str(": ");
    css.push_str(v)
}

fn edges(r: &mut Rng, css: &mut String, density: usize, horizontal: bool, vertical: bool, auto: usize, negative: usize) {
    for k in 0..4 {
        let on = if k % 2 == 0 { vertical } else { horizontal };
        if !on {
            continue;
        }
        if r.chance(density) {
            let v = length(r, 15, auto, negative);
            decl(css, &format!("margin-{}", SIDES[k]), &v)
        }
        if r.chance(density / 2) {
            let v = if r.chance(20) { length(r, 50, 0, 0) } else { small(r) };
            decl(css, &format!("padding-{}", SIDES[k]), &v)
        }
        if r.chance(density / 3) {
            decl(css, &format!("border-{}-style", SIDES[k]), if r.chance(80) { "solid" } else { "none" });
            if r.chance(70) {
                let v = small(r);
                decl(css, &format!("border-{}-width", SIDES[k]), &v)
            }
        }
    }
}

fn words(r: &mut Rng, n: usize) -> String {
    let mut o = String::new();
    for i in 0..n {
        if i > 0 {
            o += if r.chance(90) { " " } else { ["  ", "\\n", " \\t ", "\\n  "][r.below(4)] }
        }
        let len = if r.chance(4) { 20 + r.below(60) } else { 1 + r.below(9) };
        for _ in 0..len {
            let c = if r.chance(3) { ['é', '\u{a0}', '-', '.', ',', 'W', '1'][r.below(7)] } else { (b'a' + r.below(26) as u8) as char };
            o.push(c)
        }
    }
    o
}

fn insets(r: &mut Rng, css: &mut String, density: usize) {
    for k in 0..4 {
        if r.chance(density) {
            let v = length(r, 25, 5, 20);
            decl(css, SIDES[k], &v)
        }
    }
}

/// V17 and V19: nested blocks
pub struct Blocks;
impl Prop for Blocks {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (6_000_000, 1200) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "a document of nested blocks that the model covers, with at least three visible boxes"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        for t in &["html", "body"] {
            if r.chance(30) {
                let mut css = String::new();
                let v = r.chance(50);
                edges(r, &mut css, 40, true, v, 5, 15);
                o += &format!("0 {} {}\n", t, css)
            }
        }
        let most = if r.chance(30) { 18 } else { 7 };
        let n = 1 + r.below(most);
        let focus = r.below(3);
        let mut depth = 0;
        for _ in 0..n {
            let mut css = String::new();
            let d = [20, 45, 70][r.below(3)];
            if focus != 1 {
                // widths
                if r.chance(50) {
                    let v = length(r, 40, 10, 0);
                    decl(&mut css, "width", &v)
                }
                let auto = [5, 30, 60][r.below(3)];
                edges(r, &mut css, d, true, false, auto, 15);
            }
            if focus != 0 {
                let neg = [0, 25, 50][r.below(3)];
                edges(r, &mut css, d, false, true, 5, neg);
            } else {
                decl(&mut css, "padding-top", "1px")
            }
            if r.chance(if focus == 0 { 30 } else { 20 }) {
                let v = length(r, 30, 10, 0);
                decl(&mut css, "height", &v)
            }
            if r.chance(10) {
                decl(&mut css, "display", "flow-root")
            }
            if r.chance(12) {
                decl(&mut css, "position", "relative");
                insets(r, &mut css, 40)
            }
            if r.chance(10) {
                decl(&mut css, "font-size", ["8px", "30px", "0.5em", "2em"][r.below(4)])
            }
            o += &format!("{} div {}\n", depth, css);
            if r.chance(25) {
                o += &format!("{} # x\n", depth + 1)
            }
            depth = match r.below(10) {
                0..=4 => depth + 1,
                5..=7 => depth,
                _ => r.below(depth + 1),
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        check(case)
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink(case)
    }
}

/// Fewer lines, or fewer declarations, or less text
pub fn shrink(case: &str) -> Vec<String> {
    let mut out = shrink_lines(case);
    let lines: Vec<&str> = case.split('\n').collect();
    for (i, l) in lines.iter().enumerate() {
        let p: Vec<&str> = l.splitn(3, ' ').collect();
        if p.len() < 3 {
            continue;
        }
        let sep = if p[1] == "#" { " " } else { "; " };
        let parts: Vec<&str> = p[2].split(sep).collect();
        for k in 0..parts.len() {
            let mut q = parts.clone();
            q.remove(k);
            let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
            l[i] = format!("{} {} {}", p[0], p[1], q.join(sep));
            out.push(l.join("\n"))
        }
    }
    out
}

/// V18: absolutely positioned boxes
pub struct Abspos;
impl Prop for Abspos {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (6_000_000, 1200) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "a document with absolutely positioned boxes that the model covers, with at least three visible boxes"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        for t in &["html", "body"] {
            if r.chance(15) {
                let mut css = String::new();
                edges(r, &mut css, 40, true, true, 5, 15);
                if r.chance(50) {
                    decl(&mut css, "position", "relative")
                }
                o += &format!("0 {} {}\n", t, css)
            }
        }
        let most = if r.chance(30) { 14 } else { 6 };
        let n = 1 + r.below(most);
        let mut depth = 0;
        for _ in 0..n {
            let mut css = String::new();
            let d = [0, 20, 50][r.below(3)];
            let tag;
            if r.chance(55) {
                tag = if r.chance(70) { "div" } else { "span" };
                decl(&mut css, "position", "absolute");
                let i = [20, 50, 80][r.below(3)];
                insets(r, &mut css, i);
                if r.chance(85) {
                    let v = length(r, 30, 0, 0);
                    decl(&mut css, "width", &v)
                }
                if r.chance(50) {
                    let v = length(r, 30, 5, 0);
                    decl(&mut css, "height", &v)
                }
                edges(r, &mut css, d, true, true, 40, 15);
            } else if r.chance(85) {
                tag = "div";
                if r.chance(40) {
                    decl(&mut css, "position", "relative");
                    insets(r, &mut css, 30)
                }
                let v = r.chance(30);
                edges(r, &mut css, d, true, v, 10, 10);
                if r.chance(30) {
                    let v = length(r, 40, 0, 0);
                    decl(&mut css, "height", &v)
                }
                if r.chance(20) {
                    let v = length(r, 40, 0, 0);
                    decl(&mut css, "width", &v)
                }
            } else {
                tag = "span";
                if r.chance(20) {
                    decl(&mut css, "position", "relative");
                    insets(r, &mut css, 30)
                }
                edges(r, &mut css, d, true, false, 10, 10);
            }
            if r.chance(10) {
                decl(&mut css, "font-size", ["8px", "30px", "0.5em", "2em"][r.below(4)])
            }
            o += &format!("{} {} {}\n", depth, tag, css);
            if r.chance(40) {
                let k = 1 + r.below(3);
                o += &format!("{} # {}\n", depth + 1, words(r, k))
            }
            depth = match r.below(10) {
                0..=4 => depth + 1,
                5..=7 => depth,
                _ => r.below(depth + 1),
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        check(case)
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink(case)
    }
}

/// V20: inline content over several lines
pub struct Inlines;
impl Prop for Inlines {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 1200) } else { (40_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "a document with inline content that the model covers, with at least three visible boxes or texts"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        for _ in 0..1 + r.below(2) {
            let mut css = String::new();
            let w = [30, 80, 150, 300, 500][r.below(5)] as f64 + r.below(40) as f64 + 0.5;
            // some lines are as wide as their block exactly
            let exact = r.chance(20);
            let n = 2 + r.below(6);
            let first = if exact { words(r, n) } else { String::new() };
            if exact {
                let (widths, _) = vera();
                let text = first.replace("\\n", " ").replace("\\t", " ");
                let ws: Vec<&str> = text.split(' ').filter(|w| !w.is_empty()).collect();
                let line = ws[..1 + r.below(ws.len())].join(" ");
                decl(&mut css, "width", &format!("{}px", line.chars().map(|c| widths(c)).sum::<f64>() * 16.))
            } else if r.chance(80) {
                decl(&mut css, "width", &format!("{}px", w))
            }
            if r.chance(20) {
                decl(&mut css, "height", "50px")
            }
            o += &format!("0 div {}\n", css);
            let mut depth = 1;
            if exact {
                o += &format!("1 # {}\n", first)
            }
            for _ in 0..1 + r.below(10) {
                if r.chance(55) {
                    let most = if r.chance(15) { 60 } else { 8 };
        let n = 1 + r.below(most);
                    let w = words(r, n);
                    let (a, b) = (if r.chance(40) { " " } else { "" }, if r.chance(40) { " " } else { "" });
                    o += &format!("{} # {}{}{}\n", depth, a, w, b);
                    depth = 1 + r.below(depth)
                } else {
                    let mut css = String::new();
                    if depth > 1 && r.chance(10) {
                        // splits the inline boxes around it
                        o += &format!("{} div {}\n", depth, css);
                        if r.chance(50) {
                            depth += 1
                        }
                        continue;
                    }
                    let d = [0, 20, 50][r.below(3)];
                    let v = r.chance(30);
                    edges(r, &mut css, d, true, v, 10, 10);
                    if r.chance(25) {
                        decl(&mut css, "font-size", ["8px", "30px", "0.5em", "2em", "12.5px"][r.below(5)])
                    }
                    if r.chance(15) {
                        decl(&mut css, "position", "relative");
                        insets(r, &mut css, 40)
                    }
                    o += &format!("{} span {}\n", depth, css);
                    depth = if r.chance(80) { depth + 1 } else { 1 + r.below(depth) }
                }
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        check(case)
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink(case)
    }
}

/// V21: any mix of display values
pub struct BoxTree;
impl Prop for BoxTree {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (6_000_000, 1200) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "a document that the model covers, with at least three visible boxes or texts"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        let displays = ["block", "inline", "contents", "none", "flow-root"];
        for t in &["html", "body"] {
            if r.chance(6) {
                o += &format!("0 {} display: {}\n", t, displays[r.below(4)])
            }
        }
        let most = if r.chance(30) { 25 } else { 9 };
        let n = 2 + r.below(most);
        let mut depth = 0;
        let mix = r.below(3);
        for _ in 0..n {
            match r.below(10) {
                0..=4 => {
                    let sp = |r: &mut Rng| ["", "", " ", "  ", "\\n", " \\n\\t"][r.below(6)];
                    let k = [0, 1, 1, 2, 3][r.below(5)];
                    let w = words(r, k);
                    let t = format!("{}{}{}", sp(r), w, sp(r));
                    if !t.is_empty() {
                        o += &format!("{} # {}\n", depth, t);
                    }
                    depth = r.below(depth + 1)
                }
                5 if r.chance(60) => o += &format!("{} ! no\n", depth),
                _ => {
                    let mut css = String::new();
                    let tag = if r.chance([30, 60, 80][mix]) { "span" } else { "div" };
                    if r.chance(40) {
                        let k = r.below(100);
                        let d = if k < 30 { 0 } else if k < 60 { 1 } else if k < 85 { 2 } else if k < 95 { 3 } else { 4 };
                        decl(&mut css, "display", displays[d])
                    }
                    if r.chance(10) {
                        decl(&mut css, "font-size", ["8px", "30px"][r.below(2)])
                    }
                    if r.chance(15) {
                        edges(r, &mut css, 20, true, false, 0, 0)
                    }
                    if r.chance(8) {
                        decl(&mut css, "position", "absolute");
                        decl(&mut css, "width", "100px")
                    }
                    o += &format!("{} {} {}\n", depth, tag, css);
                    depth = if r.chance(85) { depth + 1 } else { r.below(depth + 1) }
                }
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        check(case)
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink(case)
    }
}

/// V22: colors and deep nests
pub struct Paint;
impl Prop for Paint {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (6_000_000, 1200) } else { (60_000, 45) }
    }
    fn rule(&self) -> &'static str {
        "a document that the model covers, with at least three visible boxes or texts"
    }
    fn generate(&self, r: &mut Rng, _i: u64) -> String {
        let mut o = String::new();
        let most = if r.chance(30) { 25 } else { 9 };
        let n = 2 + r.below(most);
        let mut depth = 0;
        let color = |r: &mut Rng| match r.below(5) {
            0 => format!("rgba({}, {}, {}, {})", r.below(256), r.below(256), r.below(256), ["0", "0.2", "0.004", "0.5", "1"][r.below(5)]),
            _ => format!("rgb({}, {}, {})", r.below(256), r.below(256), r.below(256)),
        };
        for t in &["html", "body"] {
            if r.chance(30) {
                let mut css = String::new();
                decl(&mut css, "background-color", "transparent");
                if r.chance(30) {
                    let c = color(r);
                    decl(&mut css, "color", &c)
                }
                o += &format!("0 {} {}\n", t, css)
            }
        }
        for _ in 0..n {
            match r.below(10) {
                0..=3 => {
                    let k = 1 + r.below(4);
                    let w = words(r, k);
                    o += &format!("{} # {}\n", depth, w);
                    depth = r.below(depth + 1)
                }
                _ => {
                    let mut css = String::new();
                    let tag = if r.chance(40) { "span" } else { "div" };
                    match r.below(5) {
                        0 => decl(&mut css, "background-color", "transparent"),
                        1 => decl(&mut css, "background-color", "currentColor"),
                        2 => {}
                        _ => {
                            let c = color(r);
                            decl(&mut css, "background-color", &c)
                        }
                    }
                    match r.below(5) {
                        0 => decl(&mut css, "color", "currentColor"),
                        1 => {}
                        _ => {
                            let c = color(r);
                            decl(&mut css, "color", &c)
                        }
                    }
                    if r.chance(30) {
                        decl(&mut css, "font-size", ["8px", "30px", "0.5em", "1.25em", "21.5px"][r.below(5)])
                    }
                    if r.chance(40) {
                        edges(r, &mut css, 30, true, true, 0, 10)
                    }
                    match r.below(10) {
                        0..=2 => {
                            decl(&mut css, "position", "relative");
                            insets(r, &mut css, 40)
                        }
                        3 => {
                            decl(&mut css, "position", "absolute");
                            decl(&mut css, "width", "50px");
                            for k in &["top", "left"] {
                                let v = length(r, 25, 0, 20);
                                decl(&mut css, k, &v)
                            }
                        }
                        _ => {}
                    }
                    o += &format!("{} {} {}\n", depth, tag, css);
                    depth = if r.chance(85) { depth + 1 } else { r.below(depth + 1) }
                }
            }
        }
        o
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        check(case)
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink(case)
    }
}
