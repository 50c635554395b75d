//! Random sequences of tree operations on the real node arena, against lists of children.
use crate::common::*;
use crate::ensure;
use victor::verif::dom::Arena;

pub struct Dom;

#[derive(Clone, Debug)]
enum Kind {
    Text(String),
    Other,
}

struct Model {
    kids: Vec<Vec<usize>>,
    par: Vec<usize>,
    kind: Vec<Kind>,
    name: Vec<&'static str>,
    styles: Vec<usize>,
}

impl Model {
    fn new() -> Self {
        Model {
            kids: vec![vec![], vec![]],
            par: vec![0, 0],
            kind: vec![Kind::Other, Kind::Other],
            name: vec!["document", "document"],
            styles: vec![],
        }
    }
    fn push(&mut self, kind: Kind, name: &'static str) -> usize {
        self.kids.push(vec![]);
        self.par.push(0);
        self.kind.push(kind);
        self.name.push(name);
        self.kids.len() - 1
    }
    fn detach(&mut self, c: usize) {
        let p = self.par[c];
        if p != 0 {
            self.kids[p].retain(|&x| x != c);
            self.par[c] = 0
        }
    }
    fn above(&self, mut x: usize, a: usize) -> bool {
        while x != 0 {
            if x == a {
                return true;
            }
            x = self.par[x]
        }
        false
    }
    fn append(&mut self, p: usize, c: usize) {
        self.detach(c);
        self.kids[p].push(c);
        self.par[c] = p
    }
    fn insert_before(&mut self, s: usize, c: usize) {
        self.detach(c);
        let p = self.par[s];
        let at = self.kids[p].iter().position(|&x| x == s).unwrap();
        self.kids[p].insert(at, c);
        self.par[c] = p
    }
    fn prev(&self, s: usize) -> Option<usize> {
        let k = &self.kids[self.par[s]];
        let at = k.iter().position(|&x| x == s)?;
        if at == 0 {
            None
        } else {
            Some(k[at - 1])
        }
    }
    fn merge(&mut self, at: Option<usize>, t: &str) -> bool {
        if let Some(i) = at {
            if let Kind::Text(s) = &mut self.kind[i] {
                s.push_str(t);
                return true;
            }
        }
        false
    }
    fn preorder(&self, n: usize, out: &mut Vec<usize>) {
        out.push(n);
        for &c in &self.kids[n] {
            self.preorder(c, out)
        }
    }
}

impl Prop for Dom {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (400_000, 400)
        } else {
            (120_000, 60)
        }
    }
    fn rule(&self) -> &'static str {
        "a sequence of tree operations after which at least one node has two children and one has been moved"
    }
    fn generate(&self, rng: &mut Rng, i: u64) -> String {
        let n = 4 + rng.below(if i % 10 == 0 { 60 } else { 25 });
        let mut out = String::new();
        for k in 0..n {
            let mut r = || rng.next() % 1000;
            // operands are reduced modulo the number of nodes when the case runs
            let (a, b, c) = (r(), r(), r());
            let op = if k < 3 {
                ["el", "style", "el"][k]
            } else {
                if rng.below(40) == 0 || (i % 50 == 7 && k == 3) {
                    let big = i % 50 == 7 && k == 3;
                    out += &format!("{} {} {} {}\n", ["deep", "wide", "texts"][rng.below(3)], a,
                        if big { 1 + b % 300 } else { 1 + b % 24 }, c);
                    continue;
                }
                match rng.below(22) {
                    0..=2 => "el",
                    3 => "comment",
                    4 => "style",
                    5..=8 => "append",
                    9..=10 => "text",
                    11..=13 => "before",
                    14..=15 => "textbefore",
                    16 => "foster",
                    17 => "fostertext",
                    18 => "detach",
                    19..=20 => "reparent",
                    _ => "doctype",
                }
            };
            out += &format!("{} {} {} {}\n", op, a, b, c);
        }
        out
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let mut arena = Arena::new();
        let mut m = Model::new();
        let mut moved = false;
        for (step, line) in case.lines().enumerate() {
            let f: Vec<&str> = line.split(' ').collect();
            if f.len() < 4 {
                continue;
            }
            let n = m.kids.len();
            let num = |i: usize| f[i].parse::<usize>().unwrap();
            // operands: any node but the dummy; for moved nodes not the document either
            let any = |i: usize| 1 + num(i) % (n - 1);
            let child = |i: usize| if n > 2 { 2 + num(i) % (n - 2) } else { 0 };
            let is_text = |m: &Model, i: usize| matches(&m.kind[i]);
            let t = format!("t{}", step);
            match f[0] {
                "el" => {
                    let i = arena.create_element();
                    ensure!(i == m.push(Kind::Other, "element"), "step {}: wrong id of a new node", step);
                }
                "style" => {
                    let i = arena.create_named("style");
                    let j = m.push(Kind::Other, "element");
                    m.styles.push(j);
                    ensure!(i == j, "step {}: wrong id of a new node", step);
                }
                "deep" | "wide" => {
                    let mut p = any(1);
                    if is_text(&m, p) {
                        continue;
                    }
                    for _ in 0..num(2) % 400 {
                        let c = m.push(Kind::Other, "element");
                        let i = arena.create_element();
                        ensure!(i == c, "step {}: wrong id of a new node", step);
                        m.append(p, c);
                        arena.append_node(p, c);
                        if f[0] == "deep" {
                            p = c
                        }
                    }
                }
                "texts" => {
                    let p = any(1);
                    if is_text(&m, p) {
                        continue;
                    }
                    for k in 0..num(2) % 400 {
                        let c = m.push(Kind::Other, "comment");
                        arena.create_comment();
                        m.append(p, c);
                        arena.append_node(p, c);
                        let t = format!("{}.{} ", step, k);
                        let c = m.push(Kind::Text(t.clone()), "text");
                        m.append(p, c);
                        arena.append_text(p, &t);
                    }
                }
                "comment" => {
                    let i = if num(1) % 2 == 0 {
                        m.push(Kind::Other, "comment");
                        arena.create_comment()
                    } else {
                        m.push(Kind::Other, "pi");
                        arena.create_pi()
                    };
                    ensure!(i == n, "step {}: wrong id of a new node", step);
                }
                "append" => {
                    let (p, c) = (any(1), child(2));
                    if c == 0 || is_text(&m, p) || m.above(p, c) {
                        continue;
                    }
                    moved |= m.par[c] != 0;
                    m.append(p, c);
                    arena.append_node(p, c);
                }
                "text" => {
                    let p = any(1);
                    if is_text(&m, p) {
                        continue;
                    }
                    let at = m.kids[p].last().cloned();
                    if !m.merge(at, &t) {
                        let c = m.push(Kind::Text(t.clone()), "text");
                        m.append(p, c);
                    }
                    arena.append_text(p, &t);
                }
                "before" => {
                    let (s, c) = (child(1), child(2));
                    if s == 0 || c == 0 || s == c || m.par[s] == 0 || m.above(s, c) {
                        continue;
                    }
                    moved |= m.par[c] != 0;
                    m.insert_before(s, c);
                    arena.insert_node_before(s, c);
                }
                "textbefore" => {
                    let s = child(1);
                    if s == 0 || m.par[s] == 0 {
                        continue;
                    }
                    let at = m.prev(s);
                    if !m.merge(at, &t) {
                        let c = m.push(Kind::Text(t.clone()), "text");
                        m.insert_before(s, c);
                    }
                    arena.insert_text_before(s, &t);
                }
                "foster" => {
                    let (e, p, c) = (child(1), any(2), child(3));
                    if e == 0 || c == 0 || c == e || is_text(&m, p) {
                        continue;
                    }
                    if m.par[e] != 0 {
                        if m.above(e, c) {
                            continue;
                        }
                        m.insert_before(e, c);
                    } else {
                        if m.above(p, c) {
                            continue;
                        }
                        m.append(p, c);
                    }
                    arena.foster_node(e, p, c);
                }
                "fostertext" => {
                    let (e, p) = (child(1), any(2));
                    if e == 0 || is_text(&m, p) {
                        continue;
                    }
                    let at = if m.par[e] != 0 {
                        m.prev(e)
                    } else {
                        m.kids[p].last().cloned()
                    };
                    if !m.merge(at, &t) {
                        let c = m.push(Kind::Text(t.clone()), "text");
                        if m.par[e] != 0 {
                            m.insert_before(e, c);
                        } else {
                            m.append(p, c)
                        }
                    }
                    arena.foster_text(e, p, &t);
                }
                "detach" => {
                    let c = child(1);
                    if c == 0 {
                        continue;
                    }
                    m.detach(c);
                    arena.detach(c);
                }
                "reparent" => {
                    let (a, b) = (any(1), any(2));
                    if is_text(&m, b) || m.above(b, a) {
                        continue;
                    }
                    moved |= !m.kids[a].is_empty();
                    for c in m.kids[a].clone() {
                        m.append(b, c)
                    }
                    arena.reparent_children(a, b);
                }
                "doctype" => {
                    let c = m.push(Kind::Other, "doctype");
                    m.append(1, c);
                    arena.append_doctype();
                }
                _ => continue,
            }
            compare(&arena, &m).map_err(|e| format!("after step {} ({}): {}", step, line, e))?;
        }
        Ok(moved && m.kids.iter().any(|k| k.len() > 1))
    }
}

fn matches(k: &Kind) -> bool {
    if let Kind::Text(_) = k {
        true
    } else {
        false
    }
}

fn compare(arena: &Arena, m: &Model) -> Result<(), String> {
    let d = arena.dump();
    let n = m.kids.len();
    ensure!(d.len() == n, "{} nodes instead of {}", d.len(), n);
    for i in 0..n {
        let k = &m.kids[i];
        let p = m.par[i];
        let at = if p == 0 { 0 } else { m.kids[p].iter().position(|&x| x == i).unwrap() };
        let expected = [
            p,
            if p == 0 || at == 0 { 0 } else { m.kids[p][at - 1] },
            if p == 0 || at + 1 == m.kids[p].len() { 0 } else { m.kids[p][at + 1] },
            k.first().cloned().unwrap_or(0),
            k.last().cloned().unwrap_or(0),
        ];
        ensure!(
            d[i].links == expected,
            "links (parent, previous, next, first, last) of node {} are {:?} instead of {:?}",
            i,
            d[i].links,
            expected
        );
        ensure!(d[i].kind == m.name[i], "node {} is a {}, not a {}", i, d[i].kind, m.name[i]);
        if let Kind::Text(t) = &m.kind[i] {
            ensure!(&d[i].text == t, "text of node {} is {:?} instead of {:?}", i, d[i].text, t);
        }
        let mut up = vec![];
        let mut x = i;
        while x != 0 {
            up.push(x);
            x = m.par[x]
        }
        if i > 0 {
            let got = arena.node_and_ancestors(i, n + 1);
            ensure!(got == up, "ancestors of node {}: {:?} instead of {:?}", i, got, up);
            let got = arena.node_and_following_siblings(i, n + 1);
            let mut sib = vec![i];
            if p != 0 {
                sib.extend_from_slice(&m.kids[p][at + 1..])
            }
            ensure!(got == sib, "following siblings of node {}: {:?} instead of {:?}", i, got, sib);
            let text: String = k
                .iter()
                .map(|&c| if let Kind::Text(t) = &m.kind[c] { &**t } else { "" })
                .collect();
            let got = arena.child_text_content(i);
            ensure!(got == text, "text content of node {}: {:?} instead of {:?}", i, got, text);
        }
    }
    let mut pre = vec![];
    m.preorder(1, &mut pre);
    let got = arena.nodes(n + 1);
    ensure!(got == pre, "nodes in tree order: {:?} instead of {:?}", got, pre);
    ensure!(
        arena.style_elements() == m.styles,
        "style elements {:?} instead of {:?}",
        arena.style_elements(),
        m.styles
    );
    Ok(())
}
