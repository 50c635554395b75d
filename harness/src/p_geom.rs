//! Logical and physical geometry (V16), against the table of CSS Writing Modes.
use crate::common::*;
use crate::ensure;
use victor::verif::geom as g;

pub struct Geom;

const MODES: [&str; 5] = ["horizontal-tb", "vertical-rl", "vertical-lr", "sideways-rl", "sideways-lr"];
const DIRS: [&str; 2] = ["ltr", "rtl"];

/// indices of top, right, bottom, left: (inline-start, inline-end, block-start, block-end)
fn table(mode: &str, dir: &str) -> [usize; 4] {
    let name = |s: &str| ["top", "right", "bottom", "left"].iter().position(|x| *x == s).unwrap();
    // CSS Writing Modes 4, section 6.4
    let (bs, be) = match mode {
        "horizontal-tb" => ("top", "bottom"),
        "vertical-rl" | "sideways-rl" => ("right", "left"),
        _ => ("left", "right"),
    };
    let (is, ie) = match (mode, dir) {
        ("horizontal-tb", "ltr") => ("left", "right"),
        ("horizontal-tb", "rtl") => ("right", "left"),
        ("sideways-lr", "ltr") => ("bottom", "top"),
        ("sideways-lr", "rtl") => ("top", "bottom"),
        (_, "ltr") => ("top", "bottom"),
        _ => ("bottom", "top"),
    };
    [name(is), name(ie), name(bs), name(be)]
}

impl Prop for Geom {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (2_000_000, 120) } else { (100_000, 15) }
    }
    fn rule(&self) -> &'static str {
        "a mode and direction with different numbers"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = Vec::new();
        for m in 0..5 {
            for d in 0..2 {
                v.push(format!("{} {} 3 5 7 11 13 17 19 23", m, d));
            }
        }
        v
    }
    fn generate(&self, rng: &mut Rng, i: u64) -> String {
        let mut s = format!("{} {}", i % 5, i / 5 % 2);
        for _ in 0..8 {
            s.push_str(&format!(" {}", rng.range(-1000, 1000)));
        }
        s
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let n: Vec<i32> = case.split_whitespace().map(|x| x.parse().unwrap()).collect();
        ensure!(n.len() == 10, "bad case");
        let m = (n[0] as usize, n[1] as usize);
        let (mode, dir) = (MODES[m.0], DIRS[m.1]);
        let v = &n[2..];
        let a = [v[0], v[1], v[2], v[3]];
        let b = [v[4], v[5], v[6], v[7]];
        let horizontal = mode == "horizontal-tb";
        // sizes
        let l = g::size_to_flow_relative([v[0], v[1]], m);
        let expect = if horizontal { [v[0], v[1]] } else { [v[1], v[0]] };
        ensure!(l == expect, "{} {}: the size {}×{} became inline {}, block {}", mode, dir, v[0], v[1], l[0], l[1]);
        let back = g::size_to_physical(l, m);
        ensure!(back == [v[0], v[1]], "{} {}: the size {}×{} came back as {}×{}", mode, dir, v[0], v[1], back[0], back[1]);
        // sides
        let t = table(mode, dir);
        let l = g::sides_to_flow_relative(a, m);
        let expect = [a[t[0]], a[t[1]], a[t[2]], a[t[3]]];
        ensure!(l == expect, "{} {}: the sides (top, right, bottom, left) {:?} became (inline-start, inline-end, block-start, block-end) {:?} instead of {:?}", mode, dir, a, l, expect);
        // rectangles
        if m == (0, 0) {
            let r = g::rect_to_physical(a, m, b);
            ensure!(r == a, "the rectangle {:?} became {:?}", a, r);
        }
        let r = g::inflate(a, b);
        let expect = [a[0] - b[0], a[1] - b[2], a[2] + b[0] + b[1], a[3] + b[2] + b[3]];
        ensure!(r == expect, "{:?} inflated by {:?} gave {:?} instead of {:?}", a, b, r, expect);
        let r = g::translate(a, [b[0], b[1]]);
        let expect = [a[0] + b[0], a[1] + b[1], a[2], a[3]];
        ensure!(r == expect, "{:?} moved by {:?} gave {:?}", a, &b[..2], r);
        // sums
        let s = [v[0] + v[2], v[1] + v[3]];
        let r = g::add([v[0], v[1]], [v[2], v[3]]);
        ensure!(r == [s, s, s], "{:?} + {:?} gave {:?}", &v[..2], &v[2..4], r);
        let r = g::sides_add(a, b);
        ensure!(r == [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]], "sides {:?} + {:?} gave {:?}", a, b, r);
        let r = g::sides_map(a, [b[0], b[1]]);
        let x = |f: &dyn Fn(i32, i32) -> i32| [f(a[0], 0), f(a[1], 0), f(a[2], 1), f(a[3], 1)];
        ensure!(r[0] == x(&|a, _| a * b[0]), "sides {:?} mapped by {} gave {:?}", a, b[0], r[0]);
        ensure!(r[1] == x(&|a, k| a * b[k as usize]), "sides {:?} mapped by {} and {} gave {:?}", a, b[0], b[1], r[1]);
        let (sums, corner) = g::sides_sums(a);
        ensure!(sums == [a[0] + a[1], a[2] + a[3]], "the sums of the sides {:?} are {:?}", a, sums);
        ensure!(corner == [a[0], a[2]], "the start corner of the sides {:?} is {:?}", a, corner);
        let mut d = a.to_vec();
        d.sort();
        d.dedup();
        Ok(d.len() == 4)
    }
    fn shrink(&self, case: &str) -> Vec<String> {
        let n: Vec<&str> = case.split_whitespace().collect();
        let mut out = Vec::new();
        for i in 2..n.len() {
            if n[i] != "0" {
                let mut m = n.clone();
                m[i] = "0";
                out.push(m.join(" "));
            }
        }
        out
    }
}
