//! The numeric conversions (V23), the source of the module itself.
use crate::common::*;
use crate::convert::TryInto;
use crate::ensure;

pub struct Convert;

fn integer(n: i128, kind: &str) -> Result<Option<i128>, String> {
    Ok(match kind {
        "usize-i32" => {
            let r: Result<i32, _> = (n as usize).try_into();
            r.ok().map(|x| x as i128)
        }
        "i32-usize" => {
            let r: Result<usize, _> = (n as i32).try_into();
            r.ok().map(|x| x as i128)
        }
        "u32-usize" => {
            let r: Result<usize, _> = (n as u32).try_into();
            r.ok().map(|x| x as i128)
        }
        _ => return Err("bad case".to_owned()),
    })
}

impl Prop for Convert {
    fn budget(&self, thorough: bool) -> (u64, u64) {
        if thorough { (3_000_000, 60) } else { (200_000, 6) }
    }
    fn rule(&self) -> &'static str {
        "a conversion was done"
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = Vec::new();
        for x in &[0., -0., 0.5, -0.5, 2147483647., 2147483647.5, 2147483648., 2147483646.5, -2147483648., -2147483648.5, -2147483649., 4294967296., 4294967301., 1e300, std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY, 5e-324] {
            v.push(format!("f64-i32 {:016x}", f64::to_bits(*x)));
        }
        for p in 0..64 {
            for d in -2..3 {
                let n = (1i128 << p) + d;
                v.push(format!("usize-i32 {}", n as usize));
                v.push(format!("i32-usize {}", n as i32));
                v.push(format!("i32-usize {}", (-n) as i32));
                v.push(format!("u32-usize {}", n as u32));
            }
        }
        v
    }
    fn generate(&self, rng: &mut Rng, _: u64) -> String {
        match rng.below(5) {
            0 => format!("usize-i32 {}", rng.next() >> rng.range(0, 63)),
            1 => format!("i32-usize {}", (rng.next() as i32) >> rng.range(0, 31)),
            2 => format!("u32-usize {}", rng.next() as u32),
            3 => format!("f64-i32 {:016x}", rng.next()),
            _ => format!("f64-i32 {:016x}", f64::to_bits(rng.next() as i64 as f64 / (1u64 << rng.range(20, 63)) as f64)),
        }
    }
    fn check(&self, case: &str) -> Result<bool, String> {
        let p: Vec<&str> = case.split_whitespace().collect();
        if p.len() != 2 {
            return Ok(false)
        }
        if p[0] == "f64-i32" {
            let x = f64::from_bits(u64::from_str_radix(p[1], 16).map_err(|_| "bad case")?);
            let r: Result<i32, _> = x.try_into();
            let within = x >= -2147483648. && x <= 2147483647.;
            match r {
                Ok(y) => ensure!(within && y as f64 == x.trunc(), "{} became {}", x, y),
                Err(_) => ensure!(!within, "{} is an error", x),
            }
            return Ok(true)
        }
        let n: i128 = p[1].parse().map_err(|_| "bad case")?;
        let within = match p[0] {
            "usize-i32" => n <= 2147483647,
            "i32-usize" => n >= 0,
            _ => true,
        };
        match integer(n, p[0])? {
            Some(y) => ensure!(within && y == n, "{}: {} became {}", p[0], n, y),
            None => ensure!(!within, "{}: {} is an error", p[0], n),
        }
        Ok(true)
    }
}
