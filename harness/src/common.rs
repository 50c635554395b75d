#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5DEECE66D);
        r.next();
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    /// 0 ≤ result < n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }

    /// lo ≤ result ≤ hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }

    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }

    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
}

pub trait Prop {
    /// (number of random cases, seconds)
    fn budget(&self, thorough: bool) -> (u64, u64);
    /// what counts as a distinct non-trivial case
    fn rule(&self) -> &'static str;
    fn fixed(&self) -> Vec<String> {
        Vec::new()
    }
    fn generate(&self, rng: &mut Rng, i: u64) -> String;
    /// Ok(whether the case is non-trivial) or Err(what is wrong)
    fn check(&self, case: &str) -> Result<bool, String>;
    fn shrink(&self, case: &str) -> Vec<String> {
        shrink_lines(case)
    }
    /// identifies what fails, for known findings
    fn key(&self, _case: &str, _message: &str) -> String {
        String::new()
    }
    fn known(&self, key: &str) -> bool {
        !key.is_empty()
    }
}

pub fn shrink_lines(case: &str) -> Vec<String> {
    let lines: Vec<&str> = case.split('\n').collect();
    let mut out = Vec::new();
    let mut k = lines.len() / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= lines.len() {
            let mut l = lines.clone();
            l.drain(i..i + k);
            if !l.is_empty() {
                out.push(l.join("\n"));
            }
            i += k;
        }
        k /= 2;
    }
    out
}

#[macro_export]
macro_rules! ensure {
    ($cond: expr, $($arg: tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}
