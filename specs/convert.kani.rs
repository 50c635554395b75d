// Contracts on the conversions of lester/src/convert.rs, checked by Kani (CBMC) for every number:
// nothing is bounded, there are no loops. `@REPO@` is replaced with the path of the repository, the
// module is the file itself.
#![allow(dead_code)]
#[path = "@REPO@/lester/src/convert.rs"]
mod convert;
use convert::TryInto;

macro_rules! converts {
    ($wrapper: ident, $check: ident, $from: ty, $to: ty, |$x: ident| $within: expr, |$y: ident| $same: expr) => {
        #[kani::ensures(|r| match r {
            Some(y) => { let ($y, $x) = (*y, $x); ($within) && ($same) }
            None => !($within),
        })]
        fn $wrapper($x: $from) -> Option<$to> {
            let r: Result<$to, _> = $x.try_into();
            r.ok()
        }
        #[kani::proof_for_contract($wrapper)]
        fn $check() {
            let x: $from = kani::any();
            let r = $wrapper(x);
            kani::cover!(r.is_some(), "a number within the limits");
            kani::cover!(r.is_none(), "an error");
        }
    };
}

// the integer part of a number within the limits (not-a-number is not within any)
converts!(f64_to_i32, check_f64_to_i32, f64, i32, |x| x >= -2147483648.0 && x <= 2147483647.0, |y| y as f64 == x.trunc());
converts!(usize_to_i32, check_usize_to_i32, usize, i32, |x| x as i128 <= 2147483647, |y| y as i128 == x as i128);
converts!(i32_to_usize, check_i32_to_usize, i32, usize, |x| x as i128 >= 0, |y| y as i128 == x as i128);
converts!(u32_to_usize, check_u32_to_usize, u32, usize, |x| true, |y| y as i128 == x as i128);
