//! Bounded companion checks for lester, run against the real crate of /repo.
#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/driver.rs"]
mod driver;
mod p_sizes;

#[cfg(feature = "convert")]
#[path = "/repo/lester/src/convert.rs"]
#[allow(dead_code)]
mod convert;
#[cfg(feature = "convert")]
mod p_convert;

use common::*;

fn prop(name: &str) -> Box<dyn Prop> {
    match name {
        "sizes" => Box::new(p_sizes::Sizes),
        #[cfg(feature = "convert")]
        "convert" => Box::new(p_convert::Convert),
        _ => panic!("unknown property {}", name),
    }
}

fn main() {
    driver::main()
}
