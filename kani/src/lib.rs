//! Contracts of the loop-free and fixed-size functions of hacspec, discharged
//! by Kani on the compiled code of /repo.  Every harness calls the real
//! function on unconstrained symbolic arguments (the whole domain of its
//! precondition) and asserts its postcondition; loops are bounded by operand
//! width with unwinding assertions on.
#![allow(unused, deprecated, warnings)]
#[cfg(kani)]
mod h {
    #[macro_use]
    pub mod util;
    pub mod secret;
    pub mod numeric;
    pub mod stdlib;
    pub mod hex;
    pub mod extracted { include!("../../build/kani_extracted.rs"); }
}
