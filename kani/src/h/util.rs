/// Reaching this line violates the contract "panics".  It is not a panic
/// itself, so a `should_panic` harness fails when it is reachable.
pub fn returned() { unsafe { core::hint::unreachable_unchecked() } }
pub fn bit(p: u128, i: u32) -> u128 { (p >> i) & 1 }
