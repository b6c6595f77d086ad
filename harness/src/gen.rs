//! Shared generators.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// log-uniform amount: every order of magnitude from 10^lo up to 10^hi is equally likely
pub fn mag(lo: u32, hi: u32) -> BoxedStrategy<u128> {
    (lo..hi, 1_000_000u128..10_000_000)
        .prop_map(|(e, m)| {
            let v = if e >= 6 {
                m.saturating_mul(10u128.saturating_pow(e - 6))
            } else {
                m / 10u128.pow(6 - e)
            };
            v.max(1)
        })
        .boxed()
}
/// mostly `mag`, sometimes a round power of ten or a tiny number
pub fn amount(lo: u32, hi: u32) -> BoxedStrategy<u128> {
    prop_oneof![
        8 => mag(lo, hi),
        1 => (lo..hi).prop_map(|e| 10u128.pow(e)),
        1 => 1u128..20,
    ]
    .boxed()
}
/// fraction in 1/10000
pub fn bps() -> BoxedStrategy<u16> {
    prop_oneof![Just(0u16), Just(1), Just(30), Just(100), 1u16..1000, 0u16..=10_000].boxed()
}
pub fn decimals() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(6u8), 1 => Just(18u8), 2 => 0u8..=18].boxed()
}
/// time gap in seconds, often zero (same block)
pub fn gap() -> BoxedStrategy<u32> {
    prop_oneof![3 => Just(0u32), 3 => 1u32..30, 2 => 30u32..4000, 1 => 4000u32..200_000].boxed()
}
