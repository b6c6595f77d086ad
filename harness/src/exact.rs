#![allow(warnings)]
//! Exact arithmetic for the reference curves: 1024-bit integers, solved by bisection, independent of the contracts'
//! Newton iterations.

use uint::construct_uint;

#[allow(clippy::all)]
mod b {
    use super::*;
    construct_uint! {
        pub struct B(16);
    }
}
pub use b::B;

/// extra decimal digits carried on top of 18
pub const GUARD: u32 = 8;

pub fn b(x: u128) -> B {
    B::from(x)
}
pub fn ten(e: u32) -> B {
    b(10).pow(b(e as u128))
}
/// an amount with `dec` decimals as a number with 18 + GUARD decimals
pub fn fixed(x: u128, dec: u8) -> B {
    b(x) * ten(18 + GUARD - dec as u32)
}
/// back to an integer amount with `dec` decimals, rounded down / up
pub fn floor_to(x: B, dec: u8) -> u128 {
    let q = x / ten(18 + GUARD - dec as u32);
    if q > b(u128::MAX) {
        u128::MAX
    } else {
        q.as_u128()
    }
}
pub fn ceil_to(x: B, dec: u8) -> u128 {
    floor_to(x + ten(18 + GUARD - dec as u32) - b(1), dec)
}

/// largest `v` in `lo..=hi` with `f(v)`, given that `f` holds up to some point and fails beyond it
pub fn bisect(mut lo: B, mut hi: B, f: impl Fn(B) -> bool) -> B {
    while lo < hi {
        let m: B = (lo + hi + b(1)) >> 1;
        if f(m) {
            lo = m
        } else {
            hi = m - b(1)
        }
    }
    lo
}

/// as `bisect`, starting from a good guess
pub fn near(guess: B, f: impl Fn(B) -> bool) -> B {
    let mut step = b(1);
    let (mut lo, mut hi);
    if f(guess) {
        lo = guess;
        hi = guess + step;
        while f(hi) {
            lo = hi;
            step = step << 4;
            hi = hi + step;
        }
    } else {
        hi = guess;
        lo = guess.saturating_sub(step);
        while !lo.is_zero() && !f(lo) {
            hi = lo;
            step = step << 4;
            lo = lo.saturating_sub(step);
        }
    }
    bisect(lo, hi - b(1), f)
}

pub mod stable {
    use super::*;
    /// `amp` has the contract's precision of 100; 2*amp/100 is the leverage.
    /// sign of A*S + D - A*D - D^3/(4xy): true when >= 0
    fn ge(amp: u64, x: B, y: B, d: B) -> bool {
        let a2 = b(amp as u128 * 2);
        let xy4 = x * y * b(4);
        (a2 * (x + y) + d * b(100)) * xy4 >= a2 * d * xy4 + b(100) * d * d * d
    }
    /// the invariant, rounded down in 18+GUARD decimals
    pub fn d(amp: u64, x: B, y: B) -> B {
        if x.is_zero() || y.is_zero() {
            return b(0);
        }
        let (a2, s, xy4) = (b(amp as u128 * 2), x + y, x * y * b(4));
        let mut d = s;
        for _ in 0..200 {
            let dp = d * d * d / xy4;
            let n = (a2 * s + dp * b(200)) * d / ((a2 - b(100)) * d + dp * b(300));
            let stop = n.max(d) - n.min(d) <= b(2);
            d = n;
            if stop {
                break;
            }
        }
        near(d, |d| ge(amp, x, y, d))
    }
    /// smallest y that keeps the invariant at `d` with the other reserve at `x`
    pub fn y(amp: u64, x: B, d: B) -> B {
        let a2 = b(amp as u128 * 2);
        let c = d * d * d * b(100) / (x * b(4) * a2);
        let q = x + d * b(100) / a2; // y^2 + (q - d) y = c
        let mut y = d;
        for _ in 0..300 {
            let den = y * b(2) + q;
            if den <= d {
                break;
            }
            let n = (y * y + c) / (den - d);
            let stop = n.max(y) - n.min(y) <= b(2);
            y = n;
            if stop {
                break;
            }
        }
        // largest y that does not reach d, plus one
        near(y, |y| !ge(amp, x, y, d)) + b(1)
    }
}
