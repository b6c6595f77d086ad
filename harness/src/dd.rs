//! Double-double arithmetic (about 31 decimal digits) and the concentrated pool's curve in it, solved by bisection.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd(s, b - (s - a))
}
impl From<f64> for Dd {
    fn from(x: f64) -> Self {
        Dd(x, 0.0)
    }
}
impl From<u128> for Dd {
    fn from(x: u128) -> Self {
        let (h, m, l) = ((x >> 84) as f64, ((x >> 42) & ((1 << 42) - 1)) as f64, (x & ((1 << 42) - 1)) as f64);
        let s = 2f64.powi(42);
        Dd(h * s * s, 0.0) + Dd(m * s, 0.0) + Dd(l, 0.0)
    }
}
impl std::ops::Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let r = quick(s, e + t);
        quick(r.0, r.1 + f)
    }
}
impl std::ops::Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
}
impl std::ops::Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + -o
    }
}
impl std::ops::Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let p = self.0 * o.0;
        let e = self.0.mul_add(o.0, -p);
        quick(p, e + (self.0 * o.1 + self.1 * o.0))
    }
}
impl std::ops::Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let a = self.0 / o.0;
        let r = self - o * Dd(a, 0.0);
        let b = r.0 / o.0;
        let r = r - o * Dd(b, 0.0);
        let c = r.0 / o.0;
        quick(a, b) + Dd(c, 0.0)
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<std::cmp::Ordering> {
        match self.0.partial_cmp(&o.0)? {
            std::cmp::Ordering::Equal => self.1.partial_cmp(&o.1),
            x => Some(x),
        }
    }
}
impl Dd {
    pub fn sqrt(self) -> Dd {
        if self.0 <= 0.0 {
            return Dd(0.0, 0.0);
        }
        let mut r = Dd(self.0.sqrt(), 0.0);
        for _ in 0..2 {
            r = (r + self / r) * Dd(0.5, 0.0);
        }
        r
    }
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
    pub fn max(self, o: Dd) -> Dd {
        if self < o {
            o
        } else {
            self
        }
    }
    /// a decimal with 18 digits
    pub fn dec(x: cosmwasm_std::Decimal) -> Dd {
        Dd::from(x.atomics().u128()) / Dd::from(1e18)
    }
    pub fn dec256(x: cosmwasm_std::Decimal256) -> Dd {
        let a: cosmwasm_std::Uint128 = x.atomics().try_into().unwrap_or(cosmwasm_std::Uint128::MAX);
        Dd::from(a.u128()) / Dd::from(1e18)
    }
    pub fn amount(x: u128, dec: u8) -> Dd {
        Dd::from(x) / Dd::from(10u128.pow(dec as u32))
    }
}
pub fn n(x: f64) -> Dd {
    Dd(x, 0.0)
}

/// K D S + x y - K D^2 - (D/2)^2 over D^2, K = A K0 g^2 / (g + 1 - K0)^2, K0 = 4 x y / D^2
fn curve(amp: Dd, gamma: Dd, x: Dd, y: Dd, d: Dd) -> Dd {
    let u = x / d * (y / d);
    let k0 = n(4.0) * u;
    let g = gamma + n(1.0) - k0;
    let k = amp * k0 * (gamma / g) * (gamma / g);
    k * ((x + y) / d - n(1.0)) + u - n(0.25)
}
fn bisect(mut lo: Dd, mut hi: Dd, up: bool, f: impl Fn(Dd) -> Dd) -> Dd {
    for _ in 0..130 {
        let m = (lo + hi) * n(0.5);
        if m <= lo || m >= hi {
            break;
        }
        if (f(m).0 > 0.0) == up {
            hi = m
        } else {
            lo = m
        }
    }
    (lo + hi) * n(0.5)
}
/// the invariant of reserves (x, y), in units of the first
pub fn d(amp: Dd, gamma: Dd, x: Dd, y: Dd) -> Dd {
    bisect(n(2.0) * (x * y).sqrt(), x + y, false, |d| curve(amp, gamma, x, y, d))
}
/// the other reserve at which the invariant is `d`
pub fn y(amp: Dd, gamma: Dd, x: Dd, d: Dd) -> Dd {
    bisect((d - x).max(n(0.0)), d / x * d * n(0.25), true, |y| curve(amp, gamma, x, y, d))
}

#[test]
fn curve_points() {
    let (a, g) = (n(40.0), n(0.000145));
    for (x, y_) in [(1000.0, 1000.0), (1000.0, 1200.0), (10.0, 4000.0), (1e9, 1e7)] {
        let v = d(a, g, n(x), n(y_));
        let back = y(a, g, n(x), v);
        assert!(((back - n(y_)).f() / y_).abs() < 1e-24, "{x} {y_} {v:?} {back:?}");
    }
    let t = Dd::from(123456789012345678901234567890u128) * Dd::from(3u128) / Dd::from(3u128);
    assert!((t - Dd::from(123456789012345678901234567890u128)).f().abs() < 1.0);
}
