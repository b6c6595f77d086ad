//! C15 (circular buffer), C37 (signed fixed point and precision helpers): library code without contracts.

use std::panic::{catch_unwind, AssertUnwindSafe};

use astroport::asset::{Asset, AssetInfo, Decimal256Ext};
use astroport::cosmwasm_ext::{AbsDiff, ConvertInto, DecimalToInteger, IntegerToDecimal};
use astroport_circular_buffer::{BufferManager, CircularBuffer};
use astroport_pcl_common::SignedDecimal256;
use cosmwasm_std::testing::MockStorage;
use cosmwasm_std::{Decimal, Decimal256, Uint128, Uint256};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::exact::{b, ten, B};
use crate::gen;
use crate::{ensure, viol};

// ------------------------------------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Push,
    PushMany(u16),
    Instant,
    Commit,
    /// load the manager again from storage, dropping what was not committed
    Reload,
    Init(u32),
    Read(Vec<u32>, bool),
    Range(u32, u32, bool, bool),
    All,
    Last,
    Single(u32),
    Exists(u32),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCase {
    cap: u32,
    ops: Vec<BOp>,
}

const BUF: CircularBuffer<Uint128> = CircularBuffer::new("state", "data");

fn c15(h: &BCase, o: &mut Obs) -> V {
    let mut st = MockStorage::new();
    // values never repeat
    let vals: Vec<Uint128> = (1..60_000u128).map(Uint128::new).collect();
    let mut at = 0usize;
    let mut next = |n: usize| -> &[Uint128] {
        let r = &vals[at..at + n];
        at += n;
        r
    };
    ensure!(BufferManager::new(&st, BUF).is_err(), "an uninitialised buffer could be opened");
    BufferManager::init(&mut st, BUF, h.cap).map_err(|e| e.to_string())?;
    let cap = h.cap as usize;
    let mut slots: Vec<Option<u128>> = vec![None; cap]; // committed
    let mut head = 0usize; // committed
    let mut pend: Vec<u128> = vec![];
    let mut m = BufferManager::new(&st, BUF).map_err(|e| e.to_string())?;
    for (n, op) in h.ops.iter().enumerate() {
        let commit = |slots: &mut Vec<Option<u128>>, head: &mut usize, pend: &mut Vec<u128>| {
            for v in pend.drain(..) {
                slots[*head] = Some(v);
                *head = (*head + 1) % cap;
            }
        };
        match op {
            BOp::Push => {
                let v = next(1);
                m.push(&v[0]);
                pend.push(v[0].u128());
            }
            BOp::PushMany(k) => {
                let v = next(*k as usize);
                m.push_many(v);
                pend.extend(v.iter().map(|x| x.u128()));
                if *k as usize > cap {
                    o.tag("more than the capacity at once");
                    o.nontrivial = true;
                }
            }
            BOp::Instant => {
                let v = next(1);
                m.instant_push(&mut st, &v[0]).map_err(|e| e.to_string())?;
                pend.push(v[0].u128());
                commit(&mut slots, &mut head, &mut pend);
            }
            BOp::Commit => {
                m.commit(&mut st).map_err(|e| e.to_string())?;
                if slots.iter().all(|x| x.is_some()) && !pend.is_empty() {
                    o.tag("overwrote old values");
                    o.nontrivial = true;
                }
                commit(&mut slots, &mut head, &mut pend);
            }
            BOp::Reload => {
                m = BufferManager::new(&st, BUF).map_err(|e| e.to_string())?;
                pend.clear();
            }
            BOp::Init(c) => {
                ensure!(BufferManager::init(&mut st, BUF, *c).is_err(), "op {n}: an existing buffer was initialised again");
            }
            BOp::Read(..) | BOp::Range(..) | BOp::All => {
                let (idx, stop): (Vec<u32>, bool) = match op {
                    BOp::Read(v, s) => (v.clone(), *s),
                    BOp::Range(a, z, back, s) => {
                        let v: Vec<u32> = (*a..=*z).collect();
                        (if *back { v.into_iter().rev().collect() } else { v }, *s)
                    }
                    _ => ((0..h.cap).collect(), true),
                };
                let got = match op {
                    BOp::All => m.read_all(&st),
                    _ => m.read(&st, idx.clone(), stop),
                };
                let mut want = Some(vec![]);
                for i in idx {
                    if i >= h.cap {
                        want = None;
                        break;
                    }
                    match slots[i as usize] {
                        Some(v) => want.as_mut().unwrap().push(v),
                        None if stop => break,
                        None => {
                            want = None;
                            break;
                        }
                    }
                }
                let g = got.as_ref().ok().map(|v| v.iter().map(|x| x.u128()).collect::<Vec<_>>());
                ensure!(g == want, "op {n} {op:?} (capacity {cap}): {got:?}, expected {want:?}");
            }
            BOp::Last => {
                if pend.is_empty() {
                    let got = m.read_last(&st).map_err(|e| e.to_string())?.map(|x| x.u128());
                    let want = slots[(head + cap - 1) % cap];
                    ensure!(got == want, "op {n}: last value {got:?}, expected {want:?}");
                }
            }
            BOp::Single(i) => {
                let got = m.read_single(&st, *i).map_err(|e| e.to_string())?.map(|x| x.u128());
                let want = slots[*i as usize % cap];
                ensure!(got == want, "op {n}: value at {i} is {got:?}, expected {want:?}");
            }
            BOp::Exists(i) => {
                let got = m.exists(&st, *i);
                let want = slots[*i as usize % cap].is_some();
                ensure!(got == want, "op {n}: exists({i}) = {got}");
            }
            BOp::Clear => {
                m.clear_buffer(&mut st);
                slots = vec![None; cap];
            }
        }
        ensure!(m.capacity() == h.cap, "op {n}: capacity {}", m.capacity());
        let hd = (head + pend.len()) % cap;
        ensure!(m.head() as usize == hd, "op {n} {op:?}: head {}, expected {hd}", m.head());
    }
    // what a fresh manager sees: every committed value where it was written
    let m = BufferManager::new(&st, BUF).map_err(|e| e.to_string())?;
    ensure!(m.head() as usize == head, "stored head {}, expected {head}", m.head());
    for i in 0..h.cap {
        let got = m.read_single(&st, i).map_err(|e| e.to_string())?.map(|x| x.u128());
        ensure!(got == slots[i as usize], "finally: value at {i} is {got:?}, expected {:?}", slots[i as usize]);
    }
    Ok(())
}

fn s15(deep: bool) -> BoxedStrategy<BCase> {
    prop_oneof![8 => 1u32..12, 2 => 12u32..100, 1 => 100u32..600]
        .prop_flat_map(move |cap| {
            let many = (cap * 3).min(400) as u16;
            let op = prop_oneof![
                4 => Just(BOp::Push),
                3 => (0..=many).prop_map(BOp::PushMany),
                3 => Just(BOp::Instant),
                4 => Just(BOp::Commit),
                2 => Just(BOp::Reload),
                1 => (1..20u32).prop_map(BOp::Init),
                2 => (prop::collection::vec(0..cap + 2, 0..6), any::<bool>()).prop_map(|(v, s)| BOp::Read(v, s)),
                2 => (0..cap, 0..cap + 1, any::<bool>(), any::<bool>())
                    .prop_map(|(a, z, k, s)| BOp::Range(a.min(z), a.max(z), k, s)),
                1 => Just(BOp::All),
                2 => Just(BOp::Last),
                2 => prop_oneof![4 => 0..cap * 2, 1 => any::<u32>()].prop_map(BOp::Single),
                1 => (0..cap * 2).prop_map(BOp::Exists),
                1 => prop::bool::weighted(0.3).prop_map(|c| if c { BOp::Clear } else { BOp::Commit }),
            ];
            prop::collection::vec(op, 1..if deep { 100 } else { 40 }).prop_map(move |ops| BCase { cap, ops })
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------------ C37

/// atomics with sign; wide enough to reach the ends of the range
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num {
    hi: u128,
    lo: u128,
    neg: bool,
}
impl Num {
    fn b(&self) -> B {
        (b(self.hi) << 128) + b(self.lo)
    }
    fn d(&self) -> Decimal256 {
        Decimal256::new((Uint256::from(self.hi) << 128u32) + Uint256::from(self.lo))
    }
    fn s(&self) -> SignedDecimal256 {
        SignedDecimal256::new(self.d(), self.neg)
    }
}
fn to_b(x: Uint256) -> B {
    x.to_be_bytes().iter().fold(b(0), |a, d| (a << 8) + b(*d as u128))
}
/// sign and magnitude of the exact result
type SB = (B, bool);
fn add(x: SB, y: SB) -> SB {
    if x.1 == y.1 {
        (x.0 + y.0, x.1)
    } else if x.0 >= y.0 {
        (x.0 - y.0, x.1)
    } else {
        (y.0 - x.0, y.1)
    }
}
fn same(got: Option<SignedDecimal256>, want: SB, what: &str) -> V {
    let max = (b(1) << 256) - b(1);
    match got {
        None => {
            ensure!(want.0 > max, "{what}: fails, the result {}{} is representable", if want.1 { "-" } else { "" }, want.0);
        }
        Some(g) => {
            ensure!(want.0 <= max, "{what}: gave {g}, the result is out of range");
            let pos: Result<Decimal256, _> = g.try_into();
            let neg: Result<Decimal256, _> = (-g).try_into();
            let (m, n) = match (pos, neg) {
                (Ok(p), _) => (to_b(p.atomics()), false),
                (_, Ok(q)) => (to_b(q.atomics()), true),
                _ => viol!("{what}: {g} is neither positive nor negative"),
            };
            ensure!(m == want.0 && (n == want.1 || m.is_zero()), "{what}: gave {g}, exactly {}{}", if want.1 { "-" } else { "" }, want.0);
        }
    }
    Ok(())
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arith {
    x: Num,
    y: Num,
    /// how `y` relates to `x`
    rel: u8,
    exp: u8,
}

fn c37(h: &Arith, o: &mut Obs) -> V {
    let x = h.x.clone();
    let mut y = h.y.clone();
    match h.rel {
        0 => y = Num { neg: y.neg, ..x.clone() },
        1 => y = Num { lo: x.lo ^ 1, neg: y.neg, ..x.clone() },
        _ => {}
    }
    let (sx, sy) = ((x.b(), x.neg), (y.b(), y.neg));
    let e18 = ten(18);
    let f = |n: &str| format!("{}{} {n} {}{}", if x.neg { "-" } else { "" }, x.d(), if y.neg { "-" } else { "" }, y.d());
    let neg = |s: SB| (s.0, !s.1);
    let abs = |s: SB| (s.0, false);
    same(quiet(|| x.s() + y.s()), add(sx, sy), &f("+"))?;
    same(quiet(|| x.s() - y.s()), add(sx, neg(sy)), &f("-"))?;
    same(quiet(|| x.s() + y.d()), add(sx, abs(sy)), &f("+ abs"))?;
    same(quiet(|| x.d() + y.s()), add(abs(sx), sy), &f("abs +"))?;
    same(quiet(|| x.s() - y.d()), add(sx, neg(abs(sy))), &f("- abs"))?;
    same(quiet(|| x.d() - y.s()), add(abs(sx), neg(sy)), &f("abs -"))?;
    same(quiet(|| -x.s()), neg(sx), &f("neg"))?;
    let prod = sx.0 * sy.0 / e18;
    same(quiet(|| x.s() * y.s()), (prod, sx.1 ^ sy.1), &f("*"))?;
    same(quiet(|| x.s() * y.d()), (prod, sx.1), &f("* abs"))?;
    same(quiet(|| x.d() * y.s()), (prod, sy.1), &f("abs *"))?;
    if !sy.0.is_zero() {
        let q = sx.0 * e18 / sy.0;
        same(quiet(|| x.s() / y.s()), (q, sx.1 ^ sy.1), &f("/"))?;
        same(quiet(|| x.s() / y.d()), (q, sx.1), &f("/ abs"))?;
        same(quiet(|| x.d() / y.s()), (q, sy.1), &f("abs /"))?;
    } else {
        ensure!(quiet(|| x.s() / y.s()).is_none(), "{} succeeded", f("/"));
    }
    let d = add(sx, neg(sy));
    same(quiet(|| x.s().diff(y.s()).into()), abs(d), &f("diff"))?;
    let ad = abs(add(abs(sx), neg(abs(sy))));
    same(quiet(|| AbsDiff::diff(x.d(), y.d()).into()), ad, &f("abs diff"))?;
    // powers: products one after the other, as far as they are exact
    let e = h.exp as u32 % 4;
    if let Some(p) = quiet(|| x.s().pow(e)) {
        let want = match e {
            0 => Some((e18, false)),
            1 => Some(sx),
            2 => Some((sx.0 * sx.0 / e18, false)),
            _ => None,
        };
        if let Some(w) = want {
            if !(sx.0.is_zero() && e == 0) {
                same(Some(p), w, &f(&format!("pow {e}")))?;
            }
        } else {
            let neg_p: Result<Decimal256, _> = p.try_into();
            ensure!(neg_p.is_ok() == !x.neg || neg_p.map(|v| v.is_zero()).unwrap_or(false) , "{}: sign of {p}", f("pow 3"));
            // truncated at each product: within two units times the size
            let lo = sx.0 * sx.0 * sx.0 / e18 / e18;
            let g: Result<Decimal256, _> = if x.neg { (-p).try_into() } else { p.try_into() };
            let g = to_b(g.map_err(|e| e.to_string())?.atomics());
            ensure!(g <= lo && lo - g <= sx.0 / e18 + b(2), "{}: {p}, exactly {lo}", f("pow 3"));
        }
    }
    o.nontrivial = !sx.0.is_zero() && !sy.0.is_zero();
    o.tag(match (x.neg, y.neg) {
        (false, false) => "both positive",
        (true, true) => "both negative",
        _ => "mixed signs",
    });
    // conversion of 18-digit numbers to 128 bits
    let c: Result<Decimal, _> = x.d().conv();
    match c {
        Ok(v) => ensure!(b(v.atomics().u128()) == sx.0, "{} became {v}", x.d()),
        Err(_) => ensure!(sx.0 > b(u128::MAX), "{} could not be converted", x.d()),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prec {
    v: u128,
    w: u128,
    p: u8,
    q: u8,
}

fn c37p(h: &Prec, o: &mut Obs) -> V {
    let (p, q) = (h.p % 19, h.q % 19);
    let x = b(h.v);
    let d: Decimal256 = Uint128::new(h.v).to_decimal256(p).map_err(|e| e.to_string())?;
    ensure!(to_b(d.atomics()) == x * ten(18 - p as u32), "{} with {p} decimals became {d}", h.v);
    let d2 = Decimal256::with_precision(h.v, p).map_err(|e| e.to_string())?;
    let a = Asset { info: AssetInfo::native("ux"), amount: Uint128::new(h.v) };
    let d3 = a.to_decimal_asset(p).map_err(|e| e.to_string())?;
    ensure!(d2 == d && d3.amount == d, "{} with {p} decimals: {d}, {d2}, {}", h.v, d3.amount);
    // and to another precision
    let want = x * ten(18 - p as u32) / ten(18 - q as u32);
    let fits = want <= b(u128::MAX);
    let got: Option<Uint128> = d.to_uint(q).ok();
    let got2 = d.to_uint128_with_precision(q).ok();
    let got3 = d3.clone().into_asset(q).ok().map(|a| a.amount);
    let want1 = fits.then(|| Uint128::new(want.as_u128()));
    ensure!(
        got == want1 && got2 == want1 && got3 == want1,
        "{} from {p} to {q} decimals: {got:?}, {got2:?}, {got3:?}, expected {want1:?}",
        h.v
    );
    let got4 = d.to_uint256_with_precision(q).map_err(|e| e.to_string())?;
    ensure!(to_b(got4) == want, "{} from {p} to {q} decimals: {got4}, expected {want}", h.v);
    if q >= p {
        if let Some(u) = want1 {
            let back = Decimal256::with_precision(u, q).unwrap().to_uint128_with_precision(p).ok();
            ensure!(back == Some(Uint128::new(h.v)), "{} to {q} decimals and back to {p}: {back:?}", h.v);
            o.tag("up and back");
        }
    } else {
        o.tag("down");
    }
    ensure!(to_b(d.to_uint256()) == x / ten(p as u32), "integer part of {d} is {}", d.to_uint256());
    ensure!(to_b(Decimal256::from_integer(h.v).atomics()) == x * ten(18), "from_integer({})", h.v);
    // 128-bit decimals hold up to 2^128 / 1e18
    let dec = quiet(|| Uint128::new(h.v).to_decimal());
    let dw = x * ten(18);
    ensure!(
        dec.map(|v| b(v.atomics().u128())) == (dw <= b(u128::MAX)).then_some(dw),
        "{} as a decimal: {dec:?}",
        h.v
    );
    // v * p / q
    let (n, m) = (Decimal256::new(Uint256::from(h.w)), Decimal256::new(Uint256::from((h.v >> 3) + 1)));
    let r = d.checked_multiply_ratio(n, m).ok();
    let rw = to_b(d.atomics()) * b(h.w) / b((h.v >> 3) + 1);
    ensure!(
        r.map(|v| to_b(v.atomics())) == (rw <= (b(1) << 256) - b(1)).then_some(rw),
        "{d} * {n} / {m} = {r:?}"
    );
    let diff = AbsDiff::diff(Uint128::new(h.v), Uint128::new(h.w));
    ensure!(diff.u128() == h.v.abs_diff(h.w), "difference of {} and {}", h.v, h.w);
    o.nontrivial = p != q && h.v > 0;
    Ok(())
}

fn wide() -> BoxedStrategy<Num> {
    (
        prop_oneof![8 => Just(0u128), 1 => gen::mag(0, 38), 1 => any::<u128>()],
        prop_oneof![6 => gen::mag(0, 38), 1 => Just(0u128), 1 => Just(1u128), 1 => Just(1_000_000_000_000_000_000u128), 1 => any::<u128>()],
        any::<bool>(),
    )
        .prop_map(|(hi, lo, neg)| Num { hi, lo, neg })
        .boxed()
}
fn s37(_: bool) -> BoxedStrategy<Arith> {
    (wide(), wide(), 0u8..10, any::<u8>())
        .prop_map(|(x, y, rel, exp)| Arith { x, y, rel, exp })
        .boxed()
}
fn s37p(_: bool) -> BoxedStrategy<Prec> {
    let v = || prop_oneof![8 => gen::amount(0, 38), 1 => Just(0u128), 1 => any::<u128>()];
    (v(), v(), 0u8..19, 0u8..19).prop_map(|(v, w, p, q)| Prec { v, w, p, q }).boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "A case is a capacity and a sequence of pushes, commits, reloads and reads; non-trivial when values were overwritten or more than the capacity was pushed at once.",
            assumptions: &["storage is the standard library's mock storage"],
            parts: vec![Box::new(Gen {
                name: "sequences",
                quick: 40_000,
                thorough: 2_000_000,
                strategy: s15,
                run: c15,
            })],
        },
        Property {
            id: "C37",
            rule: "A case is a pair of signed 256-bit numbers (all operations on it), or an amount with two precisions; non-trivial when both operands are non-zero, or the precisions differ.",
            assumptions: &["SignedDecimal256 is reached through the guarded re-export cfg(vp_hooks)"],
            parts: vec![
                Box::new(Gen {
                    name: "arithmetic",
                    quick: 200_000,
                    thorough: 10_000_000,
                    strategy: s37,
                    run: c37,
                }),
                Box::new(Gen {
                    name: "precision",
                    quick: 200_000,
                    thorough: 10_000_000,
                    strategy: s37p,
                    run: c37p,
                }),
            ],
        },
    ]
}
