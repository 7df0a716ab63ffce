//! Reference arithmetic over unbounded integers and exact fractions.

use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};
use crate::U256;

pub type N = BigUint;

pub fn n(v: u128) -> N {
    BigUint::from(v)
}
pub fn nu(v: U256) -> N {
    let mut b = [0u8; 32];
    v.to_little_endian(&mut b);
    BigUint::from_bytes_le(&b)
}
pub fn to_u256(v: &N) -> Option<U256> {
    let b = v.to_bytes_le();
    (b.len() <= 32).then(|| U256::from_little_endian(&b))
}
pub fn to_u128(v: &N) -> Option<u128> {
    v.to_u128()
}
pub fn pow10(e: u32) -> N {
    BigUint::from(10u32).pow(e)
}
pub fn ceil_div(a: &N, b: &N) -> N {
    a.div_ceil(b)
}

/// sqrt price: 24 decimals; liquidity: 5; fee: 12; fee growth: 28
pub const PRICE: u32 = 24;
pub const LIQ: u32 = 5;
pub const PCT: u32 = 12;
pub const GROWTH: u32 = 28;

/// x between two sqrt prices: L * (b - a) / (a * b), as (numerator, denominator).
pub fn exact_x(a: &N, b: &N, liquidity: &N) -> (N, N) {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    // L/1e5 * (hi-lo)/1e24 / (lo*hi/1e48)
    (liquidity * (hi - lo) * pow10(PRICE), pow10(LIQ) * lo * hi)
}
/// y between two sqrt prices: L * (b - a)
pub fn exact_y(a: &N, b: &N, liquidity: &N) -> (N, N) {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    (liquidity * (hi - lo), pow10(LIQ + PRICE))
}

/// The token amounts between two prices, with the documented rounding chain: the liquidity-price
/// product and the price product are taken at 24 decimals, then the quotient is rounded.
pub fn delta_x(a: &N, b: &N, liquidity: &N, up: bool) -> Option<N> {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    let nominator = (hi - lo) * liquidity / pow10(LIQ);
    let one = pow10(PRICE);
    let product = if up { lo * hi / &one } else { ceil_div(&(lo * hi), &one) };
    if product.is_zero() {
        return None;
    }
    let scaled = nominator * &one;
    Some(if up {
        ceil_div(&ceil_div(&scaled, &product), &one)
    } else {
        scaled / product / one
    })
}
pub fn delta_y(a: &N, b: &N, liquidity: &N, up: bool) -> N {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    let l = pow10(LIQ);
    let one = pow10(PRICE);
    let v = (hi - lo) * liquidity;
    if up {
        ceil_div(&ceil_div(&v, &l), &one)
    } else {
        v / l / one
    }
}

/// The price after adding or removing x (rounded up). None: more than the liquidity has.
pub fn next_price_x(p: &N, liquidity: &N, x: &N, add: bool) -> Option<N> {
    if x.is_zero() {
        return Some(p.clone());
    }
    let l24 = liquidity * pow10(PRICE - LIQ);
    let px = p * x;
    let den = if add {
        l24 + px
    } else if l24 > px {
        l24 - px
    } else {
        return None;
    };
    // p * L at 24 decimals, rounded up, then the quotient rounded up
    let nom = ceil_div(&(p * liquidity), &pow10(LIQ));
    Some(ceil_div(&(nom * pow10(PRICE)), &den))
}
/// The price after adding (rounded down) or removing (rounded down) y.
pub fn next_price_y(p: &N, liquidity: &N, y: &N, add: bool) -> Option<N> {
    let num = y * pow10(PRICE);
    let den = liquidity * pow10(PRICE - LIQ);
    let num = num * pow10(PRICE);
    if add {
        Some(p + num / den)
    } else {
        let q = ceil_div(&num, &den);
        if *p < q {
            None
        } else {
            Some(p - q)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub next: N,
    pub amount_in: N,
    pub amount_out: N,
    pub fee: N,
}

/// One swap step inside a range of constant liquidity, towards `target`.
pub fn swap_step(cur: &N, target: &N, liquidity: &N, amount: &N, exact_in: bool, fee: &N) -> Option<Step> {
    if liquidity.is_zero() {
        return Some(Step { next: target.clone(), amount_in: N::zero(), amount_out: N::zero(), fee: N::zero() });
    }
    let one = pow10(PCT);
    let down = cur >= target;
    let input = |to: &N| if down { delta_x(to, cur, liquidity, true) } else { Some(delta_y(cur, to, liquidity, true)) };
    let output = |to: &N| if down { Some(delta_y(to, cur, liquidity, false)) } else { delta_x(cur, to, liquidity, false) };
    let mut cap: Option<N> = None;
    let next = if exact_in {
        let usable = amount * (&one - fee) / &one;
        if usable >= input(target)? {
            target.clone()
        } else {
            // the amount ends before the target: all of it is used
            let next = if down {
                next_price_x(cur, liquidity, &usable, true)?.max(target.clone())
            } else {
                next_price_y(cur, liquidity, &usable, true)?
            };
            cap = Some(usable);
            next
        }
    } else if *amount >= output(target)? {
        target.clone()
    } else if down {
        next_price_y(cur, liquidity, amount, false)?
    } else {
        next_price_x(cur, liquidity, amount, false)?
    };
    let mut amount_in = input(&next)?;
    let mut amount_out = output(&next)?;
    if !exact_in && amount_out > *amount {
        amount_out = amount.clone();
    }
    let fee_amount = match cap {
        Some(usable) => {
            amount_in = amount_in.min(usable);
            amount - &amount_in
        }
        None => ceil_div(&(&amount_in * fee), &one),
    };
    Some(Step { next, amount_in, amount_out, fee: fee_amount })
}

pub fn growth_modulus() -> N {
    N::one() << 128
}
/// Fee per unit of liquidity, 28 decimals, rounded down. None: does not fit.
pub fn growth_of(fee: &N, liquidity: &N) -> Option<N> {
    let g = fee * pow10(GROWTH) * pow10(LIQ) / liquidity;
    (g.bits() <= 128).then_some(g)
}
pub fn fee_of(growth: &N, liquidity: &N) -> N {
    growth * liquidity / pow10(LIQ) / pow10(GROWTH)
}
/// 1.0001^(2^k / 2) for k = 0..18, rounded to 12 decimals.
const SQRT_POWERS: [u128; 18] = [
    1000049998750,
    1000100000000,
    1000200010000,
    1000400060004,
    1000800280056,
    1001601200560,
    1003204964963,
    1006420201726,
    1012881622442,
    1025929181080,
    1052530684591,
    1107820842005,
    1227267017980,
    1506184333421,
    2268591246242,
    5146506242525,
    26486526504348,
    701536086265529,
];

/// The price of a tick as the protocol defines it: the product of the powers in its binary
/// representation, cut to 12 decimals after every factor, and for negative ticks its inverse.
pub fn price_of_tick(t: i32) -> u128 {
    let a = t.unsigned_abs();
    let mut p: u128 = 1_000_000_000_000;
    for (k, f) in SQRT_POWERS.iter().enumerate() {
        if a >> k & 1 == 1 {
            p = p * f / 1_000_000_000_000;
        }
    }
    let p = if t >= 0 { p } else { 1_000_000_000_000_000_000_000_000 / p };
    p * 1_000_000_000_000
}
