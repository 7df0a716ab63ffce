//! Reference semantics of one operation on an observed state, over unbounded integers with
//! plain ordered maps. Nothing here uses the program's arithmetic but the tick prices.

use crate::refmath::*;
use num_traits::{One, Zero};
use std::collections::{BTreeMap, BTreeSet};

pub const MAX_TICK: i32 = 221_818;
pub const MAX_SQRT_PRICE: u128 = 65535383934512647000000000000;
pub const MIN_SQRT_PRICE: u128 = 15258932000000000000;

/// A pool as numbers.
#[derive(Clone, Debug)]
pub struct View {
    pub spacing: u16,
    pub fee: u128,
    pub price: u128,
    pub tick: i32,
    pub liquidity: N,
    pub gx: u128,
    pub gy: u128,
    pub px: N,
    pub py: N,
    pub start: u64,
    /// The initialized ticks, and the records of ticks.
    pub bits: BTreeSet<i32>,
    pub ticks: BTreeMap<i32, RefTick>,
}

/// Swaps advance at most this many tick spacings at a time when no initialized tick is nearer.
pub const SEARCH: i32 = 256;

pub fn tick_price(t: i32) -> N {
    n(price_of_tick(t))
}

/// The largest multiple of `spacing` whose price is at most `p` (binary search over the prices).
pub fn tick_of_price(p: &N, spacing: i32) -> i32 {
    let max = MAX_TICK / spacing;
    let (mut lo, mut hi) = (-max, max + 1);
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if tick_price(mid * spacing) <= *p {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo * spacing
}

#[derive(Clone, Debug)]
pub struct RefTick {
    pub up: bool,
    pub change: N,
    pub fx: u128,
    pub fy: u128,
    pub seconds: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum No {
    AmountIsZero,
    WrongLimit,
    PriceLimitReached,
    TickLimitReached,
    NoGainSwap,
    TooManySteps,
    /// A number does not fit its type, or the state is inconsistent.
    Unrepresentable(&'static str),
}

#[derive(Clone, Debug)]
pub struct RefSwap {
    pub amount_in: N,
    pub amount_out: N,
    pub fee: N,
    pub price: N,
    pub tick: i32,
    pub liquidity: N,
    pub gx: u128,
    pub gy: u128,
    pub protocol_x: N,
    pub protocol_y: N,
    /// Crossed ticks in order, with their new fee growth and seconds outside.
    pub crossed: Vec<(i32, u128, u128, u64)>,
    pub steps: u32,
    /// The input left over at a tick it could not cross, kept as a fee.
    pub leftover: N,
    /// Fee the liquidity providers and the protocol get, by step, with the active liquidity.
    pub fees: Vec<FeeStep>,
    pub touched_uninitialized: bool,
}

#[derive(Clone, Debug)]
pub struct FeeStep {
    pub liquidity: N,
    pub to_lp: N,
    pub to_protocol: N,
    /// The tick range position inside which the fee accrues: a tick index in range.
    pub tick: i32,
}

pub struct SwapArgs<'a> {
    pub x_to_y: bool,
    pub amount: &'a N,
    pub exact_in: bool,
    pub limit: &'a N,
    pub protocol_fee: u128,
    pub now: u64,
}

pub fn swap(s: &View, a: &SwapArgs) -> Result<RefSwap, No> {
    let (out, end) = swap_as_far(s, a, 100_000);
    end.map(|_| out)
}

/// The swap as far as it goes, and why it ends there (Ok: it is done), in at most so many steps.
pub fn swap_as_far(s: &View, a: &SwapArgs, max_steps: u32) -> (RefSwap, Result<(), No>) {
    let spacing = s.spacing as i32;
    let fee = n(s.fee);
    let one = pow10(PCT);
    let mut price = n(s.price);
    let mut tick = s.tick;
    let mut liquidity = s.liquidity.clone();
    let mut gx = s.gx;
    let mut gy = s.gy;
    let mut px = s.px.clone();
    let mut py = s.py.clone();

    let edge = MAX_TICK / spacing * spacing;
    let mut remaining = a.amount.clone();
    let mut out = RefSwap {
        amount_in: N::zero(),
        amount_out: N::zero(),
        fee: N::zero(),
        price: N::zero(),
        tick: 0,
        liquidity: N::zero(),
        gx,
        gy,
        protocol_x: N::zero(),
        protocol_y: N::zero(),
        crossed: vec![],
        steps: 0,
        leftover: N::zero(),
        fees: vec![],
        touched_uninitialized: false,
    };

    let end = (|| {
    if a.amount.is_zero() {
        return Err(No::AmountIsZero);
    }
    if a.x_to_y && price <= *a.limit || !a.x_to_y && price >= *a.limit {
        return Err(No::WrongLimit);
    }
    if !a.x_to_y && *a.limit < n(MIN_SQRT_PRICE) {
        return Err(No::WrongLimit);
    }
    macro_rules! add_fee {
        ($amount:expr) => {{
            let amount: &N = $amount;
            let protocol = ceil_div(&(amount * n(a.protocol_fee)), &one);
            if protocol > *amount {
                return Err(No::Unrepresentable("protocol fee above the fee"));
            }
            if !amount.is_zero() && !liquidity.is_zero() {
                let pool_fee = amount - &protocol;
                let g = growth_of(&pool_fee, &liquidity).ok_or(No::Unrepresentable("fee growth"))?;
                let g = to_u128(&g).unwrap();
                if a.x_to_y {
                    gx = gx.wrapping_add(g);
                    px += &protocol;
                } else {
                    gy = gy.wrapping_add(g);
                    py += &protocol;
                }
                out.fees.push(FeeStep { liquidity: liquidity.clone(), to_lp: pool_fee, to_protocol: protocol, tick });
            }
        }};
    }

    while !remaining.is_zero() {
        out.steps += 1;
        // the next initialized tick in the direction of the trade, within the search range
        let bound = if a.x_to_y { (tick - SEARCH * spacing).max(-edge) } else { (tick + SEARCH * spacing).min(edge) };
        let found = if a.x_to_y {
            if bound <= tick { s.bits.range(bound..=tick).next_back().copied() } else { None }
        } else if tick < bound {
            s.bits.range(tick + 1..=bound).next().copied()
        } else {
            None
        };
        if found.is_none() && bound == tick {
            return Err(No::TickLimitReached);
        }
        let stop = found.unwrap_or(bound);
        let stop_price = tick_price(stop);
        let by_tick = a.x_to_y && stop_price > *a.limit || !a.x_to_y && stop_price <= *a.limit;
        let target = if by_tick { stop_price } else { a.limit.clone() };
        let step = swap_step(&price, &target, &liquidity, &remaining, a.exact_in, &fee)
            .ok_or(No::Unrepresentable("swap step"))?;
        if step.next.bits() > 128 || step.amount_in.bits() > 256 || step.amount_out.bits() > 256 {
            return Err(No::Unrepresentable("amount"));
        }
        let used = if a.exact_in { &step.amount_in + &step.fee } else { step.amount_out.clone() };
        if used > remaining {
            return Err(No::Unrepresentable("used more than given"));
        }
        remaining -= used;
        add_fee!(&step.fee);
        out.fee += &step.fee;
        price = step.next.clone();
        out.amount_in += &step.amount_in + &step.fee;
        out.amount_out += &step.amount_out;
        if price == *a.limit && !remaining.is_zero() {
            return Err(No::PriceLimitReached);
        }
        if !by_tick || price != target {
            if price > n(MAX_SQRT_PRICE) || price < n(MIN_SQRT_PRICE) {
                return Err(No::Unrepresentable("price out of bounds"));
            }
            let t = tick_of_price(&price, spacing);
            // a falling price never raises the tick (it may rest on the upper end of its range)
            tick = if a.x_to_y { t.min(tick) } else { t };
        } else {
            // rests exactly on the tick: cross it if anything is left to trade beyond it
            let crosses = if !a.x_to_y || liquidity.is_zero() {
                true
            } else if a.exact_in {
                let usable = &remaining * (&one - &fee) / &one;
                next_price_x(&price, &liquidity, &usable, true) != Some(price.clone())
            } else {
                next_price_y(&price, &liquidity, &remaining, false) != Some(price.clone())
            };
            if let Some(t) = found {
                if crosses {
                    let old = s.ticks.get(&t).cloned().ok_or(No::Unrepresentable("initialized tick without record"))?;
                    let age = a.now - s.start;
                    out.crossed.push((
                        t,
                        gx.wrapping_sub(old.fx),
                        gy.wrapping_sub(old.fy),
                        age.wrapping_sub(old.seconds),
                    ));
                    // upward the net change is applied as it is, downward reversed
                    if !a.x_to_y == old.up {
                        liquidity += old.change;
                        if liquidity.bits() > 256 {
                            return Err(No::Unrepresentable("liquidity"));
                        }
                    } else if liquidity >= old.change {
                        liquidity -= old.change;
                    } else {
                        return Err(No::Unrepresentable("negative liquidity"));
                    }
                } else if !remaining.is_zero() {
                    if a.exact_in {
                        let left = remaining.clone();
                        add_fee!(&left);
                        out.amount_in += &remaining;
                        out.leftover = remaining.clone();
                    }
                    remaining = N::zero();
                }
            } else {
                out.touched_uninitialized = true;
            }
            tick = if a.x_to_y && crosses { stop - spacing } else { stop };
        }
        if a.x_to_y && tick <= -edge || !a.x_to_y && tick >= edge {
            return Err(No::TickLimitReached);
        }
        if out.steps > max_steps {
            return Err(No::TooManySteps);
        }
    }
    if out.amount_out.is_zero() {
        return Err(No::NoGainSwap);
    }
    for v in [&px, &py, &out.amount_in] {
        if v.bits() > 256 {
            return Err(No::Unrepresentable("amount"));
        }
    }
    Ok(())
    })();
    out.price = price;
    out.tick = tick;
    out.liquidity = liquidity;
    out.gx = gx;
    out.gy = gy;
    out.protocol_x = px;
    out.protocol_y = py;
    (out, end)
}

/// What adding (rounded up) or removing (rounded down) this liquidity moves, and whether the
/// range is active.
pub fn position_amounts(s: &View, lower: i32, upper: i32, liquidity: &N, add: bool) -> Option<(N, N, bool)> {
    let (pl, pu) = (tick_price(lower), tick_price(upper));
    let cur = n(s.price);
    let t = s.tick;
    Some(if t < lower {
        (delta_x(&pl, &pu, liquidity, add)?, N::zero(), false)
    } else if t < upper {
        (delta_x(&cur, &pu, liquidity, add)?, delta_y(&pl, &cur, liquidity, add), true)
    } else {
        (N::zero(), delta_y(&pl, &pu, liquidity, add), false)
    })
}

/// Fee growth inside a range (both tokens), modulo 2^128.
pub fn growth_inside(s: &View, lower: (i32, u128, u128), upper: (i32, u128, u128)) -> (u128, u128) {
    let t = s.tick;
    let one = |g: u128, l: u128, u: u128| {
        let below = if t >= lower.0 { l } else { g.wrapping_sub(l) };
        let above = if t < upper.0 { u } else { g.wrapping_sub(u) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    (
        one(s.gx, lower.1, upper.1),
        one(s.gy, lower.2, upper.2),
    )
}

/// (2^256 - 1) divided by the number of ticks of this spacing.
pub fn max_liquidity_per_tick(spacing: u16) -> N {
    ((N::one() << 256) - N::one()) / n((2 * MAX_TICK as u128 + 1) / spacing as u128)
}
