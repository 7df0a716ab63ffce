//! The simulated swap, fees, keys, values on their way to and from JavaScript.

use super::math::*;
use crate::engine::*;
use crate::ensure;
use crate::refamm::{self, No, RefTick, SwapArgs, View, MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use crate::refmath::*;
use crate::sut::{of_n, to_n};
use decimal::Decimal;
use invariant_vara_wasm::fee_growth::FeeGrowth;
use invariant_vara_wasm::liquidity::Liquidity;
use invariant_vara_wasm::percentage::Percentage;
use invariant_vara_wasm::sqrt_price::SqrtPrice;
use invariant_vara_wasm::token_amount::TokenAmount;
use invariant_vara_wasm::{
    calculate_fee, simulate_invariant_swap, FeeTier, LiquidityTick, Pool, SimulateSwapResult, Tickmap,
};
use num_traits::{One, Zero};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- a pool

/// A pool with positions about its price.
fn view(src: &mut Src) -> View {
    let spacing = spacing(src);
    let s = spacing as i32;
    let edge = MAX_TICK / s * s;
    let centre = match src.below(8) {
        0 => edge - s * src.below(300) as i32,
        1 => -edge + s * src.below(300) as i32,
        _ => align(some_tick(src), s),
    }
    .clamp(-edge, edge);
    let near = |src: &mut Src| {
        let d = match src.below(8) {
            0 => 256,
            1 => 250 + src.range(0, 12) as i32,
            2 => 64 * src.range(0, 8) as i32,
            3 => src.range(0, 700) as i32,
            4 => src.range(0, 20_000) as i32,
            _ => src.range(0, 12) as i32,
        };
        let d = if src.bool() { d } else { -d };
        (centre as i64 + d as i64 * s as i64).clamp(-edge as i64, edge as i64) as i32
    };
    let tick = near(src).min(edge - s);
    let (p0, p1) = (tick_price(tick), tick_price(tick + s));
    let price = match src.below(4) {
        0 => p0,
        1 => p1 - 1,
        _ => p0 + src.skewed(p1 - p0 - 1),
    };
    let mut v = View {
        spacing,
        fee: fee(src),
        price,
        tick,
        liquidity: N::zero(),
        gx: 0,
        gy: 0,
        px: N::zero(),
        py: N::zero(),
        start: 0,
        bits: BTreeSet::new(),
        ticks: BTreeMap::new(),
    };
    let mut net: BTreeMap<i32, (N, N)> = BTreeMap::new();
    for _ in 0..1 + src.below(6) {
        let (mut a, mut b) = (near(src), near(src));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b {
            b += s;
            if b > edge {
                (a, b) = (a - s, a);
            }
        }
        let l = match src.below(4) {
            0 => big(src) >> 8u32,
            1 => n(src.skewed(1_000_000)),
            _ => ordinary(src),
        } + N::one();
        net.entry(a).or_default().0 += &l;
        net.entry(b).or_default().1 += &l;
        if a <= tick && tick < b {
            v.liquidity += &l;
        }
    }
    for (t, (begin, end)) in net {
        let up = begin >= end;
        let change = if up { begin - end } else { end - begin };
        v.bits.insert(t);
        v.ticks.insert(t, RefTick { up, change, fx: 0, fy: 0, seconds: 0 });
    }
    v
}

fn pool_of(v: &View) -> Pool {
    Pool {
        liquidity: Liquidity::new(of_n(&v.liquidity)),
        sqrt_price: SqrtPrice::new(v.price),
        current_tick_index: v.tick as i64,
        start_timestamp: v.start,
        ..Default::default()
    }
}

fn tickmap_of(v: &View) -> Tickmap {
    // by the definition of a tick's place, not by the library
    let s = v.spacing as i32;
    let edge = MAX_TICK / s * s;
    let mut m = Tickmap::default();
    for t in &v.bits {
        let i = (t + edge) / s;
        *m.bitmap.entry((i / 64) as u64).or_insert(0) |= 1 << (i % 64);
    }
    m
}

fn ticks_of(v: &View) -> Vec<LiquidityTick> {
    v.ticks.iter().map(|(t, r)| LiquidityTick { index: *t as i64, liquidity_change: Liquidity::new(of_n(&r.change)), sign: r.up }).collect()
}

struct Trade {
    x_to_y: bool,
    exact_in: bool,
    amount: N,
    limit: u128,
}

fn far(x_to_y: bool) -> u128 {
    if x_to_y {
        MIN_SQRT_PRICE
    } else {
        MAX_SQRT_PRICE
    }
}

fn trade(src: &mut Src, v: &View) -> Trade {
    let (x_to_y, exact_in) = (src.bool(), src.bool());
    // the price it goes to: at, or about, a tick on the way
    let ahead: Vec<i32> = v.bits.iter().copied().filter(|t| if x_to_y { *t <= v.tick } else { *t > v.tick }).collect();
    let aim = if ahead.is_empty() || src.chance(1, 6) {
        price_near(src, v.price)
    } else {
        let k = src.usize(ahead.len());
        let t = if x_to_y { ahead[ahead.len() - 1 - k] } else { ahead[k] };
        let p = tick_price(t);
        let d = src.skewed(p / 1000);
        match src.below(4) {
            0 => p.saturating_add(d),
            1 => p - d,
            _ => p,
        }
    }
    .clamp(MIN_SQRT_PRICE, MAX_SQRT_PRICE);
    let limit = match src.below(12) {
        0..=2 => aim,
        3 => price(src),
        4 => src.skewed(u128::MAX),
        _ => far(x_to_y),
    };
    let amount = match src.below(8) {
        0 => some_big(src),
        1 => N::from(src.below(100)),
        _ => {
            // what it takes to get to the aim
            let huge = N::one() << 220;
            let a = SwapArgs { x_to_y, amount: &huge, exact_in: true, limit: &n(aim), protocol_fee: 0, now: 0 };
            let (r, _) = refamm::swap_as_far(v, &a, 200);
            let m = if exact_in { r.amount_in } else { r.amount_out };
            let m = if m >= huge { some_big(src) } else { m };
            let d = n(src.skewed(1 << 20));
            match src.below(4) {
                0 => m + d,
                1 if m > d => m - d,
                2 => m * N::from(1 + src.below(1000)) / N::from(500u32),
                _ => m,
            }
        }
    };
    Trade { x_to_y, exact_in, amount, limit }
}

fn some_big(src: &mut Src) -> N {
    if src.bool() {
        big(src) >> 1u32
    } else {
        ordinary(src)
    }
}

/// The most steps a simulation takes before it says so.
const MAX_STEPS: u32 = 142;

pub fn simulate(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut v = view(src);
    ctx.log(|| format!("spacing {} fee {} price {} tick {} liquidity {}", v.spacing, v.fee, v.price, v.tick, v.liquidity));
    ctx.log(|| format!("ticks {:?}", v.ticks.iter().map(|(t, r)| (t, r.up, r.change.to_string())).collect::<Vec<_>>()));
    for round in 0..1 + src.below(4) {
        let t = trade(src, &v);
        ctx.log(|| format!("x to y {} exact in {} amount {} limit {}", t.x_to_y, t.exact_in, t.amount, t.limit));
        let limit = n(t.limit);
        let args = SwapArgs { x_to_y: t.x_to_y, amount: &t.amount, exact_in: t.exact_in, limit: &limit, protocol_fee: 0, now: 0 };
        let (want, end) = refamm::swap_as_far(&v, &args, MAX_STEPS);
        let mut ticks = ticks_of(&v);
        // the list of ticks may be out of date: a tick the trade crosses is missing
        let mut missing = None;
        if round > 0 && src.chance(1, 8) && !want.crossed.is_empty() {
            let k = src.usize(want.crossed.len());
            missing = Some(want.crossed[k].0);
            ticks.retain(|x| Some(x.index as i32) != missing);
            ctx.log(|| format!("tick {missing:?} is missing"));
        } else if ticks.len() > 1 && src.bool() {
            // in any order
            let k = src.usize(ticks.len());
            ticks.rotate_left(k);
        }
        let tier = FeeTier { fee: Percentage::new(v.fee), tick_spacing: v.spacing as u64 };
        let map = tickmap_of(&v);
        let got = attempt(|| {
            simulate_invariant_swap(map, tier, pool_of(&v), ticks, t.x_to_y, TokenAmount::new(of_n(&t.amount)), t.exact_in, SqrtPrice::new(t.limit)).ok()
        });
        ctx.log(|| format!("{got:?}"));
        ctx.evals += 1;
        if let Err(No::Unrepresentable(_)) = end {
            ctx.label("does not fit");
            return Ok(());
        }
        let wrong = matches!(end, Err(No::AmountIsZero | No::WrongLimit));
        let Some(got) = got else { return fail("panic", format!("the simulation panics; the swap: {end:?}")) };
        ensure!(got.is_some() != wrong, "refusal", "{got:?}, the swap: {end:?}");
        let Some(r) = got else {
            ctx.label("refused");
            continue;
        };
        check_result(&r, &v, &want, &end, missing)?;
        ctx.label(match &end {
            Ok(()) => "done",
            Err(No::TooManySteps) => "too many steps",
            Err(No::NoGainSwap) => "no gain",
            Err(_) => "not done",
        });
        if !want.crossed.is_empty() {
            ctx.label("crosses");
            ctx.nontrivial = true;
        }
        if end.is_ok() {
            // the next one starts where this one ends
            v.price = to_u128(&want.price).unwrap();
            v.tick = want.tick;
            v.liquidity = want.liquidity;
        }
    }
    Ok(())
}

fn check_result(r: &SimulateSwapResult, v: &View, want: &refamm::RefSwap, end: &Result<(), No>, missing: Option<i32>) -> Res {
    if let Some(t) = missing {
        ensure!(r.state_outdated, "outdated", "tick {t} is missing, nothing says so: {r:?}");
        return Ok(());
    }
    ensure!(!r.state_outdated, "not-outdated", "called outdated: {r:?}");
    let none = matches!(end, Err(No::PriceLimitReached | No::TickLimitReached));
    ensure!(r.global_insufficient_liquidity == none, "enough-liquidity", "{r:?}, the swap: {end:?}");
    ensure!(r.max_swap_steps_reached == (*end == Err(No::TooManySteps)), "steps", "{r:?}, the swap: {end:?} in {} steps", want.steps);
    let got = (to_n(r.amount_in.get()), to_n(r.amount_out.get()), to_n(r.fee.get()), n(r.target_sqrt_price.get()));
    let exp = (want.amount_in.clone(), want.amount_out.clone(), want.fee.clone(), want.price.clone());
    ensure!(got == exp, "amounts", "(in, out, fee, price) are {got:?}, should be {exp:?}; the swap: {end:?}");
    ensure!(r.start_sqrt_price.get() == v.price, "start", "starts at {} not {}", r.start_sqrt_price.get(), v.price);
    if none {
        // (whether the very last tick counts as crossed makes no difference)
        return Ok(());
    }
    let crossed: Vec<(i64, N, bool)> = r.crossed_ticks.iter().map(|t| (t.index, to_n(t.liquidity_change.get()), t.sign)).collect();
    let exp: Vec<(i64, N, bool)> = want
        .crossed
        .iter()
        .map(|c| {
            let t = &v.ticks[&c.0];
            (c.0 as i64, t.change.clone(), t.up)
        })
        .collect();
    ensure!(crossed == exp, "crossed", "{crossed:?}, should be {exp:?}");
    Ok(())
}

// ---------------------------------------------------------------- fees, deposits in a pool

pub fn fees(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        return accumulators(src, ctx);
    }
    let w = |src: &mut Src| src.skewed(u128::MAX);
    let s = spacing(src) as i32;
    let lower = align(some_tick(src), s);
    let upper = lower + s * (1 + src.skewed(1000) as i32);
    let cur = match src.below(6) {
        0 => lower,
        1 => upper,
        2 => lower - s,
        3 => upper - s,
        _ => align(some_tick(src), s),
    };
    let (lo, up, g) = ((lower, w(src), w(src)), (upper, w(src), w(src)), (w(src), w(src)));
    let liquidity = match src.below(3) {
        0 => big(src),
        _ => ordinary(src),
    };
    let mut v = View {
        spacing: s as u16,
        fee: 0,
        price: 0,
        tick: cur,
        liquidity: N::zero(),
        gx: g.0,
        gy: g.1,
        px: N::zero(),
        py: N::zero(),
        start: 0,
        bits: BTreeSet::new(),
        ticks: BTreeMap::new(),
    };
    v.gx = g.0;
    let inside = refamm::growth_inside(&v, lo, up);
    // what it stood at when last paid: often a little less
    let before = |src: &mut Src, now: u128| if src.bool() { now.wrapping_sub(src.skewed(1 << 100)) } else { src.skewed(u128::MAX) };
    let at = (before(src, inside.0), before(src, inside.1));
    ctx.log(|| format!("lower {lo:?} upper {up:?} current {cur} global {g:?} at {at:?} liquidity {liquidity}"));
    let f = FeeGrowth::new;
    let got = attempt(|| {
        calculate_fee(lo.0, f(lo.1), f(lo.2), up.0, f(up.1), f(up.2), cur, f(g.0), f(g.1), f(at.0), f(at.1), Liquidity::new(of_n(&liquidity))).ok()
    })
    .flatten()
    .map(|(x, y)| (to_n(x.get()), to_n(y.get())));
    let want = (fee_of(&n(inside.0.wrapping_sub(at.0)), &liquidity), fee_of(&n(inside.1.wrapping_sub(at.1)), &liquidity));
    ctx.nontrivial = !want.0.is_zero() && !want.1.is_zero();
    let want = (want.0.bits() <= 256 && want.1.bits() <= 256).then_some(want);
    ensure!(got == want, "fee", "{got:?}, should be {want:?}");
    Ok(())
}

/// Amounts, and the same through a pool: what a deposit moves and what it does to the pool.
pub fn amounts_and_pools(src: &mut Src, ctx: &mut Ctx) -> Res {
    if !src.chance(1, 4) {
        return amounts(src, ctx);
    }
    let v = view(src);
    let s = v.spacing as i32;
    let edge = MAX_TICK / s * s;
    let at = |src: &mut Src| match src.below(4) {
        0 => v.tick,
        1 => v.tick + s,
        2 => v.tick + s * src.range(-300, 300) as i32,
        _ => align(some_tick(src), s),
    };
    let (a, b) = (at(src).clamp(-edge, edge - s), at(src).clamp(-edge, edge - s));
    let (lower, upper) = (a.min(b), if a == b { a + s } else { a.max(b) });
    let add = src.bool();
    let l = if src.bool() { big(src) } else { ordinary(src) };
    ctx.log(|| format!("price {} tick {} liquidity {} range {lower} {upper} liquidity {l} add {add}", v.price, v.tick, v.liquidity));
    let mut pool = pool_of(&v);
    let got = attempt(|| pool.update_liquidity(Liquidity::new(of_n(&l)), add, upper, lower).ok()).flatten();
    let got = got.map(|(x, y)| (to_n(x.get()), to_n(y.get())));
    let want = refamm::position_amounts(&v, lower, upper, &l, add).filter(|r| r.0.bits() <= 256 && r.1.bits() <= 256);
    let active = lower <= v.tick && v.tick < upper;
    let after = if !active {
        Some(v.liquidity.clone())
    } else if add {
        Some(&v.liquidity + &l).filter(|l| l.bits() <= 256)
    } else if v.liquidity >= l {
        Some(&v.liquidity - &l)
    } else {
        None
    };
    let want = want.zip(after);
    ctx.nontrivial = want.is_some() && active;
    match (got, want) {
        (Some(g), Some((w, after))) => {
            ensure!(g == (w.0.clone(), w.1.clone()), "pool-amounts", "{g:?}, should be {w:?}");
            let got = to_n(pool.liquidity.get());
            ensure!(got == after, "pool-liquidity", "{got}, should be {after}");
            let mut same = pool_of(&v);
            same.liquidity = pool.liquidity;
            ensure!(same == pool, "pool-other", "{pool:?}, was {same:?}");
        }
        (g, w) => ensure!(g.is_none() && w.is_none(), "pool-refusal", "{g:?}, should be {w:?}"),
    }
    Ok(())
}
