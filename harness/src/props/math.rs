//! Properties of the mathematics: prices and ticks, token amounts, swap steps, accumulators, tick
//! search, liquidity from amounts. The checks are shared by the harness of the program and by that
//! of the SDK; `crate::sut` is the library under test.

use crate::engine::*;
use crate::ensure;
use crate::refamm::{MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use crate::refmath::*;
use crate::sut;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::collections::BTreeSet;

// ---------------------------------------------------------------- numbers

/// The prices of all ticks from -MAX_TICK on.
pub fn prices() -> &'static Vec<u128> {
    static P: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    P.get_or_init(|| (-MAX_TICK..=MAX_TICK).map(price_of_tick).collect())
}
pub fn tick_price(t: i32) -> u128 {
    prices()[(t + MAX_TICK) as usize]
}
/// The highest tick whose price is at most `p` (p not below the lowest price).
pub fn floor_tick(p: u128) -> i32 {
    prices().partition_point(|x| *x <= p) as i32 - 1 - MAX_TICK
}
pub fn align(t: i32, s: i32) -> i32 {
    t.div_euclid(s) * s
}
fn max256() -> N {
    (N::one() << 256) - N::one()
}
/// A number below 2^256: all sizes, the ends, and about powers of two and ten.
pub fn big(src: &mut Src) -> N {
    match src.below(8) {
        0..=2 => n(src.skewed(u128::MAX)),
        3 => n(src.skewed(u128::MAX)) << src.below(129) as usize,
        4 => {
            let v = (0..4).fold(N::zero(), |a, _| (a << 64) + N::from(src.limb()));
            v
        }
        5 => {
            let v = (0..4).fold(N::zero(), |a, _| (a << 64) + N::from(src.word()));
            v >> src.below(256) as usize
        }
        6 => max256() >> src.below(256) as usize,
        _ => max256() - n(src.skewed(u128::MAX)),
    }
}
/// A token amount or liquidity of everyday size.
pub fn ordinary(src: &mut Src) -> N {
    n(src.skewed(10u128.pow(30)))
}
fn some_amount(src: &mut Src) -> N {
    if src.chance(1, 3) {
        big(src)
    } else {
        ordinary(src)
    }
}
/// A price inside the bounds: at ticks, about ticks, anywhere.
pub fn price(src: &mut Src) -> u128 {
    let v = match src.below(8) {
        0 => MIN_SQRT_PRICE + src.skewed(MAX_SQRT_PRICE - MIN_SQRT_PRICE),
        1 => MAX_SQRT_PRICE - src.skewed(MAX_SQRT_PRICE - MIN_SQRT_PRICE),
        2 | 3 => {
            let t = some_tick(src);
            let p = tick_price(t);
            let d = src.skewed(1 << 40);
            if src.bool() {
                p + d
            } else {
                p - d.min(p)
            }
        }
        4 => 10u128.pow(24) + src.skewed(10u128.pow(22)),
        _ => tick_price(some_tick(src)),
    };
    v.clamp(MIN_SQRT_PRICE, MAX_SQRT_PRICE)
}
pub fn some_tick(src: &mut Src) -> i32 {
    let near = |src: &mut Src, c: i32| (c + src.skewed(400) as i32 * if src.bool() { 1 } else { -1 }).clamp(-MAX_TICK, MAX_TICK);
    match src.below(6) {
        0 => near(src, 0),
        1 => near(src, MAX_TICK),
        2 => near(src, -MAX_TICK),
        _ => src.range(-MAX_TICK as i64, MAX_TICK as i64) as i32,
    }
}
/// A second price, often close to the first.
pub fn price_near(src: &mut Src, a: u128) -> u128 {
    let t = floor_tick(a);
    let v = match src.below(8) {
        0 => price(src),
        1 => a,
        2 => {
            let d = src.skewed(a / 100);
            if src.bool() {
                a + d
            } else {
                a - d
            }
        }
        _ => {
            let d = src.skewed(3000) as i32 * if src.bool() { 1 } else { -1 };
            tick_price((t + d).clamp(-MAX_TICK, MAX_TICK))
        }
    };
    v.clamp(MIN_SQRT_PRICE, MAX_SQRT_PRICE)
}
pub fn spacing(src: &mut Src) -> u16 {
    match src.below(4) {
        0 => *src.pick(&[1u16, 2, 5, 10, 64, 100]),
        1 => 1 + src.below(4) as u16,
        _ => 1 + src.below(100) as u16,
    }
}
pub fn fee(src: &mut Src) -> u128 {
    let one = 10u128.pow(PCT);
    match src.below(6) {
        0 => 0,
        1 => one / 100,
        2 => one - 1 - src.skewed(1000),
        3 => src.skewed(1000),
        _ => src.skewed(one - 1),
    }
}

// ---------------------------------------------------------------- ticks and prices

/// Ticks per case of the exhaustive check.
pub const TICK_BLOCK: i32 = 64;
pub const TICK_CASES: u64 = ((2 * MAX_TICK + 1 + TICK_BLOCK - 1) / TICK_BLOCK) as u64;

/// 1.0001^(t/2) * 10^24, rounded down, from 1.0001^|t| with 320 bits of fraction.
fn exact_price(t: i32) -> N {
    const F: usize = 320;
    let mut base = (N::from(10_001u32) << F) / N::from(10_000u32);
    let mut acc = N::one() << F;
    let mut e = t.unsigned_abs();
    while e > 0 {
        if e & 1 == 1 {
            acc = (&acc * &base) >> F;
        }
        base = (&base * &base) >> F;
        e >>= 1;
    }
    // sqrt(acc / 2^F) = sqrt(acc * 2^F) / 2^F
    let root = (acc << F).sqrt();
    if t >= 0 {
        (root * pow10(PRICE)) >> F
    } else {
        (pow10(PRICE) << F) / root
    }
}

pub fn tick_prices(case: u64, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    let from = -MAX_TICK + case as i32 * TICK_BLOCK;
    let to = (from + TICK_BLOCK).min(MAX_TICK + 1);
    for t in from..to {
        let Some(p) = sut::price_of(t) else { return fail("price-refused", format!("tick {t} has no price")) };
        ctx.log(|| format!("tick {t} price {p}"));
        ensure!(p == tick_price(t), "price", "tick {t} has the price {p}, by definition {}", tick_price(t));
        // close to the power it stands for
        let e = exact_price(t);
        let d = if n(p) > e { n(p) - &e } else { &e - n(p) };
        ensure!(d <= &e / 10_000_000u64, "far-from-power", "tick {t}: price {p}, 1.0001^(t/2) = {e}");
        let next = (t < MAX_TICK).then(|| tick_price(t + 1));
        if let Some(q) = next {
            ensure!(q > p, "not-increasing", "tick {t}: {p}, next {q}");
        }
        let last = next.map_or(p, |q| q - 1);
        let mut inside = vec![p, last];
        if last > p {
            let mut r = Rng::new(&[0x71C4, t as u64]);
            inside.push(p + (((r.next() as u128) << 64 | r.next() as u128) % (last - p)));
            inside.push(p + 1);
        }
        for s in 1..=100u16 {
            let want = align(t, s as i32);
            // below the lowest usable tick there is none
            let lowest = -MAX_TICK / s as i32 * s as i32;
            let probes: &[u128] = if s <= 10 || s % 10 == 0 { &inside } else { &inside[..2] };
            for q in probes {
                ctx.evals += 1;
                if want < lowest {
                    continue;
                }
                let got = sut::tick_at(*q, s);
                ensure!(got == Some(want), "tick-of-price", "price {q}, spacing {s}: tick {got:?}, should be {want}");
            }
        }
    }
    Ok(())
}

pub fn tick_prices_out(src: &mut Src, ctx: &mut Ctx) -> Res {
    // out of range: refused
    let t = match src.below(4) {
        0 => MAX_TICK as i64 + 1 + src.skewed(1 << 30) as i64,
        1 => -(MAX_TICK as i64) - 1 - src.skewed(1 << 30) as i64,
        2 => i32::MIN as i64 + src.skewed(1000) as i64,
        _ => i32::MAX as i64 - src.skewed(1000) as i64,
    } as i32;
    ctx.log(|| format!("tick {t}"));
    ctx.nontrivial = true;
    ensure!(sut::price_of(t).is_none(), "price-of-no-tick", "tick {t} is out of range and has the price {:?}", sut::price_of(t));
    let p = if src.bool() { MAX_SQRT_PRICE + 1 + src.skewed(u128::MAX - MAX_SQRT_PRICE - 1) } else { src.skewed(MIN_SQRT_PRICE - 1) };
    let s = spacing(src);
    ctx.log(|| format!("price {p} spacing {s}"));
    ensure!(sut::tick_at(p, s).is_none(), "tick-of-no-price", "price {p} is out of bounds and has the tick {:?}", sut::tick_at(p, s));
    // anywhere inside
    let p = price(src);
    let want = align(floor_tick(p), s as i32);
    if want >= -MAX_TICK / s as i32 * s as i32 {
        let got = sut::tick_at(p, s);
        ctx.log(|| format!("price {p} spacing {s}"));
        ensure!(got == Some(want), "tick-of-price", "price {p}, spacing {s}: tick {got:?}, should be {want}");
    }
    Ok(())
}

// ---------------------------------------------------------------- limits, by spacing

pub fn limits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = spacing(src);
    let si = s as i32;
    let edge = MAX_TICK / si * si;
    ensure!(sut::max_tick(s) == Some(edge) && sut::min_tick(s) == Some(-edge), "usable-ends", "spacing {s}: {:?} {:?}", sut::min_tick(s), sut::max_tick(s));
    ensure!(
        sut::max_price(s) == Some(tick_price(edge)) && sut::min_price(s) == Some(tick_price(-edge)),
        "price-ends",
        "spacing {s}: {:?} {:?}",
        sut::min_price(s),
        sut::max_price(s)
    );
    ensure!(sut::max_price(1) == Some(MAX_SQRT_PRICE) && sut::min_price(1) == Some(MIN_SQRT_PRICE), "price-bounds", "bounds are not the prices of the last ticks");
    // which ticks can be used
    let tick = |src: &mut Src| -> i32 {
        match src.below(8) {
            0 => (edge as i64 + src.range(-200, 200)) as i32,
            1 => (-edge as i64 + src.range(-200, 200)) as i32,
            2 => *src.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, MAX_TICK, -MAX_TICK, MAX_TICK + 1, -MAX_TICK - 1]),
            3 => some_tick(src),
            _ => align(some_tick(src), si).max(-edge),
        }
    };
    let ok = |t: i32| t % si == 0 && (-edge..=edge).contains(&t);
    for _ in 0..4 {
        let (a, b) = (tick(src), tick(src));
        ctx.log(|| format!("spacing {s} ticks {a} {b}"));
        ensure!(sut::usable(a, s) == ok(a), "usable", "tick {a} spacing {s}: {}", sut::usable(a, s));
        ensure!(sut::usable_range(a, b, s) == (ok(a) && ok(b) && a <= b), "usable-range", "ticks {a} {b} spacing {s}: {}", sut::usable_range(a, b, s));
        ctx.evals += 1;
        if ok(a) {
            ctx.nontrivial = true;
            // the prices that belong to a tick
            let top = (a < edge).then(|| tick_price(a + si));
            let p0 = tick_price(a);
            let d = src.skewed(10u128.pow(20));
            let cands = [p0, p0 - 1, p0 + 1, p0 + d, p0.saturating_sub(d), top.unwrap_or(p0), top.unwrap_or(p0) - 1, top.unwrap_or(p0) + 1, price(src)];
            for p in cands {
                let want = match top {
                    Some(q) => p0 <= p && p < q,
                    None => p == p0,
                };
                ensure!(sut::belongs(a, s, p) == Some(want), "belongs", "price {p} tick {a} spacing {s}: {:?}", sut::belongs(a, s, p));
            }
            // its place in the tick map and back
            let index = (a + edge) / si;
            let place = ((index / 64) as u16, (index % 64) as u8);
            ensure!(sut::place_of_tick(a, s) == Some(place), "place", "tick {a} spacing {s}: {:?}, should be {place:?}", sut::place_of_tick(a, s));
            ensure!(sut::tick_of_place(place.0, place.1, s) == Some(a), "place-back", "place {place:?} spacing {s}: {:?}, should be {a}", sut::tick_of_place(place.0, place.1, s));
            ensure!(sut::max_chunk(s).is_some_and(|c| place.0 <= c), "chunks", "tick {a} spacing {s} is in chunk {}, the last is {:?}", place.0, sut::max_chunk(s));
            for up in [false, true] {
                let want = if up { (a + 256 * si).min(edge) } else { (a - 256 * si).max(-edge) };
                ensure!(sut::search_limit(a, s, up) == Some(want), "search-limit", "tick {a} spacing {s} up {up}: {:?}, should be {want}", sut::search_limit(a, s, up));
            }
        }
    }
    let last = (2 * edge / si / 64) as u16;
    ensure!(sut::max_chunk(s) == Some(last), "last-chunk", "spacing {s}: {:?}, should be {last}", sut::max_chunk(s));
    // all usable ticks together can not carry more than fits
    let Some(m) = sut::liquidity_per_tick(s) else { return fail("tick-liquidity", format!("spacing {s}: no limit")) };
    let ticks = n((2 * edge / si + 1) as u128);
    let share = max256() / n((2 * MAX_TICK as u128 + 1) / s as u128);
    ensure!(m == share, "tick-liquidity", "spacing {s}: {m}, should be {share}");
    ensure!(&m * (ticks - N::from(1u32)) <= max256(), "tick-liquidity-sum", "spacing {s}: {m}");
    // the least a route may give
    let (expected, slip) = (some_amount(src), src.skewed(10u128.pow(PCT)));
    let want = ceil_div(&(&expected * n(10u128.pow(PCT) - slip)), &pow10(PCT));
    let got = sut::min_amount_out(&expected, slip);
    ctx.log(|| format!("expected {expected} slippage {slip}"));
    ensure!(got == Some(want.clone()), "min-amount-out", "expected {expected} slippage {slip}: {got:?}, should be {want}");
    Ok(())
}

// ---------------------------------------------------------------- token amounts

/// 10^9 times a fraction is more exact than any rounding of interest.
fn times(f: &(N, N), k: u128) -> (N, N) {
    (&f.0 * n(k), &f.1 * n(1))
}

pub fn amounts(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = price(src);
    let b = price_near(src, a);
    let liquidity = some_amount(src);
    ctx.log(|| format!("prices {a} {b} liquidity {liquidity}"));
    let (na, nb) = (n(a), n(b));
    ctx.nontrivial = a != b && !liquidity.is_zero();
    for x in [true, false] {
        let exact = if x { exact_x(&na, &nb, &liquidity) } else { exact_y(&na, &nb, &liquidity) };
        let call = |a: u128, b: u128, up: bool| if x { sut::amount_x(a, b, &liquidity, up) } else { sut::amount_y(a, b, &liquidity, up) };
        let fits = |v: &N| v.bits() <= 256;
        for up in [false, true] {
            let got = call(a, b, up);
            let want = if x { delta_x(&na, &nb, &liquidity, up) } else { Some(delta_y(&na, &nb, &liquidity, up)) };
            let want = want.filter(fits);
            ensure!(got == want, "amount", "{} between {a} and {b} for {liquidity}, up {up}: {got:?}, should be {want:?}", if x { "x" } else { "y" });
            ensure!(call(b, a, up) == got, "order", "the order of {a} and {b} matters for {liquidity}, up {up}");
            let Some(v) = got else { continue };
            // down: at most the exact amount; up: at least (but for a billionth of a unit); each
            // within one unit, or one part in 10^13 of it
            let e9 = times(&exact, 1_000_000_000);
            let v9 = &v * n(1_000_000_000);
            let slack = &e9.0 / n(10u128.pow(13)) + &e9.1 * n(1_000_000_001);
            if up {
                ensure!((&v9 + n(1)) * &e9.1 >= e9.0, "up-too-low", "{v} for {}/{}", exact.0, exact.1);
                ensure!(&v9 * &e9.1 <= &e9.0 + &slack, "up-too-high", "{v} for {}/{}", exact.0, exact.1);
            } else {
                ensure!(&v9 * &e9.1 <= e9.0, "down-too-high", "{v} for {}/{}", exact.0, exact.1);
                ensure!(&v9 * &e9.1 + &slack >= e9.0, "down-too-low", "{v} for {}/{}", exact.0, exact.1);
            }
        }
    }
    // a range: by the side of the current tick
    let s = spacing(src) as i32;
    let edge = MAX_TICK / s * s;
    let lower = align(some_tick(src), s).max(-edge);
    let upper = match src.below(3) {
        0 => lower,
        1 => (lower + s * (1 + src.skewed(300) as i32)).min(edge),
        _ => align(some_tick(src), s).clamp(-edge, edge),
    };
    let cur = match src.below(8) {
        0 => lower,
        1 => upper,
        2 => lower - s,
        3 => upper - s,
        4 => lower + s,
        _ => align(some_tick(src), s),
    }
    .clamp(-edge, edge);
    // the price of the tick, or its upper end (a falling price may rest there)
    let (p0, p1) = (tick_price(cur), tick_price((cur + s).min(edge)));
    let p = match src.below(4) {
        0 => p0,
        1 => p1,
        _ => p0 + src.skewed(p1 - p0),
    };
    let add = src.bool();
    ctx.log(|| format!("range {lower} {upper} current {cur} price {p} add {add}"));
    let got = sut::amounts(cur, p, &liquidity, add, lower, upper);
    if lower > upper {
        ensure!(got.is_none(), "reversed-range", "range {lower} {upper}: {got:?}");
        return Ok(());
    }
    let (pl, pu, pc) = (n(tick_price(lower)), n(tick_price(upper)), n(p));
    let want = (|| {
        let zero = N::zero();
        let r = if cur < lower {
            (delta_x(&pl, &pu, &liquidity, add)?, zero, false)
        } else if cur < upper {
            (delta_x(&pc, &pu, &liquidity, add)?, delta_y(&pl, &pc, &liquidity, add), true)
        } else {
            (zero, delta_y(&pl, &pu, &liquidity, add), false)
        };
        (r.0.bits() <= 256 && r.1.bits() <= 256).then_some(r)
    })();
    ctx.label(if cur < lower { "below" } else if cur < upper { "inside" } else { "above" });
    ensure!(got == want, "range-amounts", "range {lower} {upper} current {cur} price {p} liquidity {liquidity} add {add}: {got:?}, should be {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- swap steps

pub fn steps(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cur = price(src);
    let target = price_near(src, cur);
    let liquidity = if src.chance(1, 20) { N::zero() } else { some_amount(src) };
    let f = fee(src);
    let exact_in = src.bool();
    let x_to_y = cur >= target;
    let (nc, nt, nf, one) = (n(cur), n(target), n(f), pow10(PCT));
    // amounts about what it takes to reach the target
    let reach = if exact_in {
        let need = if x_to_y { delta_x(&nc, &nt, &liquidity, true).unwrap_or_default() } else { delta_y(&nc, &nt, &liquidity, true) };
        ceil_div(&(need * &one), &(&one - &nf))
    } else if x_to_y {
        delta_y(&nc, &nt, &liquidity, false)
    } else {
        delta_x(&nc, &nt, &liquidity, false).unwrap_or_default()
    };
    let amount = match src.below(8) {
        0 => some_amount(src),
        1 => reach.clone(),
        2 => &reach + N::from(src.below(4)),
        3 => {
            let d = N::from(src.below(4));
            if reach > d {
                &reach - d
            } else {
                N::one()
            }
        }
        4 => &reach / N::from(1 + src.below(1000)),
        5 => N::from(src.below(5)),
        _ => &reach * n(src.skewed(1 << 20)) / n(1 << 20),
    };
    let amount = if amount.bits() > 256 { max256() } else { amount };
    ctx.log(|| format!("price {cur} target {target} liquidity {liquidity} amount {amount} exact in {exact_in} fee {f}"));
    let got = sut::step(cur, target, &liquidity, &amount, exact_in, f);
    let want = swap_step(&nc, &nt, &liquidity, &amount, exact_in, &nf)
        .filter(|s| s.next.bits() <= 128 && s.amount_in.bits() <= 256 && s.amount_out.bits() <= 256 && s.fee.bits() <= 256);
    // (where the price can not be told, a library may put the end of the range in its place)
    if want.is_none() && !sut::REFUSES {
        ctx.label("no such step");
        return Ok(());
    }
    ensure!(got == want, "step", "price {cur} target {target} liquidity {liquidity} amount {amount} exact in {exact_in} fee {f}: {got:?}, should be {want:?}");
    let Some(r) = got else {
        ctx.label("refused");
        return Ok(());
    };
    if liquidity.is_zero() {
        ensure!(r.next == nt && r.amount_in.is_zero() && r.amount_out.is_zero() && r.fee.is_zero(), "empty-step", "{r:?}");
        ctx.label("no liquidity");
    } else {
        ctx.nontrivial = r.next != nc;
        ctx.label(if r.next == nt { "reached" } else { "stopped" });
        // between the price and its target
        let within = if x_to_y { nt <= r.next && r.next <= nc } else { nc <= r.next && r.next <= nt };
        ensure!(within, "past-target", "from {cur} to {target}: {}", r.next);
        // never more than asked, and all of it unless the target stopped it
        let used = if exact_in { &r.amount_in + &r.fee } else { r.amount_out.clone() };
        ensure!(used <= amount, "more-than-asked", "{used} of {amount}");
        // (the amount out follows from the price, which is cut at 24 decimals; the swap goes on)
        let slack = if exact_in { N::zero() } else { &amount / pow10(12) + n(1) };
        ensure!(r.next == nt || &used + slack >= amount, "not-used-up", "{used} of {amount}, price {}", r.next);
        // the pool is never worse off by more than a billionth of a unit
        let (ein, eout) = if x_to_y {
            (exact_x(&r.next, &nc, &liquidity), exact_y(&r.next, &nc, &liquidity))
        } else {
            (exact_y(&r.next, &nc, &liquidity), exact_x(&r.next, &nc, &liquidity))
        };
        let e9 = n(1_000_000_000);
        ensure!((&r.amount_in * &e9 + n(1)) * &ein.1 >= &ein.0 * &e9, "too-little-in", "{} for {}/{}", r.amount_in, ein.0, ein.1);
        ensure!(&r.amount_out * &eout.1 <= eout.0, "too-much-out", "{} for {}/{}", r.amount_out, eout.0, eout.1);
        // the fee is at least the fee on what is paid in
        ensure!(&r.fee * &one >= &r.amount_in * &nf || &r.fee + n(1) >= ceil_div(&((&r.amount_in + &r.fee) * &nf), &one), "low-fee", "{} of {}", r.fee, r.amount_in);
    }
    // does an amount move the price at all
    let dir = src.bool();
    let moves = sut::moves_price(&amount, cur, &liquidity, f, exact_in, dir);
    let want = if liquidity.is_zero() {
        Some(true)
    } else {
        let next = if exact_in {
            let usable = &amount * (&one - &nf) / &one;
            if dir {
                next_price_x(&nc, &liquidity, &usable, true)
            } else {
                next_price_y(&nc, &liquidity, &usable, true)
            }
        } else if dir {
            next_price_y(&nc, &liquidity, &amount, false)
        } else {
            next_price_x(&nc, &liquidity, &amount, false)
        };
        next.filter(|p| p.bits() <= 128).map(|p| p != nc)
    };
    ensure!(moves == want || want.is_none() && !sut::REFUSES, "moves-price", "amount {amount} price {cur} liquidity {liquidity} fee {f} exact in {exact_in} x to y {dir}: {moves:?}, should be {want:?}");
    // the price after x alone
    let add = src.bool();
    let got = sut::next_price_x(cur, &liquidity, &amount, add);
    if !liquidity.is_zero() {
        let want = next_price_x(&nc, &liquidity, &amount, add).and_then(|p| to_u128(&p));
        ensure!(got == want || want.is_none() && !sut::REFUSES, "next-price", "price {cur} liquidity {liquidity} x {amount} add {add}: {got:?}, should be {want:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- accumulators

pub fn accumulators(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = |src: &mut Src| src.skewed(u128::MAX);
    let (a, b) = (w(src), w(src));
    ctx.log(|| format!("growths {a} {b}"));
    for (add, sub) in [(sut::growth_add as fn(u128, u128) -> Option<u128>, sut::growth_sub as fn(u128, u128) -> Option<u128>), (sut::seconds_add, sut::seconds_sub)] {
        ensure!(add(a, b) == Some(a.wrapping_add(b)), "wrapping-add", "{a} + {b}: {:?}", add(a, b));
        ensure!(sub(a, b) == Some(a.wrapping_sub(b)), "wrapping-sub", "{a} - {b}: {:?}", sub(a, b));
    }
    // fees to growth and back
    let (liquidity, f) = (some_amount(src), some_amount(src));
    ctx.log(|| format!("liquidity {liquidity} fee {f}"));
    let got = sut::growth_from_fee(&liquidity, &f);
    let want = (!liquidity.is_zero()).then(|| growth_of(&f, &liquidity)).flatten().and_then(|g| to_u128(&g));
    ensure!(got == want, "growth-of-fee", "fee {f} liquidity {liquidity}: {got:?}, should be {want:?}");
    if let Some(g) = got {
        ctx.nontrivial = g > 0;
        // shares of it never add up to more
        let mut rest = liquidity.clone();
        let mut paid = N::zero();
        for i in 0..3 {
            let part = if i == 2 { rest.clone() } else { &rest * N::from(src.below(1001)) / N::from(1000u32) };
            rest -= &part;
            let Some(x) = sut::growth_to_fee(g, &part) else { return fail("fee-of-share", format!("growth {g} liquidity {part}")) };
            paid += x;
        }
        ensure!(paid <= f, "paid-too-much", "fee {f} over {liquidity}: {paid}");
        // and lose little: the cut of the growth, and one unit per share
        let lost = &f - &paid;
        let bound = &liquidity / pow10(GROWTH + LIQ) + n(4);
        ensure!(lost <= bound, "paid-too-little", "fee {f} over {liquidity}: {paid}");
    }
    let g = w(src);
    let want = Some(fee_of(&n(g), &liquidity)).filter(|v| v.bits() <= 256);
    let got = sut::growth_to_fee(g, &liquidity);
    ensure!(got == want, "fee-of-growth", "growth {g} liquidity {liquidity}: {got:?}, should be {want:?}");
    // ranges: growth inside is global less below less above, and neighbouring ranges add up
    let mut ts = [some_tick(src), some_tick(src), some_tick(src)];
    if src.bool() {
        ts[1] = ts[0] + src.range(0, 3) as i32;
        ts[2] = ts[1] + src.range(0, 3) as i32;
    }
    ts.sort();
    let cur = match src.below(5) {
        0 => some_tick(src),
        k => {
            let j = src.usize(3);
            ts[j] + (k as i32 - 2).min(1)
        }
    };
    let out: Vec<(u128, u128)> = (0..3).map(|_| (w(src), w(src))).collect();
    let glob = (w(src), w(src));
    ctx.log(|| format!("ticks {ts:?} current {cur} outside {out:?} global {glob:?}"));
    let inside = |i: usize, j: usize| sut::growth_inside((ts[i], out[i].0, out[i].1), (ts[j], out[j].0, out[j].1), cur, glob);
    let one = |g: u128, lo: (i32, u128), up: (i32, u128)| {
        let below = if cur >= lo.0 { lo.1 } else { g.wrapping_sub(lo.1) };
        let above = if cur < up.0 { up.1 } else { g.wrapping_sub(up.1) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    for (i, j) in [(0, 1), (1, 2), (0, 2)] {
        if ts[i] == ts[j] {
            continue;
        }
        let want = (one(glob.0, (ts[i], out[i].0), (ts[j], out[j].0)), one(glob.1, (ts[i], out[i].1), (ts[j], out[j].1)));
        ensure!(inside(i, j) == Some(want), "growth-inside", "ticks {} {} current {cur}: {:?}, should be {want:?}", ts[i], ts[j], inside(i, j));
        let s = sut::seconds_inside((ts[i], out[i].0), (ts[j], out[j].0), cur, glob.0);
        ensure!(s == Some(want.0), "seconds-inside", "ticks {} {} current {cur}: {s:?}, should be {}", ts[i], ts[j], want.0);
    }
    if ts[0] < ts[1] && ts[1] < ts[2] {
        let (p, q, r) = (inside(0, 1).unwrap(), inside(1, 2).unwrap(), inside(0, 2).unwrap());
        ensure!(r.0 == p.0.wrapping_add(q.0) && r.1 == p.1.wrapping_add(q.1), "ranges-add-up", "ticks {ts:?} current {cur}");
    }
    // seconds per liquidity
    let last = src.skewed(u64::MAX as u128) as u64;
    let dt = src.skewed(1 << 40) as u64;
    let now = if src.chance(1, 8) { last.saturating_sub(dt) } else { last.saturating_add(dt) };
    ctx.log(|| format!("seconds {last} {now} liquidity {liquidity}"));
    let got = sut::seconds_global(&liquidity, now, last);
    let want = if now <= last || liquidity.is_zero() {
        None
    } else {
        let product = n((now - last) as u128) * pow10(25) * pow10(LIQ);
        (product.bits() <= 128).then(|| to_u128(&(product / &liquidity))).flatten()
    };
    ensure!(got == want, "seconds-per-liquidity", "from {last} to {now} liquidity {liquidity}: {got:?}, should be {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- tick search

pub fn tick_search(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = spacing(src);
    let si = s as i32;
    let edge = MAX_TICK / si * si;
    let mut map = sut::Map::new(s);
    let mut model = vec![BTreeSet::<i32>::new(); sut::Map::POOLS];
    let centre = match src.below(4) {
        0 => edge,
        1 => -edge,
        // about the border of two chunks
        2 => -edge + 64 * si * src.range(0, 2 * edge as i64 / si as i64 / 64) as i32,
        _ => align(some_tick(src), si),
    };
    let tick = |src: &mut Src| {
        let d = match src.below(8) {
            0 => 256,
            1 => 255 + src.range(0, 3) as i32,
            2 => 64 * src.range(0, 5) as i32,
            3 => 62 + src.range(0, 4) as i32,
            4 => 0,
            5 => src.range(0, 600) as i32,
            _ => src.range(0, 10) as i32,
        };
        let d = if src.bool() { d } else { -d };
        (centre as i64 + (d * si) as i64).clamp(-edge as i64, edge as i64) as i32
    };
    let ops = 1 + src.below(14);
    for _ in 0..ops {
        let t = tick(src);
        let t = align(t, si).max(-edge);
        let pool = if src.chance(1, 4) { src.usize(sut::Map::POOLS) } else { 0 };
        let value = !model[pool].contains(&t);
        ctx.log(|| format!("pool {pool} flip {t} to {value}"));
        if src.chance(1, 10) {
            // setting what is set already is refused
            ensure!(map.flip(pool, !value, t, s).is_none(), "flip-twice", "tick {t} spacing {s} was {}", !value);
        }
        ensure!(map.flip(pool, value, t, s).is_some(), "flip", "tick {t} spacing {s} to {value}");
        if value {
            model[pool].insert(t);
        } else {
            model[pool].remove(&t);
        }
        for _ in 0..2 {
            ctx.evals += 1;
            let q = align(tick(src), si).max(-edge);
            let pool = if src.chance(1, 4) { src.usize(sut::Map::POOLS) } else { 0 };
            let set = &model[pool];
            ctx.log(|| format!("pool {pool} look from {q}, set {set:?}"));
            ensure!(map.get(pool, q, s) == Some(set.contains(&q)), "get", "tick {q} spacing {s}: {:?}", map.get(pool, q, s));
            let (lo, hi) = ((q - 256 * si).max(-edge), (q + 256 * si).min(edge));
            let next = if q < hi { set.range(q + 1..=hi).next().copied() } else { None };
            let prev = set.range(lo..=q).next_back().copied();
            ensure!(map.next(pool, q, s) == Ok(next), "next", "from {q} spacing {s}: {:?}, should be {next:?}", map.next(pool, q, s));
            ensure!(map.prev(pool, q, s) == Ok(prev), "prev", "from {q} spacing {s}: {:?}, should be {prev:?}", map.prev(pool, q, s));
            ctx.nontrivial |= next.is_some_and(|t| (t - q) / si > 64) || prev.is_some_and(|t| (q - t) / si > 64);
            // the stop of a swap: that tick or the end of the range, or the price limit before it
            let down = src.bool();
            let found = if down { prev } else { next };
            let end = if down { lo } else { hi };
            let stop = found.unwrap_or(end);
            let ps = tick_price(stop);
            let limit = match src.below(4) {
                0 => ps,
                1 => ps + 1 + src.skewed(10u128.pow(20)),
                2 => ps - 1 - src.skewed(10u128.pow(12)),
                _ => price(src),
            };
            let got = map.closer(pool, limit, down, q, s);
            ctx.log(|| format!("down {down} limit {limit}"));
            if found.is_none() && end == q {
                ensure!(got.is_none(), "no-way-on", "from {q} spacing {s} down {down}: {got:?}");
                continue;
            }
            let at_stop = (ps, Some((stop, found.is_some())));
            let ok = if limit == ps {
                // a tick reached upwards is crossed; otherwise it makes no difference
                got == Some(at_stop) || (down || found.is_none()) && got == Some((limit, None))
            } else if down && ps > limit || !down && ps < limit {
                got == Some(at_stop)
            } else {
                got == Some((limit, None))
            };
            ensure!(ok, "stop", "from {q} spacing {s} down {down} limit {limit}: {got:?}, tick {stop} ({}) at {ps}", found.is_some());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- liquidity from amounts

/// Whether liquidity `l` of the range costs at most `amount`, and one part in 10^12 more would not.
fn cost(x: bool, a: u128, b: u128, l: &N) -> N {
    let (a, b) = (n(a), n(b));
    if x {
        delta_x(&a, &b, l, true).expect("positive prices")
    } else {
        delta_y(&a, &b, l, true)
    }
}

fn most(x: bool, a: u128, b: u128, l: &N, amount: &N, what: &str) -> Res {
    let c = cost(x, a, b, l);
    ensure!(c <= *amount, "costs-more", "{what}: liquidity {l} between {a} and {b} costs {c}, given {amount}");
    // the price product is cut at 24 decimals: 1 part in 10^13; one unit of liquidity besides
    let more = l + l / pow10(12) + n(2);
    let c = cost(x, a, b, &more);
    // (a tiny range: the next token unit may need a lot more)
    ensure!(c > *amount || c == *amount && more.bits() < 300, "not-the-most", "{what}: liquidity {more} between {a} and {b} costs {c}, given {amount}");
    Ok(())
}

/// The other token: y is the exact amount, rounded; x is so within one part in 10^12 (the product of
/// the prices is cut at 24 decimals), and never rounded below the exact amount when rounding up.
fn close(x: bool, a: u128, b: u128, l: &N, got: &N, up: bool, what: &str) -> Res {
    let (na, nb) = (n(a), n(b));
    let (num, den) = if x { exact_x(&na, &nb, l) } else { exact_y(&na, &nb, l) };
    let says = || format!("{what}: liquidity {l} between {a} and {b}, up {up}: {got} of {}/{den}", num);
    if !x {
        ensure!(*got == if up { ceil_div(&num, &den) } else { num.div_floor(&den) }, "other-amount", "{}", says());
        return Ok(());
    }
    let slack = &num / pow10(12);
    let got = got * &den;
    if up {
        ensure!(got >= num, "other-amount-low", "{}", says());
        ensure!(got <= &num + slack + &den * n(2), "other-amount-high", "{}", says());
    } else {
        ensure!(got <= &num + &slack, "other-amount-high", "{}", says());
        ensure!(got + slack + &den * n(2) >= num, "other-amount-low", "{}", says());
    }
    Ok(())
}

pub struct Deposit {
    pub lower: i32,
    pub upper: i32,
    pub p: u128,
    pub up: bool,
}

pub fn deposit(src: &mut Src) -> Deposit {
    let s = spacing(src) as i32;
    let edge = MAX_TICK / s * s;
    let lower = align(some_tick(src), s).clamp(-edge, edge - s);
    let upper = if src.bool() { (lower + s * (1 + src.skewed(300) as i32)).min(edge) } else { align(some_tick(src), s).clamp(lower + s, edge) };
    let (pl, pu) = (tick_price(lower), tick_price(upper));
    let p = match src.below(10) {
        0 => pl,
        1 => pu,
        2 => pl + 1,
        3 => pu - 1,
        4 => price(src),
        5 => (pl - src.skewed(pl / 2)).max(MIN_SQRT_PRICE),
        6 => (pu + src.skewed(pu)).min(MAX_SQRT_PRICE),
        _ => pl + src.skewed(pu - pl),
    };
    Deposit { lower, upper, p, up: src.bool() }
}

pub fn liquidity(src: &mut Src, ctx: &mut Ctx) -> Res {
    let d = deposit(src);
    let (pl, pu) = (tick_price(d.lower), tick_price(d.upper));
    // amounts whose liquidity fits (the numerator of the library is 512 bits wide)
    let amount = if src.chance(1, 6) { n(src.skewed(u128::MAX)) } else { ordinary(src) };
    ctx.log(|| format!("range {} {} ({pl} {pu}) price {} amount {amount} up {}", d.lower, d.upper, d.p, d.up));
    ctx.label(if d.p < pl { "below" } else if d.p < pu { "inside" } else { "above" });
    ctx.nontrivial = d.p > pl && d.p < pu && amount > n(10);
    // by x
    let got = sut::by_x(&amount, d.lower, d.upper, d.p, d.up);
    let by_x = got.clone();
    if d.p >= pu {
        ensure!(got.is_none(), "x-above", "{got:?}");
    } else {
        let from = d.p.max(pl);
        match &got {
            Some((l, y)) => {
                most(true, from, pu, l, &amount, "by x")?;
                if d.p > pl {
                    close(false, pl, d.p, l, y, d.up, "y by x")?;
                } else {
                    ensure!(y.is_zero(), "y-below", "{y}");
                }
            }
            None => {
                // only if the liquidity does not fit
                let l = &amount * n(from) * n(pu) * pow10(LIQ) / pow10(PRICE) / n(pu - from);
                ensure!(l.bits() >= 192, "by-x-refused", "liquidity {l} of {amount} between {from} and {pu}");
            }
        }
    }
    // by y
    let got = sut::by_y(&amount, d.lower, d.upper, d.p, d.up);
    if d.p <= pl {
        ensure!(got.is_none(), "y-below", "{got:?}");
    } else {
        let to = d.p.min(pu);
        match &got {
            Some((l, x)) => {
                most(false, pl, to, l, &amount, "by y")?;
                if d.p < pu {
                    close(true, d.p, pu, l, x, d.up, "x by y")?;
                } else {
                    ensure!(x.is_zero(), "x-above", "{x}");
                }
            }
            None => {
                let l = &amount * pow10(PRICE + LIQ) / n(to - pl);
                ensure!(l.bits() >= 192, "by-y-refused", "liquidity {l} of {amount} between {pl} and {to}");
            }
        }
    }
    liquidity_of_both(src, ctx, &d, &amount, by_x)?;
    // the calls of a wrong range are refused
    let (lo, up) = *src.pick(&[(-MAX_TICK - 1, d.upper), (d.lower, MAX_TICK + 1), (i32::MIN, d.upper), (d.lower, i32::MAX), (i32::MIN, i32::MIN)]);
    ensure!(sut::by_x(&amount, lo, up, d.p, d.up).is_none(), "ticks-out", "{lo} {up}");
    ensure!(sut::by_y(&amount, lo, up, d.p, d.up).is_none(), "ticks-out", "{lo} {up}");
    Ok(())
}

/// The liquidity two given amounts allow, and what it needs of them.
fn liquidity_of_both(src: &mut Src, ctx: &mut Ctx, d: &Deposit, x: &N, by_x: Option<(N, N)>) -> Res {
    let (pl, pu) = (tick_price(d.lower), tick_price(d.upper));
    // often about the amount that goes with x
    let y = match &by_x {
        Some((_, y)) if src.chance(2, 3) => {
            let e = src.skewed(1 << 40);
            let e = n(e);
            if src.bool() {
                y + e
            } else if *y > e {
                y - e
            } else {
                N::zero()
            }
        }
        _ => ordinary(src),
    };
    if y.bits() > 256 {
        return Ok(());
    }
    let by_y = sut::by_y(&y, d.lower, d.upper, d.p, d.up);
    let Some(got) = sut::by_both(x, &y, d.lower, d.upper, d.p, d.up) else { return Ok(()) };
    ctx.log(|| format!("y {y}: {got:?}, by x {by_x:?}, by y {by_y:?}"));
    let want = if d.p <= pl {
        by_x.map(|(l, y)| (l, x.clone(), y))
    } else if d.p >= pu {
        by_y.map(|(l, x)| (l, x, y.clone()))
    } else {
        match (by_x, by_y) {
            (Some((lx, yx)), Some((ly, xy))) => Some(if ly < lx { (ly, xy, y.clone()) } else { (lx, x.clone(), yx) }),
            _ => None,
        }
    };
    ensure!(got == want, "of-both", "range {} {} price {} amounts {x} {y} up {}: {got:?}, should be {want:?}", d.lower, d.upper, d.p, d.up);
    if let Some((l, gx, gy)) = want {
        // what the library asks for is what the pool takes, and not more than given
        if d.p > pl && d.p < pu {
            let (cx, cy) = (cost(true, d.p, pu, &l), cost(false, pl, d.p, &l));
            ensure!(cx <= *x && cy <= &y + n(1), "too-much-liquidity", "liquidity {l} costs {cx} {cy}, given {x} {y}");
            if d.up {
                ensure!(cx <= gx && cy <= gy, "does-not-cover", "liquidity {l} costs {cx} {cy}, should cost {gx} {gy}");
            }
        }
    }
    Ok(())
}
