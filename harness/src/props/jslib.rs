//! The library of the TypeScript client: its own helpers and the compiled functions as it calls them.

use super::client::{after_slippage, tick_at, view, STAND_INS};
use crate::client::*;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::refamm::{self, tick_of_price, tick_price, No, SwapArgs};
use crate::refmath::*;
use crate::sut;
use contracts::{FeeTier, PoolKey};
use math::percentage::Percentage;
use math::{MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use serde_json::{json, Value};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "T03",
            run: t03,
            quick: 240_000,
            thorough: 3_000_000,
            rule: "a case calls one helper of the client with random prices, tolerances or ticks; non-trivial: the amounts of a position at a tolerance that reaches into, out of or across its range, or a square root next to a perfect square",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
        Property {
            id: "T04",
            run: t04,
            quick: 240_000,
            thorough: 3_000_000,
            rule: "a case calls one function of the library through the client, with numbers at and beyond its limits; non-trivial: the program's own arithmetic gives a result (it is not refused) that is not zero",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
        Property {
            id: "T05",
            run: t05,
            quick: 30_000,
            thorough: 400_000,
            rule: "a case is a generated history and a swap simulated by the client on what it reads from the program, with its filters of ticks or without them; non-trivial: the simulated swap crosses a tick that holds a position and succeeds",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
        Property {
            id: "T09",
            run: t09,
            quick: 200_000,
            thorough: 1_000_000,
            rule: "a case is a tick spacing, a least range, a number of ticks and a current tick with the client's concentrations for them; non-trivial: a concentration strictly between those of two ranges, and a list that the distance to the end of the price range cuts short",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
    ]
}

/// The result is this number.
fn is(name: &str, got: &Answer, want: &N) -> Res {
    match got {
        Ok(v) if v["$n"].is_string() && number(v) == Some(BigInt::from(want.clone())) => Ok(()),
        other => fail(name, format!("{name} gives {other:?}, should be {want}")),
    }
}
/// The result is this value; without one the call fails.
fn same(name: &str, got: &Answer, want: Option<Value>) -> Res {
    match (got, &want) {
        (Ok(g), Some(w)) => ensure!(g == w, name, "{name} gives {g}, should be {w}"),
        (Err(_), None) => {}
        (Ok(g), None) => return fail(&format!("{name}-refusal"), format!("{name} gives {g}, should refuse")),
        (Err(e), Some(w)) => return fail(name, format!("{name} fails with {e:?}, should be {w}")),
    }
    Ok(())
}

fn any_price(src: &mut Src) -> u128 {
    match src.below(8) {
        0 => MIN_SQRT_PRICE,
        1 => MAX_SQRT_PRICE,
        2 | 3 => to_u128(&tick_price(random_tick(src, 1))).unwrap(),
        4 => src.skewed(MAX_SQRT_PRICE - MIN_SQRT_PRICE) + MIN_SQRT_PRICE,
        _ => {
            let t = random_tick(src, 1);
            random_price_in_tick(src, t, 1)
        }
    }
}

fn slippage(src: &mut Src) -> u128 {
    match src.below(5) {
        0 => 0,
        1 => src.skewed(ONE_PCT),
        2 => ONE_PCT / 100 * (1 + src.below(20) as u128),
        3 => src.skewed(ONE_PCT / 1000),
        _ => *src.pick(&[1, ONE_PCT - 1, ONE_PCT, ONE_PCT / 2]),
    }
}

fn t03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let one = pow10(24);
    match src.below(8) {
        0 => {
            // a price, near the square of something half of the time
            let price = if src.bool() {
                let bits = 1 + src.below(200) as usize;
                (N::from(src.word()) * N::from(src.word()) * N::from(src.word()) * N::from(src.word())) >> (256usize.saturating_sub(bits))
            } else {
                let s = n(any_price(src));
                ctx.nontrivial = true;
                let p = &s * &s / &one;
                match src.below(3) {
                    0 => p + N::one(),
                    1 => p,
                    _ => if p.is_zero() { p } else { p - N::one() },
                }
            };
            let got = lib("priceToSqrtPrice", vec![big(&price)])?;
            ctx.log(|| format!("priceToSqrtPrice({price}) = {got:?}"));
            is("priceToSqrtPrice", &got, &(&price * &one).sqrt())
        }
        1 => {
            let s = if src.bool() { any_price(src) } else { src.skewed(u128::MAX) };
            let got = lib("sqrtPriceToPrice", vec![big(s)])?;
            is("sqrtPriceToPrice", &got, &(n(s) * n(s) / &one))
        }
        2 => {
            let (a, b) = (any_price(src), any_price(src));
            let got = lib("calculatePriceImpact", vec![big(a), big(b)])?;
            let (a, b) = (n(a) * n(a), n(b) * n(b));
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            is("calculatePriceImpact", &got, &((&hi - lo) * n(ONE_PCT) / hi))
        }
        3 => {
            let (s, by, up) = (any_price(src), slippage(src), src.bool());
            let got = lib("calculateSqrtPriceAfterSlippage", vec![big(s), big(by), json!(up)])?;
            ctx.log(|| format!("{s} by {by} up {up}: {got:?}"));
            let Some((lo, hi)) = after_slippage(s, by, up) else {
                ensure!(got.is_err(), "slippage-refusal", "a price below zero is {got:?}");
                return Ok(());
            };
            match got.as_ref().ok().and_then(number).and_then(|v| v.to_biguint()) {
                Some(v) if lo <= v && v <= hi => Ok(()),
                _ => fail("calculateSqrtPriceAfterSlippage", format!("{s} after {by} (up: {up}) is {got:?}, should be from {lo} to {hi}")),
            }
        }
        4 => {
            let k = src.usize(12);
            let ticks: Vec<(i32, N, bool)> = (0..k).map(|_| (random_tick(src, 1), nu(scaled_u256(src, 250)), src.bool())).collect();
            let mut sum = BigInt::zero();
            let want: Vec<Value> = ticks
                .iter()
                .map(|(i, c, up)| {
                    let c = BigInt::from(c.clone());
                    sum += if *up { c } else { -c };
                    json!({"liquidity": big(&sum), "index": i.js()})
                })
                .collect();
            let js: Vec<Value> = ticks.iter().map(|(i, c, up)| json!({"index": i.js(), "liquidityChange": big(c), "sign": up})).collect();
            let got = lib("calculateLiquidityBreakpoints", vec![json!(js)])?;
            same("calculateLiquidityBreakpoints", &got, Some(json!(want)))
        }
        _ => amounts_with_slippage(src, ctx),
    }
}

/// Opening a position at any price within the tolerance takes no more than the client says, and it
/// takes all of it at one of them.
fn amounts_with_slippage(src: &mut Src, ctx: &mut Ctx) -> Res {
    let spacing = 1 + src.below(100) as i32;
    let edge = MAX_TICK / spacing;
    let price = any_price(src).clamp(to_u128(&tick_price(-edge * spacing)).unwrap(), to_u128(&tick_price(edge * spacing)).unwrap());
    let by = match slippage(src) {
        // beyond that no price is left
        s if s >= ONE_PCT => ONE_PCT / 2,
        s => s,
    };
    let up = !src.chance(1, 4);
    let current = tick_of_price(&n(price), spacing) / spacing;
    // a range about the price, or not far from it
    let near = |src: &mut Src| {
        let d = src.skewed(4000) as i32;
        (current + if src.bool() { d } else { -d }).clamp(-edge, edge)
    };
    let (a, b) = (near(src), near(src));
    if a == b {
        return Ok(());
    }
    let (lower, upper) = (a.min(b) * spacing, a.max(b) * spacing);
    let liquidity = nu(scaled_u256(src, 120));
    let limit = |up: bool| -> Result<Option<N>, Failure> {
        Ok(lib("calculateSqrtPriceAfterSlippage", vec![big(price), big(by), json!(up)])?.ok().as_ref().and_then(number).and_then(|v| v.to_biguint()))
    };
    let (Some(lo), Some(hi)) = (limit(false)?, limit(true)?) else { return fail("slippage", format!("no price {by} from {price}")) };
    // prices no pool can have do not count
    let lo = lo.max(n(MIN_SQRT_PRICE));
    let hi = hi.min(n(MAX_SQRT_PRICE));
    let args = vec![spacing.js(), big(price), big(&liquidity), lower.js(), upper.js(), big(by), json!(up)];
    let got = lib("calculateTokenAmountsWithSlippage", args)?;
    ctx.log(|| format!("price {price} spacing {spacing} tolerance {by} from {lo} to {hi}; range {lower}..{upper} liquidity {liquidity} up {up}: {got:?}"));
    let at = |p: &N| {
        let p = to_u128(p).unwrap();
        let t = tick_at(p, spacing as u16);
        sut::amounts(t, p, &liquidity, up, lower, upper).map(|(x, y, _)| (x, y))
    };
    let (Some(l), Some(h)) = (at(&lo), at(&hi)) else {
        ctx.label("does not fit");
        return Ok(());
    };
    let pair = match &got {
        Ok(Value::Array(v)) if v.len() == 2 => number(&v[0]).zip(number(&v[1])),
        _ => None,
    };
    let Some((x, y)) = pair else { return fail("amounts-with-slippage", format!("calculateTokenAmountsWithSlippage gives {got:?}")) };
    let (x, y) = (x.to_biguint().unwrap_or_default(), y.to_biguint().unwrap_or_default());
    let spread = hi.clone() - &lo;
    for k in 0..4u32 {
        let p = match k {
            0 => n(price),
            1 => tick_price(lower).clamp(lo.clone(), hi.clone()),
            2 => tick_price(upper).clamp(lo.clone(), hi.clone()),
            _ => &lo + &spread * n(src.below(1000) as u128) / n(1000),
        };
        if let Some(m) = at(&p) {
            ensure!(m.0 <= x && m.1 <= y, "amounts-too-small", "({x}, {y}) for a price within {by} of {price}; at {p} it takes {m:?}; range {lower}..{upper} liquidity {liquidity}");
        }
    }
    let most = (l.0.clone().max(h.0.clone()), l.1.clone().max(h.1.clone()));
    ensure!((x.clone(), y.clone()) == most, "amounts-with-slippage", "({x}, {y}) for a price within {by} of {price}, should be {most:?}; range {lower}..{upper} liquidity {liquidity}");
    let inside = |p: &N| tick_price(lower) <= *p && *p < tick_price(upper);
    if inside(&lo) != inside(&hi) || inside(&n(price)) != inside(&lo) {
        ctx.nontrivial = true;
        ctx.label("crosses an end of the range");
    }
    Ok(())
}

fn scales() -> [(&'static str, u32, u32); 8] {
    // name, decimal places, bits
    [
        ("FeeGrowth", 28, 128),
        ("FixedPoint", 12, 128),
        ("Liquidity", 5, 256),
        ("Percentage", 12, 128),
        ("Price", 24, 128),
        ("SecondsPerLiquidity", 25, 128),
        ("SqrtPrice", 24, 128),
        ("TokenAmount", 0, 256),
    ]
}

fn wide(src: &mut Src, bits: u32) -> N {
    let top = src.below(bits as u64 + 1) as usize;
    let mut v = N::zero();
    for _ in 0..4 {
        v = (v << 64u32) + N::from(src.word());
    }
    v >> (256 - top.max(1))
}

fn t04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let spacing = 1 + src.below(100) as u16;
    let s = spacing as i32;
    let tick = |src: &mut Src| -> i32 {
        match src.below(12) {
            0 => *src.pick(&[MAX_TICK, -MAX_TICK, MAX_TICK + 1, -MAX_TICK - 1, i32::MAX, i32::MIN]),
            _ => random_tick(src, spacing),
        }
    };
    let price = |src: &mut Src| match src.below(12) {
        0 => *src.pick(&[MIN_SQRT_PRICE - 1, MAX_SQRT_PRICE + 1, 0, u128::MAX]),
        _ => any_price(src),
    };
    match src.below(16) {
        0 => {
            let t = tick(src);
            let got = lib("calculateSqrtPrice", vec![t.js()])?;
            let want = (t.unsigned_abs() <= MAX_TICK as u32).then(|| big(tick_price(t)));
            ctx.nontrivial = want.is_some();
            same("calculateSqrtPrice", &got, want)
        }
        1 => {
            let p = price(src);
            let got = lib("calculateTick", vec![big(p), spacing.js()])?;
            let want = (MIN_SQRT_PRICE..=MAX_SQRT_PRICE).contains(&p).then(|| tick_at(p, spacing));
            ctx.nontrivial = want.is_some_and(|t| t != 0);
            ctx.log(|| format!("calculateTick({p}, {spacing}) = {got:?}"));
            same("calculateTick", &got, want.map(|t| t.js()))
        }
        2 => {
            let max = MAX_TICK / s * s;
            ctx.nontrivial = true;
            same("getMaxTick", &lib("getMaxTick", vec![spacing.js()])?, Some(max.js()))?;
            same("getMinTick", &lib("getMinTick", vec![spacing.js()])?, Some((-max).js()))?;
            same("getMaxSqrtPrice", &lib("getMaxSqrtPrice", vec![spacing.js()])?, Some(big(tick_price(max))))?;
            same("getMinSqrtPrice", &lib("getMinSqrtPrice", vec![spacing.js()])?, Some(big(tick_price(-max))))?;
            same("getMaxChunk", &lib("getMaxChunk", vec![spacing.js()])?, Some(big(2 * (MAX_TICK / s) / 64)))
        }
        3 => {
            // a place in the tick map and the tick there
            let steps = MAX_TICK / s;
            let i = src.range(-steps as i64, steps as i64) as i32;
            let at = i + steps;
            let (chunk, bit) = (at / 64, at % 64);
            ctx.nontrivial = true;
            same("positionToTick", &lib("positionToTick", vec![chunk.js(), bit.js(), spacing.js()])?, Some((i * s).js()))?;
            let got = function("wasm", "tickIndexToPosition", vec![(i * s).js(), spacing.js()])?;
            same("tickIndexToPosition", &got.map(|v| plain(&v)), Some(json!([chunk.to_string(), bit.to_string()])))
        }
        4 => {
            let fee = match src.below(4) {
                0 => src.skewed(ONE_PCT * 2),
                1 => *src.pick(&[0, ONE_PCT - 1, ONE_PCT, ONE_PCT + 1]),
                _ => src.skewed(ONE_PCT),
            };
            let spacing = if src.chance(1, 4) { *src.pick(&[0, 1, 100, 101, 1000]) } else { spacing };
            let ok = (1..=100).contains(&spacing) && fee <= ONE_PCT;
            ctx.nontrivial = ok;
            let tier = json!({"fee": big(fee), "tickSpacing": spacing.js()});
            same("newFeeTier", &lib("newFeeTier", vec![big(fee), spacing.js()])?, ok.then_some(tier))?;
            let k = src.below(120);
            let tier = json!({"fee": big(k as u128 * ONE_PCT / 10_000), "tickSpacing": big(k)});
            same("calculateFeeTierWithLinearRatio", &lib("calculateFeeTierWithLinearRatio", vec![big(k)])?, (1..=100).contains(&k).then_some(tier))
        }
        5 => {
            let mut a = [0u8; 32];
            for b in a.iter_mut() {
                *b = src.below(256) as u8;
            }
            let mut b = a;
            if !src.chance(1, 6) {
                let i = src.usize(32);
                b[i] = src.below(256) as u8;
                if src.bool() {
                    let i = src.usize(32);
                    b[i] = src.below(256) as u8;
                }
            }
            let tier = FeeTier { fee: Percentage(src.skewed(ONE_PCT)), tick_spacing: spacing };
            ctx.nontrivial = a != b;
            let key = (a != b).then(|| PoolKey { token_x: a.min(b).into(), token_y: a.max(b).into(), fee_tier: tier }.js());
            same("newPoolKey", &lib("newPoolKey", vec![json!(hex(&a)), json!(hex(&b)), tier.js()])?, key)?;
            if a == b {
                return Ok(());
            }
            same("isTokenX", &lib("isTokenX", vec![json!(hex(&a)), json!(hex(&b))])?, Some(json!(a < b)))
        }
        6 | 7 => {
            let p = price(src).max(1);
            let t = if src.chance(1, 6) { tick(src) } else { tick_of_price(&n(p).clamp(tick_price(-MAX_TICK / s * s), n(MAX_SQRT_PRICE)), s) };
            let (a, b) = (random_tick(src, spacing), random_tick(src, spacing));
            let (lower, upper) = if src.chance(1, 20) { (a, b) } else { (a.min(b), a.max(b)) };
            let liquidity = wide(src, 256);
            let up = src.bool();
            let want = sut::amounts(t, p, &liquidity, up, lower, upper);
            ctx.nontrivial = want.as_ref().is_some_and(|w| !w.0.is_zero() || !w.1.is_zero());
            ctx.log(|| format!("tick {t} price {p} liquidity {liquidity} up {up} {lower}..{upper}: {want:?}"));
            let args = vec![t.js(), big(p), big(&liquidity), json!(up), upper.js(), lower.js()];
            let got = lib("calculateAmountDelta", args)?;
            same("calculateAmountDelta", &got, want.as_ref().map(|w| json!([big(&w.0), big(&w.1)])))?;
            let pool = json!({"currentTickIndex": t.js(), "sqrtPrice": big(p)});
            let position = json!({"liquidity": big(&liquidity), "upperTickIndex": upper.js(), "lowerTickIndex": lower.js()});
            let got = lib("_calculateTokenAmounts", vec![pool.clone(), position.clone(), json!(up)])?;
            same("_calculateTokenAmounts", &got, want.map(|w| json!([big(&w.0), big(&w.1), w.2])))?;
            let want = sut::amounts(t, p, &liquidity, false, lower, upper);
            let got = lib("calculateTokenAmounts", vec![pool, position])?;
            same("calculateTokenAmounts", &got, want.map(|w| json!([big(&w.0), big(&w.1), w.2])))
        }
        8 | 9 | 10 => {
            let p = any_price(src);
            let cur = tick_of_price(&n(p), 1);
            let near = |src: &mut Src| {
                let d = src.skewed(60_000) as i32;
                let t = cur + if src.bool() { d } else { -d };
                if src.chance(1, 30) { tick(src) } else { t.clamp(-MAX_TICK, MAX_TICK) }
            };
            let (a, b) = (near(src), near(src));
            let (lower, upper) = if src.chance(1, 20) { (a, b) } else { (a.min(b), a.max(b)) };
            let bits = if src.chance(1, 8) { 256 } else { 130 };
            let amount = wide(src, bits);
            let up = src.bool();
            let x = src.bool();
            let (name, want) = if x {
                ("getLiquidityByX", sut::by_x(&amount, lower, upper, p, up))
            } else {
                ("getLiquidityByY", sut::by_y(&amount, lower, upper, p, up))
            };
            let got = lib(name, vec![big(&amount), lower.js(), upper.js(), big(p), json!(up)])?;
            ctx.log(|| format!("{name}({amount}, {lower}, {upper}, {p}, {up}) = {got:?}, {want:?}"));
            ctx.nontrivial = want.as_ref().is_some_and(|w| !w.0.is_zero());
            same(name, &got, want.map(|(l, a)| json!({"l": big(l), "amount": big(a)})))
        }
        11 | 12 => {
            // fees of a position
            let g = |src: &mut Src| src.skewed(u128::MAX);
            let (a, b) = (random_tick(src, spacing), random_tick(src, spacing));
            let (lower, upper) = (a.min(b), a.max(b));
            let cur = if src.chance(1, 3) { lower } else { random_tick(src, spacing) };
            let lo = (lower, g(src), g(src));
            let hi = (upper, g(src), g(src));
            let global = (g(src), g(src));
            let liquidity = wide(src, 256);
            let Some((ix, iy)) = sut::growth_inside(lo, hi, cur, global) else { return Ok(()) };
            // what the position has seen already: anything, or not much less
            let seen = |src: &mut Src, now: u128| if src.bool() { g(src) } else { now.wrapping_sub(src.skewed(1 << 100)) };
            let (px, py) = (seen(src, ix), seen(src, iy));
            let fee = |now: u128, seen: u128| sut::growth_to_fee(now.wrapping_sub(seen), &liquidity);
            let want = fee(ix, px).zip(fee(iy, py));
            ctx.nontrivial = want.as_ref().is_some_and(|w| !w.0.is_zero() && !w.1.is_zero());
            let t = |t: (i32, u128, u128)| json!({"index": t.0.js(), "feeGrowthOutsideX": big(t.1), "feeGrowthOutsideY": big(t.2)});
            let pool = json!({"currentTickIndex": cur.js(), "feeGrowthGlobalX": big(global.0), "feeGrowthGlobalY": big(global.1)});
            let position = json!({"feeGrowthInsideX": big(px), "feeGrowthInsideY": big(py), "liquidity": big(&liquidity)});
            let got = lib("calculateFee", vec![pool, position, t(lo), t(hi)])?;
            same("calculateFee", &got, want.map(|w| json!([big(w.0), big(w.1)])))
        }
        13 | 14 => {
            let (name, places, bits) = *src.pick(&scales());
            let v = match src.below(6) {
                0 => -BigInt::one(),
                1 => BigInt::one() << 64,
                2 => (BigInt::one() << 64) - 1,
                _ => BigInt::from(src.skewed(u64::MAX as u128)),
            };
            let scale = src.below(31) as u32;
            let got = lib(&format!("to{name}"), vec![big(&v), big(scale)])?;
            let exact = v.to_biguint().map(|v| if scale <= places { v * pow10(places - scale) } else { v / pow10(scale - places) });
            let fits = !v.is_negative() && v.bits() <= 64 && exact.as_ref().is_some_and(|e| e.bits() <= bits as u64);
            ctx.log(|| format!("to{name}({v}, {scale}) = {got:?}"));
            ctx.nontrivial = fits && exact.as_ref().is_some_and(|e| !e.is_zero());
            match &got {
                Ok(_) => match exact {
                    Some(e) => is(&format!("to{name}"), &got, &e),
                    None => fail("to-negative", format!("to{name}({v}, {scale}) = {got:?}")),
                },
                Err(_) => {
                    ensure!(!fits, format!("to{name}-refusal").as_str(), "to{name}({v}, {scale}) fails with {got:?}");
                    Ok(())
                }
            }
        }
        _ => {
            let v: BigInt = match src.below(4) {
                0 => (BigInt::one() << 53) - 1 + src.range(-2, 2),
                1 => BigInt::from(1 - (1i64 << 53) + src.range(-2, 2)),
                2 => BigInt::from(src.word()),
                _ => BigInt::from(src.skewed(1 << 54)),
            };
            let fits = v.abs() < BigInt::one() << 53;
            let got = lib("integerSafeCast", vec![big(&v)])?;
            ctx.nontrivial = fits;
            same("integerSafeCast", &got.map(|x| if x.is_number() { plain(&x) } else { json!("no number") }), fits.then(|| json!(v.to_string())))?;
            if src.chance(1, 20) {
                constants()?;
            }
            Ok(())
        }
    }
}

fn constants() -> Res {
    let c = |name: &str| function("const", name, vec![]);
    for (name, value) in [
        ("MAX_SQRT_PRICE", MAX_SQRT_PRICE),
        ("MIN_SQRT_PRICE", MIN_SQRT_PRICE),
        ("SEARCH_RANGE", 256),
        ("CHUNK_SIZE", 64),
        ("LIQUIDITY_TICKS_LIMIT", 21544),
        ("MAX_POOL_KEYS_RETURNED", 9590),
        ("POSITIONS_ENTRIES_LIMIT", 1800),
        ("MAX_POOL_PAIRS_RETURNED", 4012),
    ] {
        same(name, &c(name)?, Some(big(value)))?;
    }
    for (name, places, _) in scales() {
        let mut upper = String::new();
        for ch in name.chars() {
            if ch.is_ascii_uppercase() && !upper.is_empty() {
                upper.push('_');
            }
            upper.push(ch.to_ascii_uppercase());
        }
        same(&upper, &c(&format!("{upper}_SCALE"))?, Some(big(places)))?;
        same(&upper, &c(&format!("{upper}_DENOMINATOR"))?, Some(big(pow10(places))))?;
    }
    let tiers: Vec<Value> = [1u128, 2, 5, 10, 30, 100].iter().map(|k| json!({"fee": big(k * ONE_PCT / 10_000), "tickSpacing": big(k)})).collect();
    same("FEE_TIERS", &c("FEE_TIERS")?, Some(json!(tiers)))
}

// ---- T05 ----

const MAX_STEPS: u32 = 142;

fn t05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { ops: (0, 8), initial_positions: (2, 9), create_position: 20, swap: 20, wrong: 0, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    if h.pools.is_empty() {
        return Ok(());
    }
    reset(None)?;
    h.initial_positions(src, ctx);
    for _ in 0..src.below(8) {
        let op = h.gen_op(src);
        let _ = h.apply(&op, ctx);
    }
    let i = src.usize(h.pools.len());
    if src.chance(1, 6) {
        let many = 4 + src.below(10);
        h.spread(src, i, many, ctx);
    }
    let key = h.pools[i];
    let read = |h: &mut Hist, name: &str, args: Vec<Value>| match view(h, name, args)? {
        Ok(v) => Ok(v),
        Err(e) => fail(name, format!("{name} fails with {e}")),
    };
    let (x, y) = (any(src, key.token_x), any(src, key.token_y));
    let pool = read(&mut h, "getPool", vec![x, y, key.fee_tier.js()])?;
    let map = read(&mut h, "getTickmap", vec![key.js()])?;
    let ticks = read(&mut h, "getAllLiquidityTicks", vec![key.js(), map.clone()])?;
    let st = h.pool_state(i);
    let v = st.view();
    for _ in 0..1 + src.below(4) {
        let x_to_y = src.bool();
        let exact_in = src.bool();
        let amount = h.gen_swap_amount(src, &st, x_to_y, exact_in);
        let limit = h.gen_limit(src, &st, x_to_y);
        ctx.log(|| format!("x to y {x_to_y} exact in {exact_in} amount {amount} limit {limit}"));
        let js = vec![st.pool.current_tick_index.js(), json!(x_to_y)];
        let (mut map, mut ticks) = (map.clone(), ticks.clone());
        if !src.chance(1, 4) {
            let args = [vec![map, key.fee_tier.tick_spacing.js()], js.clone()].concat();
            map = lib("filterTickmap", args)?.or_else(|e| fail("filterTickmap", e))?;
        }
        if !src.chance(1, 4) {
            let args = [vec![ticks], js].concat();
            ticks = lib("filterTicks", args)?.or_else(|e| fail("filterTicks", e))?;
        }
        let args = vec![map, key.fee_tier.js(), pool.clone(), ticks, json!(x_to_y), amount.js(), json!(exact_in), limit.js()];
        let got = lib("simulateInvariantSwap", args)?;
        ctx.evals += 1;
        let (wide_amount, wide_limit) = (nu(amount), n(limit));
        let a = SwapArgs { x_to_y, amount: &wide_amount, exact_in, limit: &wide_limit, protocol_fee: 0, now: 0 };
        let (want, end) = refamm::swap_as_far(&v, &a, MAX_STEPS);
        ctx.log(|| format!("{got:?}; the swap: {end:?}"));
        if let Err(No::Unrepresentable(_)) = end {
            ctx.label("does not fit");
            continue;
        }
        if matches!(end, Err(No::AmountIsZero | No::WrongLimit)) {
            ensure!(got.is_err(), "refusal", "{got:?}, the swap: {end:?}");
            ctx.label("refused");
            continue;
        }
        let r = match got {
            Ok(r) => r,
            Err(e) => return fail("simulation", format!("the simulation fails with {e:?}; the swap: {end:?}")),
        };
        let none = matches!(end, Err(No::PriceLimitReached | No::TickLimitReached));
        for (name, want) in [
            ("stateOutdated", false),
            ("globalInsufficientLiquidity", none),
            ("maxSwapStepsReached", end == Err(No::TooManySteps)),
        ] {
            ensure!(r[name] == json!(want), name, "{name} is {}, should be {want}; the swap: {end:?}", r[name]);
        }
        for (name, want) in [
            ("amountIn", &want.amount_in),
            ("amountOut", &want.amount_out),
            ("fee", &want.fee),
            ("targetSqrtPrice", &want.price),
            ("startSqrtPrice", &n(v.price)),
        ] {
            ensure!(r[name] == big(want), name, "{name} is {}, should be {want}; the swap: {end:?}", r[name]);
        }
        if none {
            continue;
        }
        let crossed: Vec<Value> = want
            .crossed
            .iter()
            .map(|c| {
                let t = &v.ticks[&c.0];
                json!({"index": c.0.to_string(), "liquidityChange": t.change.to_string(), "sign": t.up})
            })
            .collect();
        ensure!(plain(&r["crossedTicks"]) == json!(crossed), "crossed", "crossedTicks are {}, should be {crossed:?}", r["crossedTicks"]);
        if end.is_ok() && !crossed.is_empty() {
            ctx.nontrivial = true;
            ctx.label("crosses");
        }
        ctx.label(match end {
            Ok(()) => "done",
            Err(No::NoGainSwap) => "no gain",
            Err(No::TooManySteps) => "too many steps",
            _ => "other",
        });
    }
    Ok(())
}

fn any(src: &mut Src, a: sails_rs::ActorId) -> Value {
    if src.bool() {
        id(&a)
    } else {
        json!({"$b": hex(a.as_ref())})
    }
}

// ---- T09 ----

/// How much more a position of `range + 2n` ticks of this spacing yields than one over all prices.
fn concentration(spacing: u32, range: u32, n: u32) -> f64 {
    let ticks = f64::from(spacing) * (f64::from(range) + 2.0 * f64::from(n));
    // 1 / (1 - e^-x), exact for small x too
    let x = ticks / 4.0 * 1.0001f64.ln();
    -1.0 / (-x).exp_m1() / 1.000_015_260_691_23
}

fn close(name: &str, got: &Value, want: f64) -> Res {
    let g = got.as_f64().unwrap_or(f64::NAN);
    ensure!((g - want).abs() <= want.abs() * 1e-8, name, "{name} gives {got}, should be {want}");
    Ok(())
}

fn t09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let spacing = match src.below(3) {
        0 => *src.pick(&[1, 2, 5, 10, 30, 100]),
        _ => 1 + src.below(100) as u32,
    };
    let range = match src.below(3) {
        0 => 2,
        1 => 2 * (1 + src.below(40)) as u32,
        _ => 1 + src.below(60) as u32,
    };
    let most = (MAX_TICK as u32 / spacing).saturating_sub(range / 2).clamp(1, 1000);
    let n = src.skewed(u128::from(most)) as u32;
    let got = lib("calculateConcentration", vec![json!(spacing), json!(range), json!(n)])?;
    let Ok(got) = got else { return fail("concentration", format!("calculateConcentration({spacing}, {range}, {n}) gives {got:?}")) };
    ctx.evals += 1;
    close("calculateConcentration", &got, concentration(spacing, range, n))?;
    // the least number of further ticks at which the concentration is no more than this
    let (high, low) = (concentration(spacing, range, n), concentration(spacing, range, n + 1));
    let at = 0.02 + 0.96 * (src.below(1000) as f64 / 1000.0);
    let between = low + (high - low) * at;
    let got = lib("calculateTickDelta", vec![json!(spacing), json!(range), json!(between)])?;
    ctx.evals += 1;
    ensure!(got.as_ref().ok().and_then(|v| v.as_f64()) == Some(f64::from(n + 1)), "calculateTickDelta", "calculateTickDelta({spacing}, {range}, {between}) gives {got:?}, should be {}", n + 1);
    if src.chance(3, 4) {
        return Ok(());
    }
    let end = MAX_TICK / spacing as i32 * spacing as i32;
    let tick = match src.below(4) {
        0 => random_tick(src, 1),
        1 => *src.pick(&[-1, 1]) * (end - (src.below(400) as i32) * spacing as i32).max(0),
        2 => *src.pick(&[-1, 1]) * (end - src.below(3 * u64::from(range * spacing)) as i32).max(0),
        _ => src.below(2000) as i32 - 1000,
    };
    let got = lib("getConcentrationArray", vec![json!(spacing), json!(range), json!(tick)])?;
    ctx.evals += 1;
    let room = f64::from(end - tick.abs());
    let least = f64::from(range) / 2.0 * f64::from(spacing);
    if least > room {
        ctx.label("no room");
        ensure!(matches!(&got, Err(e) if e.contains("TickLimitReached")), "no-room", "getConcentrationArray({spacing}, {range}, {tick}) gives {got:?}");
        return Ok(());
    }
    let mut want = vec![concentration(spacing, range, 0)];
    loop {
        let c = concentration(spacing, range, want.len() as u32);
        let before = want[want.len() - 1];
        // whether a drop of one is a drop of less than one is for the client to say
        if (before - c - 1.0).abs() < 1e-6 {
            ctx.label("a drop of one");
            return Ok(());
        }
        want.push(c);
        if before - c < 1.0 {
            break;
        }
    }
    if range % 2 == 0 && want.len() == 2 && want[0] < 2.0 {
        ctx.label("one range");
    }
    let mut whole = want[want.len() - 1].ceil();
    while whole > 1.0 {
        want.push(whole);
        whole -= 1.0;
    }
    let all = want.len();
    want.truncate(((room - least) / f64::from(spacing)) as usize);
    let Some(list) = got.as_ref().ok().and_then(|v| v.as_array()) else { return fail("list", format!("getConcentrationArray gives {got:?}")) };
    ensure!(list.len() == want.len(), "getConcentrationArray", "getConcentrationArray({spacing}, {range}, {tick}) gives {} concentrations of {}", list.len(), want.len());
    for (g, w) in list.iter().zip(&want) {
        close("getConcentrationArray", g, *w)?;
    }
    ctx.nontrivial = want.len() < all && !want.is_empty();
    Ok(())
}
