//! Properties of pools: active liquidity, ticks, prices, swaps.

use super::drive::{drive, Step};
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::refamm::{tick_of_price, tick_price};
use crate::refmath::*;
use crate::st::{PoolSt, St};
use math::{MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use num_bigint::BigInt;
use num_traits::Zero;
use sails_rs::ActorId;
use std::collections::{BTreeMap, BTreeSet};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C02",
            run: c02,
            quick: 45_000,
            thorough: 1_350_000,
            rule: "a case is a generated history of operations on generated pools (1-2 pools, 1-3 users, random tier, start tick, tick grid and liquidity scale); non-trivial: at least one swap crossed an initialized tick",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C03",
            run: c03,
            quick: 40_000,
            thorough: 1_200_000,
            rule: "as for C02, more positions opened and closed; non-trivial: two open positions shared a tick and a position was removed",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C04",
            run: c04,
            quick: 40_000,
            thorough: 1_200_000,
            rule: "as for C02; non-trivial: a swap changed the current tick",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C05",
            run: c05,
            quick: 40_000,
            thorough: 1_200_000,
            rule: "as for C02; non-trivial: a swap of at least two steps succeeded",
            assumptions: &[],
            exhaustive: None,
        },
    ]
}

fn crossed(s: &Step) -> bool {
    matches!(s.result, Ok(Out::Swap(r)) if !r.ticks.is_empty())
}

pub fn expected_liquidity(s: &St, p: &PoolSt) -> N {
    let t = p.pool.current_tick_index;
    s.positions_of_pool(&p.key)
        .filter(|(_, _, q)| q.lower_tick_index <= t && t < q.upper_tick_index)
        .map(|(_, _, q)| nu(q.liquidity.0))
        .sum()
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    drive(src, ctx, Profile::default(), &mut |_, s, ctx| {
        ctx.nontrivial |= crossed(s);
        for p in &s.after.pools {
            let next = p.pool.current_tick_index + p.key.fee_tier.tick_spacing as i32;
            if next <= MAX_TICK && tick_price(next) == n(p.pool.sqrt_price.0) {
                ctx.label("price at the end of its tick");
            }
            let want = expected_liquidity(s.after, p);
            ensure!(
                nu(p.pool.liquidity.0) == want,
                "active-liquidity",
                "pool {} has active liquidity {} at tick {}, its positions in range have {want}",
                key_text(&p.key),
                p.pool.liquidity.0,
                p.pool.current_tick_index
            );
        }
        Ok(())
    })?;
    Ok(())
}

/// Gross and net liquidity of every tick by the open positions.
pub fn expected_ticks(s: &St, p: &PoolSt) -> BTreeMap<i32, (N, BigInt)> {
    let mut m: BTreeMap<i32, (N, BigInt)> = BTreeMap::new();
    for (_, _, q) in s.positions_of_pool(&p.key) {
        let l = nu(q.liquidity.0);
        for (t, up) in [(q.lower_tick_index, true), (q.upper_tick_index, false)] {
            let e = m.entry(t).or_default();
            e.0 += &l;
            if up {
                e.1 += BigInt::from(l.clone());
            } else {
                e.1 -= BigInt::from(l.clone());
            }
        }
    }
    m
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { create_position: 20, remove: 14, swap: 20, max_pools: 3, ..Default::default() };
    let (mut shared, mut removed) = (false, false);
    drive(src, ctx, profile, &mut |h, s, ctx| {
        if let (Op::RemovePosition { .. }, Ok(_)) = (s.op, s.result) {
            removed |= shared;
        }
        for (i, p) in s.after.pools.iter().enumerate() {
            let want = expected_ticks(s.after, p);
            let want_bits: BTreeSet<i32> = want.keys().copied().collect();
            let have: BTreeSet<i32> = p.ticks.keys().copied().collect();
            ensure!(
                p.bits == want_bits,
                "initialized-ticks",
                "pool {}: the tickmap has {:?}, the open positions end at {want_bits:?}",
                key_text(&p.key),
                p.bits
            );
            ensure!(
                have == want_bits,
                "tick-records",
                "pool {}: tick records {have:?}, the open positions end at {want_bits:?}",
                key_text(&p.key)
            );
            for (t, (gross, net)) in &want {
                let r = &p.ticks[t];
                let change = BigInt::from(nu(r.liquidity_change.0));
                let change = if r.sign { change } else { -change };
                ensure!(
                    r.index == *t && nu(r.liquidity_gross.0) == *gross && change == *net,
                    "tick-liquidity",
                    "pool {} tick {t}: {r:?}, the positions give gross {gross}, net {net}",
                    key_text(&p.key)
                );
            }
            // the view agrees, also on ticks without a position
            let svc = h.w.program().service();
            for (_, t) in h.scope.ticks.range((i, i32::MIN)..=(i, i32::MAX)) {
                if *t % p.key.fee_tier.tick_spacing as i32 == 0 && t.abs() <= MAX_TICK {
                    ensure!(
                        svc.is_tick_initialized(p.key, *t) == want_bits.contains(t),
                        "is-tick-initialized",
                        "pool {} tick {t}: is_tick_initialized is wrong",
                        key_text(&p.key)
                    );
                }
            }
            shared |= s.after.positions_of_pool(&p.key).count() * 2 > want.len();
            ctx.nontrivial |= removed;
        }
        Ok(())
    })?;
    Ok(())
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    drive(src, ctx, Profile::default(), &mut |_, s, ctx| {
        for p in &s.after.pools {
            let sp = p.key.fee_tier.tick_spacing as i32;
            let (price, tick) = (p.pool.sqrt_price.0, p.pool.current_tick_index);
            ensure!(
                tick % sp == 0 && tick.abs() <= MAX_TICK,
                "tick-aligned",
                "pool {}: current tick {tick}, spacing {sp}",
                key_text(&p.key)
            );
            ensure!(
                (MIN_SQRT_PRICE..=MAX_SQRT_PRICE).contains(&price),
                "price-bounds",
                "pool {}: sqrt price {price}",
                key_text(&p.key)
            );
            let above = tick + sp > MAX_TICK || n(price) <= tick_price(tick + sp);
            ensure!(
                tick_price(tick) <= n(price) && above,
                "price-in-tick",
                "pool {}: sqrt price {price} is outside of the current tick {tick} ({} .. {})",
                key_text(&p.key),
                tick_price(tick),
                if tick + sp <= MAX_TICK { tick_price(tick + sp).to_string() } else { "max".into() }
            );
            let Some(b) = s.before.pool(&p.key) else {
                continue;
            };
            let (was, old) = (b.pool.sqrt_price.0, b.pool.current_tick_index);
            ctx.nontrivial |= old != tick;
            match (s.op, s.result) {
                (Op::Swap { key, x_to_y, limit, .. }, Ok(_)) if *key == p.key => {
                    let fine = if *x_to_y {
                        *limit <= price && price <= was && tick <= old
                    } else {
                        was <= price && price <= *limit && old <= tick
                    };
                    ensure!(
                        fine,
                        "direction",
                        "pool {}: a swap (x to y: {x_to_y}) moved the price from {was} (tick {old}) to {price} (tick {tick}), limit {limit}",
                        key_text(&p.key)
                    );
                    // strictly inside a tick unless the price fell onto its upper end
                    if !x_to_y {
                        ensure!(
                            tick == tick_of_price(&n(price), sp),
                            "tick-after-rise",
                            "pool {}: price {price} after a rise, tick {tick}",
                            key_text(&p.key)
                        );
                    }
                }
                (Op::SwapRoute { .. }, _) => {}
                _ => ensure!(
                    was == price && old == tick,
                    "moved",
                    "pool {}: price {was} -> {price}, tick {old} -> {tick} without a swap",
                    key_text(&p.key)
                ),
            }
        }
        Ok(())
    })?;
    Ok(())
}

/// The balances after an operation that moves only these amounts of one user.
pub fn expect_balances(s: &Step, who: ActorId, changes: &[(ActorId, BigInt)]) -> Res {
    let mut want = s.before.balances.clone();
    for (token, d) in changes {
        let e = want.entry(who).or_default().entry(*token).or_default();
        let v = BigInt::from(nu(*e)) + d;
        let Some(u) = v.to_biguint().and_then(|v| to_u256(&v)) else {
            return fail("balance", format!("the operation moves {d} of {}, the balance was {e}", crate::world::short(token)));
        };
        *e = u;
    }
    for b in want.values_mut() {
        b.retain(|_, v| !v.is_zero());
    }
    want.retain(|_, b| !b.is_empty());
    ensure!(want == s.after.balances, "balance", "balances: expected {want:?}, found {:?}", s.after.balances);
    Ok(())
}

fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 60, ..Default::default() };
    drive(src, ctx, profile, &mut |_, s, ctx| {
        let Op::Swap { by, key, x_to_y, limit, .. } = s.op else { return Ok(()) };
        let Ok(Out::Swap(r)) = s.result else { return Ok(()) };
        let want = match s.reference().expect("swap") {
            Ok(w) => w,
            Err(e) => return fail("succeeds", format!("the swap succeeded, the reference says {e:?}")),
        };
        if want.steps > 1 {
            ctx.nontrivial = true;
        }
        if !want.leftover.is_zero() {
            ctx.label("swap with a leftover");
        }
        let p = s.after.pool(key).expect("pool");
        let got = (
            nu(r.amount_in.0),
            nu(r.amount_out.0),
            nu(r.fee.0),
            n(p.pool.sqrt_price.0),
            p.pool.current_tick_index,
            nu(p.pool.liquidity.0),
        );
        let exp = (
            want.amount_in.clone(),
            want.amount_out.clone(),
            want.fee.clone(),
            want.price.clone(),
            want.tick,
            want.liquidity.clone(),
        );
        ensure!(
            got == exp,
            "swap-result",
            "(in, out, fee, price, tick, liquidity) are {got:?}, the reference says {exp:?} (limit {limit}, {} steps)",
            want.steps
        );
        let growth = (p.pool.fee_growth_global_x.0, p.pool.fee_growth_global_y.0);
        ensure!(
            growth == (want.gx, want.gy),
            "fee-growth",
            "fee growth {growth:?}, the reference says {:?}",
            (want.gx, want.gy)
        );
        ensure!(
            r.start_sqrt_price == s.before.pool(key).unwrap().pool.sqrt_price && r.target_sqrt_price == p.pool.sqrt_price,
            "reported-prices",
            "reported prices {:?} -> {:?}",
            r.start_sqrt_price,
            r.target_sqrt_price
        );
        // ticks: exactly the crossed ones change
        let mut ticks = s.before.pool(key).unwrap().ticks.clone();
        for (t, fx, fy, seconds) in &want.crossed {
            let e = ticks.get_mut(t).unwrap();
            e.fee_growth_outside_x.0 = *fx;
            e.fee_growth_outside_y.0 = *fy;
            e.seconds_outside = *seconds;
        }
        ensure!(p.ticks == ticks, "crossed-ticks", "ticks {:?}, the reference says {ticks:?}", p.ticks);
        // settlement
        let (tin, tout) = if *x_to_y { (key.token_x, key.token_y) } else { (key.token_y, key.token_x) };
        expect_balances(s, *by, &[(tin, -BigInt::from(want.amount_in)), (tout, BigInt::from(want.amount_out))])
    })?;
    Ok(())
}

