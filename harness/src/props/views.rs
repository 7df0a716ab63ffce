//! Opening positions, the registry of tiers and pools, the queries, time in range.

use super::drive::{drive, run_ops_pre};
use super::ledger::{Moved, Owners};
use super::pool::expect_balances;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::refamm::{growth_inside, max_liquidity_per_tick, position_amounts, tick_price};
use crate::refmath::*;
use crate::st::{bits_to_ticks, St};
use crate::world::{short, Refusal, World};
use contracts::{FeeTier, InvariantError, LiquidityTick, Pool, PoolKey, Position, PositionTick, Tick};
use math::percentage::Percentage;
use math::token_amount::TokenAmount;
use math::{MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use num_bigint::BigInt;
use num_traits::Zero;
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            run: c15,
            quick: 50_000,
            thorough: 1_500_000,
            rule: "a case is a generated history of many openings (liquidity from one unit to the most a tick may have, price limits about the price, users short of funds, invalid ranges) between swaps; non-trivial: a position was opened in range after a swap, and one was refused",
            assumptions: &["where a number of the calculation does not fit its type any refusal is accepted"],
            exhaustive: None,
        },
        Property {
            id: "C16",
            run: c16,
            quick: 50_000,
            thorough: 1_500_000,
            rule: "a case is a generated sequence of adding and removing fee tiers and creating pools, valid and not, by anybody; non-trivial: a pool was created, a duplicate of it refused and a tier removed",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C17",
            run: c17,
            quick: 15_000,
            thorough: 450_000,
            rule: "a case is a generated history; after every third operation all queries are compared, through the interface's wire format, for random pages; non-trivial: a page that was not the whole list was compared while a user had positions in two pools",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C19",
            run: c19,
            quick: 36_000,
            thorough: 1_080_000,
            rule: "a case is a generated history with time passing between operations; non-trivial: a position was in range, left it and came back",
            assumptions: &["time does not run backwards"],
            exhaustive: None,
        },
    ]
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile {
        create_position: 40,
        swap: 16,
        remove: 8,
        wrong: 5,
        poor_users: true,
        max_liquidity_bits: 245,
        ..Default::default()
    };
    let mut h = Hist::new(src, profile, ctx);
    let (mut opened, mut refused, mut swapped) = (false, false, false);
    run_ops_pre(
        &mut h,
        src,
        ctx,
        &mut |h, op, before, src, _| {
            let Op::CreatePosition { key, lower, upper, liquidity, lo, hi, .. } = op else { return Ok(()) };
            let Some(p) = before.pool(key) else { return Ok(()) };
            if src.chance(1, 3) {
                // limits about the price
                let price = p.pool.sqrt_price.0;
                *lo = (price as i128 + src.range(-1, 1) as i128) as u128;
                *hi = (price as i128 + src.range(-1, 1) as i128) as u128;
            }
            if src.chance(1, 20) {
                // about the most one of the ticks can have
                let t = if src.bool() { *lower } else { *upper };
                let gross = p.ticks.get(&t).map_or(N::zero(), |t| nu(t.liquidity_gross.0));
                let max = max_liquidity_per_tick(key.fee_tier.tick_spacing);
                if max > &gross + n(3) {
                    *liquidity = to_u256(&(max - gross - n(src.below(3) as u128))).unwrap();
                }
                // narrow, or the amounts do not fit
                if src.bool() {
                    let s = key.fee_tier.tick_spacing as i32;
                    if *upper > *lower && *lower + s <= MAX_TICK {
                        *upper = *lower + s;
                    }
                }
            }
            if src.chance(1, 40) {
                key.fee_tier.fee.0 ^= 1;
            }
            if src.chance(1, 30) {
                let spacing = key.fee_tier.tick_spacing as i32;
                match src.below(5) {
                    0 => *upper = i32::MAX,
                    1 => *lower = i32::MIN + 1,
                    2 => *upper += if spacing > 1 { 1 } else { 1_000_000 },
                    3 => *upper = (MAX_TICK / spacing + 1) * spacing,
                    _ => *lower = -(MAX_TICK / spacing + 1) * spacing,
                }
            }
            let i = h.pools.iter().position(|k| k == key);
            if let Some(i) = i {
                h.scope.ticks.insert((i, *lower));
                h.scope.ticks.insert((i, *upper));
            }
            Ok(())
        },
        &mut |_, s, ctx| {
            swapped |= matches!((s.op, s.result), (Op::Swap { .. }, Ok(_)));
            let Op::CreatePosition { by, key, lower, upper, liquidity, lo, hi } = s.op else { return Ok(()) };
            let mut may: Vec<&str> = vec![];
            let mut other = false;
            if liquidity.is_zero() {
                may.push("ZeroLiquidity");
            }
            if lower == upper {
                may.push("InvalidTickIndex");
            }
            let spacing = key.fee_tier.tick_spacing as i32;
            let edge = MAX_TICK / spacing * spacing;
            let bad = |t: i32| t % spacing != 0 || t > edge || t < -edge;
            if bad(*lower) || bad(*upper) || lower > upper {
                other = true;
            }
            let l = nu(*liquidity);
            let pool = s.before.pool(key);
            let mut charge = (N::zero(), N::zero());
            match pool {
                None => may.push("PoolNotFound"),
                Some(p) => {
                    let price = p.pool.sqrt_price.0;
                    if price < *lo || price > *hi {
                        may.push("PriceLimitReached");
                    }
                    let max = max_liquidity_per_tick(key.fee_tier.tick_spacing);
                    for t in [lower, upper] {
                        let gross = p.ticks.get(t).map_or(N::zero(), |t| nu(t.liquidity_gross.0));
                        if gross + &l >= max {
                            other = true;
                            ctx.label("position above the limit of a tick");
                        }
                    }
                    if !other && lower < upper {
                        let (x, y, _) = position_amounts(&p.view(), *lower, *upper, &l, true).unwrap();
                        if x.bits() > 256 || y.bits() > 256 {
                            other = true;
                        }
                        if nu(s.before.balance(by, &key.token_x)) < x || nu(s.before.balance(by, &key.token_y)) < y {
                            may.extend(["FailedToChangeTokenBalance", "NoBalanceForTheToken"]);
                        }
                        charge = (x, y);
                    }
                }
            }
            match s.result {
                Err(e) => {
                    refused = true;
                    ensure!(s.before == s.after, "refused-changed", "{} was refused and changed the state", s.op.text());
                    let fine = match e.error() {
                        Some(e) => may.contains(&e) || other,
                        None => other,
                    };
                    ensure!(fine, "refused", "{} is refused with {e:?}; reasons: {may:?}", s.op.text());
                }
                Ok(Out::Position(q)) => {
                    ensure!(
                        may.is_empty() && !other,
                        "accepted",
                        "{} is accepted; reasons against it: {may:?}, {other}",
                        s.op.text()
                    );
                    let b = pool.unwrap();
                    let a = s.after.pool(key).unwrap();
                    let t = b.pool.current_tick_index;
                    let active = *lower <= t && t < *upper;
                    opened |= active && swapped;
                    expect_balances(s, *by, &[(key.token_x, -BigInt::from(charge.0)), (key.token_y, -BigInt::from(charge.1))])?;
                    let edge_of = |t: i32| (t, a.ticks[&t].fee_growth_outside_x.0, a.ticks[&t].fee_growth_outside_y.0);
                    let (gx, gy) = growth_inside(&b.view(), edge_of(*lower), edge_of(*upper));
                    let want = Position {
                        pool_key: *key,
                        liquidity: math::liquidity::Liquidity(*liquidity),
                        lower_tick_index: *lower,
                        upper_tick_index: *upper,
                        fee_growth_inside_x: math::fee_growth::FeeGrowth(gx),
                        fee_growth_inside_y: math::fee_growth::FeeGrowth(gy),
                        last_block_number: s.height as u64,
                        tokens_owed_x: TokenAmount(U256::zero()),
                        tokens_owed_y: TokenAmount(U256::zero()),
                    };
                    ensure!(*q == want, "position", "opened {q:?}, expected {want:?}");
                    ensure!(s.after.positions[by].last() == Some(&want), "listed", "the list of {} does not end with the new position", short(by));
                    // the pool: only the active liquidity
                    let mut p = b.pool.clone();
                    if active {
                        p.liquidity.0 += *liquidity;
                    }
                    p.last_timestamp = s.now;
                    ensure!(a.pool == p, "pool", "pool {:?}, expected {p:?}", a.pool);
                    // the ticks
                    let mut ticks = b.ticks.clone();
                    for (t, is_lower) in [(*lower, true), (*upper, false)] {
                        let below = t <= b.pool.current_tick_index;
                        let e = ticks.entry(t).or_insert_with(|| Tick {
                            index: t,
                            sign: true,
                            liquidity_change: math::liquidity::Liquidity(U256::zero()),
                            liquidity_gross: math::liquidity::Liquidity(U256::zero()),
                            sqrt_price: math::sqrt_price::SqrtPrice(to_u128(&tick_price(t)).unwrap()),
                            fee_growth_outside_x: if below { b.pool.fee_growth_global_x } else { math::fee_growth::FeeGrowth(0) },
                            fee_growth_outside_y: if below { b.pool.fee_growth_global_y } else { math::fee_growth::FeeGrowth(0) },
                            seconds_outside: if below { s.now - b.pool.start_timestamp } else { 0 },
                        });
                        e.liquidity_gross.0 += *liquidity;
                        let signed = |v: N, plus: bool| if plus { BigInt::from(v) } else { -BigInt::from(v) };
                        let net = signed(nu(e.liquidity_change.0), e.sign) + signed(l.clone(), is_lower);
                        e.liquidity_change.0 = to_u256(net.magnitude()).unwrap();
                        let sign = net.sign() != num_bigint::Sign::Minus;
                        // the sign of a net change of zero means nothing
                        e.sign = if net.is_zero() { a.ticks.get(&t).map_or(sign, |t| t.sign) } else { sign };
                    }
                    ensure!(a.ticks == ticks, "ticks", "ticks {:?}, expected {ticks:?}", a.ticks);
                }
                _ => unreachable!(),
            }
            ctx.nontrivial = opened && refused;
            Ok(())
        },
    )
}

/// A query through the wire format.
fn ask<R: Decode>(w: &mut World, method: &str, args: impl Encode) -> Result<R, Refusal> {
    let by = crate::world::user(77);
    w.call(by, method, args)
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = World::new(random_protocol_fee(src));
    w.now = 1_700_000_000_000;
    let tokens = token_ids(2 + src.usize(4).min(3));
    let users = [w.admin, crate::world::user(0), crate::world::user(1)];
    let mut known: Vec<FeeTier> = vec![];
    for _ in 0..1 + src.usize(4) {
        known.push(random_tier(src));
    }
    let mut tiers: Vec<FeeTier> = vec![];
    let mut pools: Vec<(PoolKey, Pool)> = vec![];
    let (mut made, mut dup, mut removed) = (false, false, false);
    // now and then tens of fee tiers, and pools of most of them
    let crowd = src.chance(1, 150);
    if crowd {
        for _ in 0..8 + src.below(30) {
            known.push(random_tier(src));
        }
    }
    let ops = if crowd { 120 } else { 4 + src.below(24) };
    for _ in 0..ops {
        w.advance(1, src.below(5000));
        let by = if src.chance(1, 8) { users[1 + src.usize(2)] } else { w.admin };
        let mut tier = *src.pick(&known);
        if src.chance(1, 8) {
            tier.tick_spacing = *src.pick(&[0, 1, 100, 101, 127, 256, u16::MAX]);
        }
        if src.chance(1, 8) {
            tier.fee.0 = *src.pick(&[0, 1, ONE_PCT - 1, ONE_PCT, ONE_PCT + 1, u128::MAX, 6_000_000_000]);
        }
        match src.weighted(&[6, 2, 12]) {
            0 => {
                let r = w.call::<FeeTier>(by, "AddFeeTier", tier);
                ctx.log(|| format!("{}: add_fee_tier({}, {}) => {r:?}", short(&by), tier.fee.0, tier.tick_spacing));
                let mut may = vec![];
                if tier.tick_spacing == 0 || tier.tick_spacing > 100 {
                    may.push("InvalidTickSpacing")
                }
                if tier.fee.0 >= ONE_PCT {
                    may.push("InvalidFee")
                }
                if by != w.admin {
                    may.push("NotAdmin")
                }
                if tiers.contains(&tier) {
                    may.push("FeeTierAlreadyExist")
                }
                expect(&r, &may, "add_fee_tier")?;
                if let Ok(t) = r {
                    ensure!(t == tier, "tier", "added {tier:?}, got {t:?}");
                    tiers.push(tier);
                    if !known.contains(&tier) {
                        known.push(tier);
                    }
                }
            }
            1 => {
                let r = w.call::<FeeTier>(by, "RemoveFeeTier", tier);
                ctx.log(|| format!("{}: remove_fee_tier({}, {}) => {r:?}", short(&by), tier.fee.0, tier.tick_spacing));
                let mut may = vec![];
                if by != w.admin {
                    may.push("NotAdmin")
                }
                if !tiers.contains(&tier) {
                    may.push("FeeTierNotFound")
                }
                expect(&r, &may, "remove_fee_tier")?;
                if r.is_ok() {
                    tiers.retain(|t| *t != tier);
                    removed = true;
                }
            }
            _ => {
                let by = *src.pick(&users);
                let a = *src.pick(&tokens);
                let b = if src.chance(1, 16) { a } else { *src.pick(&tokens) };
                let s = tier.tick_spacing.max(1);
                let near = (src.range(-5, 5) as i32) * s as i32;
                let mut tick = if src.bool() && near.abs() <= MAX_TICK - 200 { near } else { random_tick(src, s) };
                let mut price = random_price_in_tick(src, tick, s);
                match src.below(16) {
                    0 => price -= 1,
                    1 => price += 1,
                    2 => price = to_u128(&tick_price(tick.saturating_add(s as i32).min(MAX_TICK))).unwrap(),
                    3 => price = *src.pick(&[0, MIN_SQRT_PRICE, MAX_SQRT_PRICE, u128::MAX]),
                    4 => tick += 1,
                    5 => tick = *src.pick(&[MAX_TICK, -MAX_TICK, MAX_TICK + 1, -MAX_TICK - 1, i32::MAX - 200, i32::MIN + 200]),
                    6 => tick = (MAX_TICK / s as i32 + 1) * s as i32 * if src.bool() { 1 } else { -1 },
                    _ => {}
                }
                let r = w.call::<()>(by, "CreatePool", (a, b, tier, math::sqrt_price::SqrtPrice(price), tick));
                ctx.log(|| {
                    format!(
                        "{}: create_pool({}, {}, fee {} spacing {}, price {price}, tick {tick}) => {r:?}",
                        short(&by),
                        short(&a),
                        short(&b),
                        tier.fee.0,
                        tier.tick_spacing
                    )
                });
                let mut may = vec![];
                if !tiers.contains(&tier) {
                    may.push("FeeTierNotFound");
                }
                if a == b {
                    may.push("TokensAreSame");
                }
                if tier.tick_spacing > 0 {
                    let sp = tier.tick_spacing as i32;
                    let edge = MAX_TICK / sp * sp;
                    if tick % sp != 0 || tick > edge || tick < -edge {
                        may.push("InvalidInitTick");
                    } else {
                        let lo = to_u128(&tick_price(tick)).unwrap();
                        let fine = if tick == edge {
                            price == lo
                        } else {
                            price >= lo && n(price) < tick_price(tick + sp)
                        };
                        if !fine {
                            may.push("InvalidInitSqrtPrice");
                        }
                    }
                }
                let (x, y) = if a < b { (a, b) } else { (b, a) };
                let key = PoolKey { token_x: x, token_y: y, fee_tier: tier };
                if pools.iter().any(|p| p.0 == key) {
                    may.push("PoolAlreadyExist");
                    dup = true;
                }
                expect(&r, &may, "create_pool")?;
                if r.is_ok() {
                    made = true;
                    let mut p = Pool::default();
                    p.sqrt_price.0 = price;
                    p.current_tick_index = tick;
                    p.start_timestamp = w.now;
                    p.last_timestamp = w.now;
                    p.fee_receiver = w.admin;
                    pools.push((key, p));
                }
            }
        }
        // the registry as the queries show it
        let listed: Vec<FeeTier> = ask(&mut w, "GetFeeTiers", ()).unwrap();
        ensure!(listed == tiers, "tiers", "fee tiers {listed:?}, expected {tiers:?}");
        for t in &known {
            let e: bool = ask(&mut w, "FeeTierExists", *t).unwrap();
            ensure!(e == tiers.contains(t), "tier-exists", "fee_tier_exists({t:?}) is {e}");
        }
        let (keys, count): (Vec<PoolKey>, u16) = ask(&mut w, "GetPoolKeys", (u16::MAX, 0u16)).unwrap();
        let want: Vec<PoolKey> = pools.iter().map(|p| p.0).collect();
        ensure!(keys == want && count as usize == want.len(), "pool-keys", "pool keys {keys:?} ({count}), expected {want:?}");
        for (i, a) in tokens.iter().enumerate() {
            for b in &tokens[i..] {
                // in either order of the tokens
                for (a, b) in [(a, b), (b, a)] {
                    let all: Result<Vec<(FeeTier, Pool)>, InvariantError> = ask(&mut w, "GetAllPoolsForPair", (*a, *b)).unwrap();
                    if a == b {
                        ensure!(
                            all == Err(InvariantError::TokensAreSame) || tiers.is_empty(),
                            "pair-of-one",
                            "pools of a token with itself: {all:?}"
                        );
                        continue;
                    }
                    let of = |t: &FeeTier| pools.iter().find(|p| p.0 == PoolKey::new(*a, *b, *t).unwrap()).map(|p| p.1.clone());
                    let want: Vec<(FeeTier, Pool)> = tiers.iter().filter_map(|t| of(t).map(|p| (*t, p))).collect();
                    ensure!(all == Ok(want.clone()), "pair-pools", "pools of {} and {}: {all:?}, expected {want:?}", short(a), short(b));
                    for t in &known {
                        let got: Result<Pool, InvariantError> = ask(&mut w, "GetPool", (*a, *b, *t)).unwrap();
                        let want = of(t).ok_or(InvariantError::PoolNotFound);
                        ensure!(got == want, "pool", "pool of {} and {} at {t:?}: {got:?}, expected {want:?}", short(a), short(b));
                    }
                }
            }
        }
    }
    ctx.nontrivial = made && dup && removed;
    Ok(())
}

/// Refused exactly if there is a reason to, and with one of the reasons.
fn expect<T: std::fmt::Debug>(r: &Result<T, Refusal>, may: &[&str], what: &'static str) -> Res {
    match r {
        Ok(_) => ensure!(may.is_empty(), "accepted", "{what} was accepted, reasons against it: {may:?}"),
        Err(e) => ensure!(
            e.error().is_some_and(|e| may.contains(&e)),
            "refused",
            "{what} was refused with {e:?}, reasons: {may:?}"
        ),
    }
    Ok(())
}

fn page<T: Clone>(all: &[T], size: u64, offset: u64) -> Vec<T> {
    all.iter().skip(offset as usize).take(size as usize).cloned().collect()
}

fn random_page(src: &mut Src, len: u64, max: u64) -> (u64, u64) {
    let one = |src: &mut Src| match src.below(8) {
        0 => max,
        1 => max - src.below(3).min(max),
        2 => 0,
        _ => src.below(len + 3).min(max),
    };
    (one(src), one(src))
}

type Grouped = Result<(Vec<(Pool, Vec<(Position, u32)>)>, u32), InvariantError>;

fn compare_queries(h: &mut Hist, s: &St, src: &mut Src, ctx: &mut Ctx) -> Res {
    // pool keys
    let all: Vec<PoolKey> = s.pools.iter().map(|p| p.key).collect();
    let (size, offset) = random_page(src, all.len() as u64, u16::MAX as u64);
    let r: Result<(Vec<PoolKey>, u16), Refusal> = ask(&mut h.w, "GetPoolKeys", (size as u16, offset as u16));
    let want = (page(&all, size, offset), all.len() as u16);
    ensure!(r == Ok(want.clone()), "pool-keys", "get_pool_keys({size}, {offset}): {r:?}, expected {want:?}");
    ensure!(all == h.pools, "pool-keys", "pool keys {all:?}, created {:?}", h.pools);

    // the pools of a pair, in either order of its tokens
    if !all.is_empty() {
        let k = *src.pick(&all);
        let (a, b) = if src.bool() { (k.token_x, k.token_y) } else { (k.token_y, k.token_x) };
        let got: Result<Vec<(FeeTier, Pool)>, InvariantError> = ask(&mut h.w, "GetAllPoolsForPair", (a, b)).unwrap();
        let want: Vec<(FeeTier, Pool)> = s
            .tiers
            .iter()
            .filter_map(|t| s.pool(&PoolKey { fee_tier: *t, ..k }).map(|p| (*t, p.pool.clone())))
            .collect();
        ensure!(got == Ok(want.clone()), "pair-pools", "pools of {} and {}: {got:?}, expected {want:?}", short(&a), short(&b));
    }

    let users: Vec<ActorId> = h.scope.users.iter().copied().collect();
    for u in &users {
        let none = vec![];
        let list = s.positions.get(u).unwrap_or(&none);
        let wired: Vec<Position> = ask(&mut h.w, "GetAllPositions", *u).unwrap();
        ensure!(wired == *list, "all-positions", "get_all_positions({})", short(u));
        let count: u32 = ask(&mut h.w, "GetUserPositionAmount", *u).unwrap();
        ensure!(count as usize == list.len(), "position-amount", "get_user_position_amount({}) is {count}", short(u));
        // grouped pages
        let (size, offset) = random_page(src, list.len() as u64, u32::MAX as u64);
        let r: Result<Grouped, Refusal> = ask(&mut h.w, "GetPositions", (*u, size as u32, offset as u32));
        let indexed: Vec<(Position, u32)> = list.iter().enumerate().map(|(i, q)| (*q, i as u32)).collect();
        let mut groups: Vec<(Pool, Vec<(Position, u32)>)> = vec![];
        for e in page(&indexed, size, offset) {
            match groups.iter_mut().find(|g| g.1[0].0.pool_key == e.0.pool_key) {
                Some(g) => g.1.push(e),
                None => groups.push((s.pool(&e.0.pool_key).unwrap().pool.clone(), vec![e])),
            }
        }
        if groups.len() > 1 && (size as usize) < list.len() {
            ctx.nontrivial = true;
        }
        ensure!(
            r == Ok(Ok((groups.clone(), list.len() as u32))),
            "positions-page",
            "get_positions({}, {size}, {offset}) of {} positions: {r:?}, expected {groups:?}",
            short(u),
            list.len()
        );
        // single positions
        let i = src.below(list.len() as u64 + 2) as u32;
        let got: Result<Position, InvariantError> = ask(&mut h.w, "GetPosition", (*u, i)).unwrap();
        let want = list.get(i as usize).copied().ok_or(InvariantError::PositionNotFound);
        ensure!(got == want, "position", "get_position({}, {i}): {got:?}, expected {want:?}", short(u));
        let got: Result<(Position, Pool, Tick, Tick), InvariantError> =
            ask(&mut h.w, "GetPositionWithAssociates", (*u, i)).unwrap();
        let want = match list.get(i as usize) {
            None => Err(InvariantError::PositionNotFound),
            Some(q) => {
                let p = s.pool(&q.pool_key).unwrap();
                Ok((*q, p.pool.clone(), p.ticks[&q.lower_tick_index], p.ticks[&q.upper_tick_index]))
            }
        };
        ensure!(got == want, "associates", "get_position_with_associates({}, {i}): {got:?}, expected {want:?}", short(u));
        // ticks of positions
        let offset = src.below(list.len() as u64 + 2) as u32;
        let got: Vec<PositionTick> = ask(&mut h.w, "GetPositionTicks", (*u, offset)).unwrap();
        let want: Vec<PositionTick> = list
            .iter()
            .skip(offset as usize)
            .flat_map(|q| {
                let p = s.pool(&q.pool_key).unwrap();
                [PositionTick::from(&p.ticks[&q.lower_tick_index]), PositionTick::from(&p.ticks[&q.upper_tick_index])]
            })
            .collect();
        ensure!(got == want, "position-ticks", "get_position_ticks({}, {offset}): {got:?}, expected {want:?}", short(u));
        // balances
        let got: Vec<(ActorId, TokenAmount)> = ask(&mut h.w, "GetUserBalances", *u).unwrap();
        let m: BTreeMap<ActorId, U256> = got.iter().map(|(t, a)| (*t, a.0)).collect();
        let want = s.balances.get(u).cloned().unwrap_or_default();
        ensure!(
            m == want && got.len() == want.len(),
            "balances",
            "get_user_balances({}): {got:?}, expected {want:?}",
            short(u)
        );
    }
    for p in &s.pools {
        let k = p.key;
        let flip = src.bool();
        let (a, b) = if flip { (k.token_y, k.token_x) } else { (k.token_x, k.token_y) };
        let got: Result<Pool, InvariantError> = ask(&mut h.w, "GetPool", (a, b, k.fee_tier)).unwrap();
        ensure!(got == Ok(p.pool.clone()), "pool", "get_pool: {got:?}");
        let map: Vec<(u16, u64)> = ask(&mut h.w, "GetTickmap", k).unwrap();
        let bits = bits_to_ticks(&map, k.fee_tier.tick_spacing);
        ensure!(bits == p.bits && map.windows(2).all(|w| w[0].0 < w[1].0), "tickmap", "get_tickmap: {map:?}");
        let edges: std::collections::BTreeSet<i32> =
            s.positions_of_pool(&k).flat_map(|(_, _, q)| [q.lower_tick_index, q.upper_tick_index]).collect();
        ensure!(bits == edges, "tickmap", "get_tickmap has {bits:?}, the open positions end at {edges:?}");
        let count: u32 = ask(&mut h.w, "GetLiquidityTicksAmount", k).unwrap();
        ensure!(
            count as usize == edges.len(),
            "ticks-amount",
            "get_liquidity_ticks_amount is {count}, the pool has initialized ticks {edges:?}"
        );
        let mut asked: Vec<i32> = bits.iter().copied().filter(|_| src.chance(2, 3)).collect();
        if src.bool() {
            asked.reverse();
        }
        if let (true, Some(t)) = (src.chance(1, 60), asked.first().copied()) {
            // as many as one query may ask for, or one more
            let more = src.bool();
            asked = vec![t; contracts::LIQUIDITY_TICK_LIMIT + more as usize];
        }
        let got: Result<Vec<LiquidityTick>, InvariantError> = ask(&mut h.w, "GetLiquidityTicks", (k, asked.clone())).unwrap();
        let want: Result<Vec<LiquidityTick>, InvariantError> = if asked.len() > 21544 {
            Err(InvariantError::TickLimitReached)
        } else {
            Ok(asked.iter().map(|t| LiquidityTick::from(&p.ticks[t])).collect())
        };
        ensure!(got == want, "liquidity-ticks", "get_liquidity_ticks of {} ticks differs", asked.len());
        // ticks one by one
        for t in p.ticks.keys().copied().chain([random_tick(src, k.fee_tier.tick_spacing)]) {
            let got: Result<Tick, InvariantError> = ask(&mut h.w, "GetTick", (k, t)).unwrap();
            let want = p.ticks.get(&t).copied();
            match want {
                Some(w) => ensure!(got == Ok(w), "tick", "get_tick({t}): {got:?}, expected {w:?}"),
                None if !edges.contains(&t) => {
                    ensure!(got == Err(InvariantError::TickNotFound), "tick", "get_tick({t}): {got:?}")
                }
                None => return fail("tick", format!("no tick record at {t}")),
            }
            let got: bool = ask(&mut h.w, "IsTickInitialized", (k, t)).unwrap();
            ensure!(got == edges.contains(&t), "is-initialized", "is_tick_initialized({t}) is {got}");
        }
    }
    let got: Percentage = ask(&mut h.w, "GetProtocolFee", ()).unwrap();
    ensure!(got.0 == s.protocol_fee, "protocol-fee", "get_protocol_fee is {got:?}");
    ensure!(h.w.take_events().is_empty(), "query-events", "a query left events");
    ensure!(h.state() == *s, "query-changed-state", "the queries changed the state");
    Ok(())
}

/// A user with more positions than one answer about their ticks can hold.
fn many_positions(h: &mut Hist, src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(key) = h.pools.first().copied() else { return Ok(()) };
    let by = h.users[0];
    let had = h.positions_of(&by);
    let s = key.fee_tier.tick_spacing as i32;
    let count = contracts::POSITION_TICK_LIMIT as u32 / 2 + 1 + src.below(3) as u32;
    for i in 0..count {
        let lower = -s * (1 + i as i32 % 3);
        let op = Op::CreatePosition { by, key, lower, upper: s, liquidity: U256::one(), lo: MIN_SQRT_PRICE, hi: MAX_SQRT_PRICE };
        if h.apply(&op, ctx).is_err() {
            return Ok(());
        }
    }
    ctx.label("more positions than an answer holds");
    let list: Vec<Position> = h.w.program().service().get_all_positions(by);
    ensure!(list.len() as u32 == had + count, "many", "{} positions", list.len());
    let st = h.state();
    let want: Vec<PositionTick> = list
        .iter()
        .flat_map(|q| {
            let p = st.pool(&q.pool_key).unwrap();
            [PositionTick::from(&p.ticks[&q.lower_tick_index]), PositionTick::from(&p.ticks[&q.upper_tick_index])]
        })
        .collect();
    // pages cover everything, none is longer than the limit
    let mut got: Vec<PositionTick> = vec![];
    while got.len() < want.len() {
        let part: Vec<PositionTick> = ask(&mut h.w, "GetPositionTicks", (by, got.len() as u32 / 2)).unwrap();
        ensure!(
            !part.is_empty() && part.len() % 2 == 0 && part.len() <= 17872,
            "many-page",
            "a page of {} ticks of {}",
            part.len(),
            want.len()
        );
        let rest = want.len() - got.len();
        ensure!(part.len() == rest.min(17872), "many-page", "a page of {} ticks, {rest} are left", part.len());
        got.extend(part);
    }
    ensure!(got == want, "many-ticks", "the pages of position ticks differ from the positions");
    let (size, offset) = (src.below(list.len() as u64 + 10) as u32, src.below(200) as u32);
    let r: Result<Grouped, Refusal> = ask(&mut h.w, "GetPositions", (by, size, offset));
    let mut page: Vec<(Position, u32)> = r.unwrap().unwrap().0.into_iter().flat_map(|g| g.1).collect();
    page.sort_by_key(|e| e.1);
    let want_page: Vec<(Position, u32)> = list.iter().copied().enumerate().map(|(i, q)| (q, i as u32)).skip(offset as usize).take(size as usize).collect();
    ensure!(page == want_page, "many-positions", "get_positions({size}, {offset}) has {} positions, or not the right ones", page.len());
    let r: Result<Grouped, Refusal> = ask(&mut h.w, "GetPositions", (by, 5u32, list.len() as u32 - 3));
    let r = r.unwrap().unwrap();
    ensure!(
        r.0.iter().map(|g| g.1.len()).sum::<usize>() == 3 && r.1 as usize == list.len(),
        "many-positions",
        "the last page has {:?}",
        r.0.iter().map(|g| g.1.len()).collect::<Vec<_>>()
    );
    Ok(())
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { max_pools: 4, transfer: 5, initial_positions: (1, 4), ops: (3, 20), ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    let queries = src;
    let many = queries.chance(1, 1200);
    let mut at = 0;
    let (lo, hi) = h.profile.ops;
    let mut first: Vec<usize> = vec![];
    for i in 0..h.pools.len() {
        first.extend(std::iter::repeat(i).take(1 + queries.usize(4)));
    }
    let len = first.len() as u64 + lo + queries.below(hi - lo + 1);
    let mut r = Ok(());
    if queries.chance(1, 150) {
        let count = 250 + queries.below(30);
        h.crowd(queries, count, ctx);
        h.w.take_events();
        ctx.label("hundreds of positions");
    }
    if queries.chance(1, 120) {
        h.many_tiers(queries, ctx);
        h.w.take_events();
        ctx.label("tens of pools");
    }
    while at < len && r.is_ok() {
        let op = match first.get(at as usize) {
            Some(i) => h.gen_position(queries, *i),
            None => h.gen_op(queries),
        };
        let _ = h.apply(&op, ctx);
        h.w.take_events();
        at += 1;
        if at % 3 == 0 || at == len {
            let s = h.state();
            r = compare_queries(&mut h, &s, queries, ctx);
        }
    }
    if r.is_ok() && many {
        r = many_positions(&mut h, queries, ctx);
    }
    r
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 40, advance: 20, initial_positions: (2, 6), claim: 4, ..Default::default() };
    let mut owners = Owners::default();
    // by position: (pool, range, in-range time, time counted by the ticks when opened, times left, times entered)
    struct Seen {
        key: PoolKey,
        lower: i32,
        upper: i32,
        inside: u64,
        base: u64,
        was_in: bool,
        turns: u32,
    }
    let mut seen: BTreeMap<u64, Seen> = BTreeMap::new();
    let mut started: BTreeMap<usize, u64> = BTreeMap::new();
    // by tick: the time the current tick was below it, and the time it was not
    let mut sides: BTreeMap<(usize, i32), (u64, u64)> = BTreeMap::new();
    drive(src, ctx, profile, &mut |h, s, ctx| {
        let moved = owners.follow(s);
        if let Op::Advance { millis, .. } = s.op {
            for ((pool, tick), (under, over)) in sides.iter_mut() {
                let current = s.before.pools[*pool].pool.current_tick_index;
                *(if current < *tick { under } else { over }) += millis;
            }
        }
        sides.retain(|(pool, tick), _| s.after.pools[*pool].ticks.contains_key(tick));
        for (i, p) in s.after.pools.iter().enumerate() {
            let current = p.pool.current_tick_index;
            let age = h.w.now - p.pool.start_timestamp;
            for (index, tick) in &p.ticks {
                // the time before a tick was initialized counts as below it
                let (under, over) = *sides.entry((i, *index)).or_insert((age, 0));
                let outside = if current < *index { over } else { under };
                ensure!(
                    tick.seconds_outside == outside,
                    "time-beyond-tick",
                    "pool {}, tick {index}: {} ms on the other side, it was {outside}",
                    key_text(&p.key),
                    tick.seconds_outside
                );
            }
        }
        if let Moved::Closed(id) = moved {
            seen.remove(&id);
        }
        let counted = |key: &PoolKey, lower: i32, upper: i32, now: u64| -> u64 {
            let p = s.after.pool(key).unwrap();
            let total = now - p.pool.start_timestamp;
            let t = p.pool.current_tick_index;
            let (l, u) = (p.ticks[&lower].seconds_outside, p.ticks[&upper].seconds_outside);
            let below = if t >= lower { l } else { total.wrapping_sub(l) };
            let above = if t < upper { u } else { total.wrapping_sub(u) };
            total.wrapping_sub(below).wrapping_sub(above)
        };
        if let Op::Advance { millis, .. } = s.op {
            for e in seen.values_mut() {
                if e.was_in {
                    e.inside += millis;
                }
            }
        }
        let now = h.w.now;
        if let Moved::Opened(id) = moved {
            let Op::CreatePosition { key, lower, upper, .. } = s.op else { unreachable!() };
            let base = counted(key, *lower, *upper, now);
            let t = s.after.pool(key).unwrap().pool.current_tick_index;
            seen.insert(
                id,
                Seen { key: *key, lower: *lower, upper: *upper, inside: 0, base, was_in: *lower <= t && t < *upper, turns: 0 },
            );
        }
        for e in seen.values_mut() {
            let got = counted(&e.key, e.lower, e.upper, now).wrapping_sub(e.base);
            ensure!(
                got == e.inside,
                "time-in-range",
                "the ticks {}..{} count {got} ms in range since the position was opened, it was {} ms",
                e.lower,
                e.upper,
                e.inside
            );
            let t = s.after.pool(&e.key).unwrap().pool.current_tick_index;
            let is_in = e.lower <= t && t < e.upper;
            if is_in != e.was_in {
                e.turns += 1;
                ctx.nontrivial |= e.turns > 1 && e.inside > 0;
            }
            e.was_in = is_in;
        }
        for (i, p) in s.after.pools.iter().enumerate() {
            let start = *started.entry(i).or_insert(match s.op {
                Op::CreatePool { .. } => s.now,
                _ => p.pool.start_timestamp,
            });
            ensure!(
                p.pool.start_timestamp == start && start <= p.pool.last_timestamp && p.pool.last_timestamp <= now,
                "timestamps",
                "pool {}: start {} (created at {start}), last change {}, now {now}",
                key_text(&p.key),
                p.pool.start_timestamp,
                p.pool.last_timestamp
            );
            if let Some(b) = s.before.pool(&p.key) {
                ensure!(b.pool.last_timestamp <= p.pool.last_timestamp, "timestamps", "the time of the last change went back");
            }
        }
        Ok(())
    })?;
    Ok(())
}

