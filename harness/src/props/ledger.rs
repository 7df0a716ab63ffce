//! Properties of who owns what: solvency, fees, access, positions, exits.

use super::drive::{drive, run_ops, Step};
use super::pool::expect_balances;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::refamm::{growth_inside, position_amounts};
use crate::refmath::*;
use crate::st::{PoolSt, St};
use crate::world::{program_id, short, user, Refusal};
use contracts::{PoolKey, Position};
use invariant::verif_hooks;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use sails_rs::{ActorId, U256};
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            run: c01,
            quick: 25_000,
            thorough: 750_000,
            rule: "a case is a generated history of trading, liquidity, fee, deposit and withdrawal operations on generated pools, ended by everybody leaving; non-trivial: at least one swap crossed an initialized tick and two positions or more were paid out at the end",
            assumptions: &["token contracts move what they are asked to move (misbehaving ones are C12)"],
            exhaustive: None,
        },
        Property {
            id: "C08",
            run: c08,
            quick: 32_000,
            thorough: 960_000,
            rule: "a case is a generated history; non-trivial: a position was paid a fee after a swap that crossed a tick",
            assumptions: &["fee growth per unit of liquidity between two claims of a position stays below 2^128 (positions beyond that are not compared)"],
            exhaustive: None,
        },
        Property {
            id: "C09",
            run: c09,
            quick: 36_000,
            thorough: 1_080_000,
            rule: "a case is a generated history with protocol fee changes, fee receiver changes and protocol fee withdrawals; non-trivial: a withdrawal paid something",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C10",
            run: c10,
            quick: 45_000,
            thorough: 1_350_000,
            rule: "a case is a generated history in which operations come from everybody, also those not allowed to do them; non-trivial: a privileged operation was refused and another accepted",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C11",
            run: c11,
            quick: 45_000,
            thorough: 1_350_000,
            rule: "a case is a generated history of opening, transferring (also to oneself and to newcomers) and closing positions; non-trivial: a position that was not the last of its owner's list left it",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C20",
            run: c20,
            quick: 16_000,
            thorough: 480_000,
            rule: "a case is a generated history; after every operation every position is claimed and closed on a copy of the state, and every balance withdrawn; non-trivial: a position was out of range when closed and another in range",
            assumptions: &[],
            exhaustive: None,
        },
    ]
}

/// What the position could claim now, from what the queries show.
pub fn claimable(p: &PoolSt, q: &Position) -> (N, N) {
    let edge = |t: i32| {
        let r = &p.ticks[&t];
        (t, r.fee_growth_outside_x.0, r.fee_growth_outside_y.0)
    };
    let (gx, gy) = growth_inside(&p.view(), edge(q.lower_tick_index), edge(q.upper_tick_index));
    let l = nu(q.liquidity.0);
    (
        nu(q.tokens_owed_x.0) + fee_of(&n(gx.wrapping_sub(q.fee_growth_inside_x.0)), &l),
        nu(q.tokens_owed_y.0) + fee_of(&n(gy.wrapping_sub(q.fee_growth_inside_y.0)), &l),
    )
}

/// Everything the program owes, by token.
pub fn owed(s: &St) -> BTreeMap<ActorId, N> {
    let mut m: BTreeMap<ActorId, N> = BTreeMap::new();
    for b in s.balances.values() {
        for (t, a) in b {
            *m.entry(*t).or_default() += nu(*a);
        }
    }
    for p in &s.pools {
        let (mut x, mut y) = (nu(p.pool.fee_protocol_token_x.0), nu(p.pool.fee_protocol_token_y.0));
        for (_, _, q) in s.positions_of_pool(&p.key) {
            let l = nu(q.liquidity.0);
            let (px, py, _) =
                position_amounts(&p.view(), q.lower_tick_index, q.upper_tick_index, &l, false).expect("amounts");
            let (fx, fy) = claimable(p, q);
            x += px + fx;
            y += py + fy;
        }
        *m.entry(p.key.token_x).or_default() += x;
        *m.entry(p.key.token_y).or_default() += y;
    }
    m
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { deposit: 3, withdraw: 3, max_pools: 3, ..Default::default() };
    let mut crossed = false;
    let mut h = drive(src, ctx, profile, &mut |h, s, _| {
        crossed |= matches!(s.result, Ok(Out::Swap(r)) if !r.ticks.is_empty());
        for (t, debt) in owed(s.after) {
            let held = nu(h.w.held(&t, &program_id()));
            ensure!(
                debt <= held,
                "insolvent",
                "the program holds {held} of {} and owes {debt}",
                short(&t)
            );
        }
        if let Op::Withdraw { .. } = s.op {
            if let Err(Refusal::Panic(e)) = s.result {
                ensure!(
                    e.contains("FailedToChangeTokenBalance") || e.contains("NoBalanceForTheToken"),
                    "withdrawal-failed",
                    "withdrawal: {e}"
                );
            }
        }
        Ok(())
    })?;
    // everybody leaves
    let mut paid = 0;
    let users: Vec<ActorId> = h.scope.users.iter().copied().collect();
    for u in &users {
        while h.positions_of(u) > 0 {
            match h.apply(&Op::RemovePosition { by: *u, index: 0 }, ctx) {
                Ok(Out::Amounts(x, y)) => paid += (!x.is_zero() || !y.is_zero()) as u32,
                r => return fail("exit", format!("a position cannot be closed: {r:?}")),
            }
        }
    }
    for i in 0..h.pools.len() {
        let by = h.fee_receiver(i);
        let key = h.pools[i];
        if let Err(e) = h.apply(&Op::WithdrawProtocolFee { by, key }, ctx) {
            return fail("exit", format!("the protocol fee cannot be withdrawn: {e:?}"));
        }
    }
    for u in &users {
        for t in h.tokens.clone() {
            let s = h.state();
            let have = s.balance(u, &t);
            match h.apply(&Op::Withdraw { by: *u, token: t, amount: None }, ctx) {
                Ok(Out::Amount(a)) if a == have => {}
                r => return fail("exit", format!("{} cannot withdraw {have} of {}: {r:?}", short(u), short(&t))),
            }
        }
    }
    let s = h.state();
    ensure!(s.balances.is_empty() && s.positions.is_empty(), "exit", "something is left: {:?}", s.balances);
    for p in &s.pools {
        ensure!(
            p.pool.liquidity.0.is_zero() && p.bits.is_empty(),
            "exit",
            "pool {} keeps liquidity {} and ticks {:?}",
            key_text(&p.key),
            p.pool.liquidity.0,
            p.bits
        );
    }
    ctx.nontrivial = crossed && paid > 1;
    Ok(())
}

/// The list of every user's positions, by identity, kept along the history.
#[derive(Default)]
pub struct Owners {
    pub lists: BTreeMap<ActorId, Vec<u64>>,
    next: u64,
}

pub enum Moved {
    Opened(u64),
    Closed(u64),
    Claimed(u64),
    No,
}

impl Owners {
    pub fn open(&mut self, by: ActorId) -> u64 {
        self.next += 1;
        self.lists.entry(by).or_default().push(self.next);
        self.next
    }
    pub fn follow(&mut self, s: &Step) -> Moved {
        let take = |l: &mut Vec<u64>, i: u32| l.swap_remove(i as usize);
        match (s.op, s.result) {
            (Op::CreatePosition { by, .. }, Ok(_)) => Moved::Opened(self.open(*by)),
            (Op::RemovePosition { by, index }, Ok(_)) => Moved::Closed(take(self.lists.get_mut(by).unwrap(), *index)),
            (Op::TransferPosition { by, index, to }, Ok(_)) => {
                let id = take(self.lists.get_mut(by).unwrap(), *index);
                self.lists.entry(*to).or_default().push(id);
                Moved::No
            }
            (Op::ClaimFee { by, index }, Ok(_)) => Moved::Claimed(self.lists[by][*index as usize]),
            _ => Moved::No,
        }
    }
    pub fn find(&self, id: u64) -> (ActorId, usize) {
        for (u, l) in &self.lists {
            if let Some(i) = l.iter().position(|x| *x == id) {
                return (*u, i);
            }
        }
        panic!("no such position")
    }
    pub fn len(&self, u: &ActorId) -> usize {
        self.lists.get(u).map_or(0, |l| l.len())
    }
}

const FIX: usize = 200;

#[derive(Default, Clone)]
struct Earned {
    /// Bounds of the exact share, scaled by 2^200.
    lo: [N; 2],
    hi: [N; 2],
    /// Times fees came in (each may lose less than one unit of growth).
    times: [u64; 2],
    growth: [N; 2],
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 40, claim: 12, route: 0, initial_positions: (2, 6), transfer: 2, ..Default::default() };
    let mut owners = Owners::default();
    let mut earned: BTreeMap<u64, (PoolKey, i32, i32, N, Earned)> = BTreeMap::new();
    let mut crossed = false;
    drive(src, ctx, profile, &mut |_, s, ctx| {
        let moved = owners.follow(s);
        // fees of a swap go to the positions in range, by liquidity
        if let (Op::Swap { key, x_to_y, .. }, Ok(_)) = (s.op, s.result) {
            let Some(Ok(want)) = s.reference() else {
                return fail("reference", "the reference refuses a swap that succeeded");
            };
            crossed |= !want.crossed.is_empty();
            let i = if *x_to_y { 0 } else { 1 };
            for f in &want.fees {
                for (k, lower, upper, l, e) in earned.values_mut() {
                    if k == key && *lower <= f.tick && f.tick < *upper {
                        let num = (&f.to_lp * &*l) << FIX;
                        e.lo[i] += &num / &f.liquidity;
                        e.hi[i] += ceil_div(&num, &f.liquidity);
                        e.times[i] += 1;
                        e.growth[i] += growth_of(&f.to_lp, &f.liquidity).unwrap_or_else(growth_modulus) + N::one();
                    }
                }
            }
        }
        let check = |entry: &(PoolKey, i32, i32, N, Earned), paid: (N, N), ctx: &mut Ctx| -> Res {
            let (_, _, _, l, e) = entry;
            for (i, got) in [paid.0, paid.1].into_iter().enumerate() {
                if e.growth[i] >= growth_modulus() {
                    ctx.label("growth wrapped: not compared");
                    continue;
                }
                let got_fix = &got << FIX;
                ensure!(
                    got_fix <= e.hi[i],
                    "too-much",
                    "a position with liquidity {l} was paid a fee of {got} (token {i}), its share is {}",
                    &e.hi[i] >> FIX
                );
                // growth is kept with 28 decimals per unit of liquidity (5 decimals), rounded down
                let loss = ceil_div(&((n(e.times[i] as u128) * l) << FIX), &pow10(LIQ + GROWTH)) + (N::one() << FIX);
                ensure!(
                    &got_fix + loss > e.lo[i],
                    "too-little",
                    "a position with liquidity {l} was paid a fee of {got} (token {i}), its share is {} over {} swap steps",
                    &e.lo[i] >> FIX,
                    e.times[i]
                );
                if !got.is_zero() {
                    ctx.label("fee paid");
                    ctx.nontrivial |= crossed;
                }
                if e.hi[i].is_zero() {
                    ctx.label("nothing to pay");
                }
            }
            Ok(())
        };
        match moved {
            Moved::Opened(id) => {
                let Op::CreatePosition { key, lower, upper, liquidity, .. } = s.op else { unreachable!() };
                earned.insert(id, (*key, *lower, *upper, nu(*liquidity), Earned::default()));
            }
            Moved::Claimed(id) => {
                let Ok(Out::Amounts(x, y)) = s.result else { unreachable!() };
                let e = earned.get_mut(&id).unwrap();
                check(e, (nu(*x), nu(*y)), ctx)?;
                e.4 = Earned::default();
                // and it is the caller's
                let Op::ClaimFee { by, .. } = s.op else { unreachable!() };
                let key = e.0;
                expect_balances(s, *by, &[(key.token_x, BigInt::from(nu(*x))), (key.token_y, BigInt::from(nu(*y)))])?;
            }
            Moved::Closed(id) => {
                let Ok(Out::Amounts(x, y)) = s.result else { unreachable!() };
                let e = earned.remove(&id).unwrap();
                let p = s.before.pool(&e.0).unwrap();
                let (px, py, _) = position_amounts(&p.view(), e.1, e.2, &e.3, false).unwrap();
                ensure!(
                    nu(*x) >= px && nu(*y) >= py,
                    "principal",
                    "closing a position paid ({x}, {y}), its liquidity is worth ({px}, {py})"
                );
                check(&e, (nu(*x) - px, nu(*y) - py), ctx)?;
            }
            Moved::No => {}
        }
        Ok(())
    })?;
    Ok(())
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 40, route: 0, set_fee: 5, receiver: 5, withdraw_protocol: 12, ..Default::default() };
    let mut due: BTreeMap<usize, (N, N)> = BTreeMap::new();
    let mut rate: Option<u128> = None;
    let mut receivers: BTreeMap<usize, ActorId> = BTreeMap::new();
    drive(src, ctx, profile, &mut |h, s, ctx| {
        let rate = rate.get_or_insert(s.before.protocol_fee);
        if let (Op::SetProtocolFee { fee, .. }, Ok(r)) = (s.op, s.result) {
            *rate = *fee;
            ensure!(*r == Out::Pct(*fee), "rate", "change_protocol_fee({fee}) returned {r:?}");
        }
        ensure!(s.after.protocol_fee == *rate, "rate", "the protocol fee is {}, set to {rate}", s.after.protocol_fee);
        if let (Op::SetFeeReceiver { key, to, .. }, Ok(_)) = (s.op, s.result) {
            let i = h.pools.iter().position(|k| k == key).unwrap();
            receivers.insert(i, *to);
        }
        if let (Op::Swap { key, x_to_y, .. }, Ok(_)) = (s.op, s.result) {
            let Some(Ok(want)) = s.reference() else {
                return fail("reference", "the reference refuses a swap that succeeded");
            };
            let i = h.pools.iter().position(|k| k == key).unwrap();
            let e = due.entry(i).or_default();
            let mut gross = N::zero();
            for f in &want.fees {
                let fee = &f.to_lp + &f.to_protocol;
                // the share, rounded up, of the fee of every step
                let share = ceil_div(&(&fee * n(*rate)), &pow10(PCT));
                gross += fee;
                if *x_to_y {
                    e.0 += share
                } else {
                    e.1 += share
                }
            }
        }
        if let Op::WithdrawProtocolFee { by, key } = s.op {
            let i = h.pools.iter().position(|k| k == key).unwrap();
            let receiver = receivers.get(&i).copied().unwrap_or(h.w.admin);
            if *by == receiver {
                ensure!(s.result.is_ok(), "receiver-refused", "the fee receiver was refused: {:?}", s.result);
                let (x, y) = due.remove(&i).unwrap_or_default();
                ctx.nontrivial |= !x.is_zero() || !y.is_zero();
                expect_balances(s, *by, &[(key.token_x, BigInt::from(x)), (key.token_y, BigInt::from(y))])?;
            } else {
                let e = s.result.as_ref().err().and_then(|e| e.error().map(str::to_string));
                ensure!(e.as_deref() == Some("NotFeeReceiver"), "not-receiver", "withdrawal by a stranger: {:?}", s.result);
            }
        }
        for (i, k) in h.pools.iter().enumerate() {
            let p = s.after.pool(k).unwrap();
            let have = (nu(p.pool.fee_protocol_token_x.0), nu(p.pool.fee_protocol_token_y.0));
            let want = due.get(&i).cloned().unwrap_or_default();
            ensure!(have == want, "protocol-fee", "pool {} owes the protocol {have:?}, its swaps make it {want:?}", key_text(k));
            let receiver = receivers.get(&i).copied().unwrap_or(h.w.admin);
            ensure!(p.pool.fee_receiver == receiver, "receiver", "pool {}: fee receiver {}", key_text(k), short(&p.pool.fee_receiver));
        }
        Ok(())
    })?;
    Ok(())
}

fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile {
        swap: 16,
        create_position: 14,
        set_fee: 6,
        tiers: 8,
        receiver: 6,
        withdraw_protocol: 6,
        transfer: 6,
        deposit: 2,
        withdraw: 2,
        wrong: 3,
        roles: true,
        ..Default::default()
    };
    let (mut refused, mut accepted) = (false, false);
    drive(src, ctx, profile, &mut |h, s, ctx| {
        let admin = h.w.admin;
        let by = s.op.by();
        let error = s.result.as_ref().err().and_then(|e| e.error().map(str::to_string));
        let error = error.as_deref();
        // privileged operations
        let privileged = match s.op {
            Op::SetProtocolFee { .. } | Op::AddTier { .. } | Op::RemoveTier { .. } | Op::SetFeeReceiver { .. } => Some(admin),
            Op::WithdrawProtocolFee { key, .. } => Some(s.before.pool(key).unwrap().pool.fee_receiver),
            _ => None,
        };
        if let Some(who) = privileged {
            if by == Some(who) {
                ensure!(
                    error != Some("NotAdmin") && error != Some("NotFeeReceiver"),
                    "entitled-refused",
                    "{} was refused: {error:?}",
                    s.op.text()
                );
                accepted |= s.result.is_ok();
            } else {
                ensure!(s.result.is_err(), "stranger-accepted", "{} was accepted", s.op.text());
                let want = if matches!(s.op, Op::WithdrawProtocolFee { .. }) { "NotFeeReceiver" } else { "NotAdmin" };
                ensure!(error == Some(want), "stranger-error", "{}: {:?}", s.op.text(), s.result);
                refused = true;
            }
        }
        // configuration changes only by those
        let config = |s: &St| {
            (
                s.protocol_fee,
                s.tiers.clone(),
                s.pools.iter().map(|p| (p.key.token_x, p.key.token_y, p.key.fee_tier, p.pool.fee_receiver)).collect::<Vec<_>>(),
            )
        };
        let (mut a, b) = (config(s.before), config(s.after));
        if s.result.is_ok() {
            match s.op {
                Op::SetProtocolFee { fee, .. } => a.0 = *fee,
                Op::AddTier { tier, .. } => a.1.push(*tier),
                Op::RemoveTier { tier, .. } => a.1.retain(|t| t != tier),
                Op::SetFeeReceiver { key, to, .. } => {
                    for k in a.2.iter_mut() {
                        if k.0 == key.token_x && k.1 == key.token_y && k.2 == key.fee_tier {
                            k.3 = *to
                        }
                    }
                }
                Op::CreatePool { a: x, b: y, tier, .. } => {
                    let k = PoolKey::new(*x, *y, *tier).unwrap();
                    a.2.push((k.token_x, k.token_y, k.fee_tier, admin));
                }
                _ => {}
            }
        }
        ensure!(a == b, "configuration", "{}: configuration {b:?}, expected {a:?}", s.op.text());
        // nobody touches what others have
        for u in &h.scope.users {
            if Some(*u) == by {
                continue;
            }
            let empty = BTreeMap::new();
            ensure!(
                s.before.balances.get(u).unwrap_or(&empty) == s.after.balances.get(u).unwrap_or(&empty),
                "others-balance",
                "{} changed the balance of {}",
                s.op.text(),
                short(u)
            );
            let none = vec![];
            let was = s.before.positions.get(u).unwrap_or(&none);
            let is = s.after.positions.get(u).unwrap_or(&none);
            match s.op {
                Op::TransferPosition { to, by, index } if to == u && s.result.is_ok() => {
                    ensure!(
                        is.len() == was.len() + 1
                            && is[..was.len()] == was[..]
                            && Some(&is[was.len()]) == s.before.positions.get(by).and_then(|l| l.get(*index as usize)),
                        "received",
                        "{}: the receiver has {is:?}, had {was:?}",
                        s.op.text()
                    )
                }
                _ => ensure!(is == was, "others-positions", "{} changed the positions of {}", s.op.text(), short(u)),
            }
        }
        ctx.nontrivial = refused && accepted;
        Ok(())
    })?;
    Ok(())
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { create_position: 24, remove: 16, transfer: 20, swap: 8, claim: 6, wrong: 3, initial_positions: (2, 6), ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    // newcomers
    let more = 1 + src.usize(3);
    for i in 0..more {
        let u = user(20 + i as u8);
        h.users.push(u);
        h.scope.users.insert(u);
        if src.bool() {
            for t in h.tokens.clone() {
                h.w.deposit(u, t, U256::one() << 230).expect("deposit");
            }
        }
    }
    let mut owners = Owners::default();
    let mut known: BTreeMap<u64, (PoolKey, i32, i32, U256, u64)> = BTreeMap::new();
    // more positions than fit a byte
    if src.chance(1, 150) {
        let count = 250 + src.below(30);
        for op in h.crowd(src, count, ctx) {
            let Op::CreatePosition { by, key, lower, upper, liquidity, .. } = op else { unreachable!() };
            known.insert(owners.open(by), (key, lower, upper, liquidity, h.w.height as u64));
        }
        h.w.take_events();
        ctx.label("hundreds of positions");
    }
    run_ops(&mut h, src, ctx, &mut |h, s, ctx| {
        let inner = |by: &ActorId, index: u32| (index as usize) + 1 < owners.len(by);
        match s.op {
            Op::RemovePosition { by, index } | Op::TransferPosition { by, index, .. } | Op::ClaimFee { by, index } => {
                let valid = (*index as usize) < owners.len(by);
                if valid {
                    ctx.nontrivial |= inner(by, *index) && !matches!(s.op, Op::ClaimFee { .. });
                    ensure!(s.result.is_ok(), "valid-refused", "{}: {:?}", s.op.text(), s.result);
                } else {
                    let e = s.result.as_ref().err().and_then(|e| e.error().map(str::to_string));
                    ensure!(e.as_deref() == Some("PositionNotFound"), "no-position", "{}: {:?}", s.op.text(), s.result);
                }
            }
            _ => {}
        }
        if let Moved::Opened(id) = owners.follow(s) {
            let Op::CreatePosition { key, lower, upper, liquidity, .. } = s.op else { unreachable!() };
            known.insert(id, (*key, *lower, *upper, *liquidity, s.height as u64));
        }
        let none = vec![];
        let svc = h.w.program().service();
        for u in &h.scope.users {
            let have = s.after.positions.get(u).unwrap_or(&none);
            let empty = vec![];
            let ids = owners.lists.get(u).unwrap_or(&empty);
            ensure!(
                have.len() == ids.len() && svc.get_user_position_amount(*u) as usize == ids.len(),
                "count",
                "{} has {} positions, should have {}",
                short(u),
                have.len(),
                ids.len()
            );
            for (i, (q, id)) in have.iter().zip(ids).enumerate() {
                let k = &known[id];
                ensure!(
                    (q.pool_key, q.lower_tick_index, q.upper_tick_index, q.liquidity.0, q.last_block_number) == *k,
                    "list",
                    "{} position {i}: {q:?}, should be {k:?}",
                    short(u)
                );
                ensure!(
                    svc.get_position(*u, i as u32).as_ref() == Ok(q),
                    "get-position",
                    "{} position {i}: get_position and get_all_positions differ",
                    short(u)
                );
            }
            ensure!(svc.get_position(*u, ids.len() as u32).is_err(), "past-the-end", "a position past the end of {}", short(u));
        }
        // only a transfer, opening or closing changes the lists; a transfer changes nothing else
        if let (Op::TransferPosition { by, index, to }, Ok(_)) = (s.op, s.result) {
            let moved = &s.before.positions[by][*index as usize];
            let got = s.after.positions[to].last().unwrap();
            ensure!(moved == got, "transfer", "the transfer changed the position: {moved:?} -> {got:?}");
            ensure!(
                s.before.pools == s.after.pools && s.before.balances == s.after.balances,
                "transfer",
                "the transfer changed pools or balances"
            );
        }
        Ok(())
    })
}

fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 30, claim: 3, remove: 4, ops: (3, 16), ..Default::default() };
    let (mut inside, mut outside) = (false, false);
    drive(src, ctx, profile, &mut |h, s, ctx| {
        let keep = verif_hooks::snapshot();
        let events = h.w.events.clone();
        for (u, list) in &s.after.positions {
            for (i, q) in list.iter().enumerate() {
                let p = s.after.pool(&q.pool_key).unwrap();
                let t = p.pool.current_tick_index;
                if q.lower_tick_index <= t && t < q.upper_tick_index {
                    inside = true
                } else {
                    outside = true
                }
                let (fx, fy) = claimable(p, q);
                let (px, py, _) = position_amounts(&p.view(), q.lower_tick_index, q.upper_tick_index, &nu(q.liquidity.0), false).unwrap();
                let claim = h.apply(&Op::ClaimFee { by: *u, index: i as u32 }, ctx);
                match claim {
                    Ok(Out::Amounts(x, y)) => ensure!(
                        (nu(x), nu(y)) == (fx.clone(), fy.clone()),
                        "claim-amount",
                        "claim_fee paid ({x}, {y}), ({fx}, {fy}) had accrued"
                    ),
                    r => return fail("claim-refused", format!("{} cannot claim position {i}: {r:?}", short(u))),
                }
                // what was claimed is not paid again
                match h.apply(&Op::RemovePosition { by: *u, index: i as u32 }, ctx) {
                    Ok(Out::Amounts(x, y)) => ensure!(
                        (nu(x), nu(y)) == (px.clone(), py.clone()),
                        "close-after-claim",
                        "closing paid ({x}, {y}), the liquidity is worth ({px}, {py})"
                    ),
                    r => return fail("close-refused", format!("{} cannot close position {i} after a claim: {r:?}", short(u))),
                }
                verif_hooks::restore(&keep);
                match h.apply(&Op::RemovePosition { by: *u, index: i as u32 }, ctx) {
                    Ok(Out::Amounts(x, y)) => ensure!(
                        (nu(x), nu(y)) == (&px + &fx, &py + &fy),
                        "close-amount",
                        "closing paid ({x}, {y}), the liquidity is worth ({px}, {py}) and the fees ({fx}, {fy})"
                    ),
                    r => return fail("close-refused", format!("{} cannot close position {i}: {r:?}", short(u))),
                }
                let end = h.state();
                let gained = (
                    BigInt::from(nu(end.balance(u, &q.pool_key.token_x))) - BigInt::from(nu(s.after.balance(u, &q.pool_key.token_x))),
                    BigInt::from(nu(end.balance(u, &q.pool_key.token_y))) - BigInt::from(nu(s.after.balance(u, &q.pool_key.token_y))),
                );
                ensure!(
                    gained == (BigInt::from(&px + &fx), BigInt::from(&py + &fy)),
                    "close-credit",
                    "closing credited {gained:?}, the position is worth ({px}+{fx}, {py}+{fy})"
                );
                verif_hooks::restore(&keep);
            }
        }
        h.w.events = events;
        ctx.nontrivial = inside && outside;
        Ok(())
    })?;
    Ok(())
}
