//! Properties of swaps seen from outside: quotes, routes, events, isolation, availability.

use super::drive::run_ops_pre;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::refamm::No;
use crate::refmath::*;
use crate::st::St;
use crate::world::{short, Refusal};
use contracts::{InvariantError, PoolKey};
use invariant::verif_hooks;
use io::{CalculateSwapResult, InvariantEvent, QuoteResult, SwapHop};
use math::liquidity::Liquidity;
use math::sqrt_price::SqrtPrice;
use math::token_amount::TokenAmount;
use math::{MAX_SQRT_PRICE, MIN_SQRT_PRICE};
use num_bigint::BigInt;
use num_traits::Zero;
use sails_rs::{ActorId, U256};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            run: c06,
            quick: 18_000,
            thorough: 540_000,
            rule: "a case is a generated history; every swap and route in it is quoted first on the same state; non-trivial: a quoted swap succeeded after crossing a tick, or a quoted route of two hops or more succeeded",
            assumptions: &["a route's quote is compared for routes that use no pool twice (the quote does not apply earlier hops)"],
            exhaustive: None,
        },
        Property {
            id: "C07",
            run: c07,
            quick: 40_000,
            thorough: 1_200_000,
            rule: "a case is a pool with positions of others in which one trader swaps, opens and closes positions of its own (half of the pools free of fees), each time trading back what it lost on a copy of the state; non-trivial: a trade back after swaps that crossed a tick succeeded",
            assumptions: &["one pool; nobody else acts meanwhile"],
            exhaustive: None,
        },
        Property {
            id: "C14",
            run: c14,
            quick: 16_000,
            thorough: 480_000,
            rule: "a case is a generated history with many routes of 1-5 hops, each also done hop by hop on a copy of the state, with a minimum set next to the actual result; non-trivial: a route of two hops or more was done and another refused for its minimum",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C18",
            run: c18,
            quick: 28_000,
            thorough: 840_000,
            rule: "a case is a generated history of all operations, also refused ones; non-trivial: a swap crossed two ticks or more, or a route was done",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C21",
            run: c21,
            quick: 24_000,
            thorough: 720_000,
            rule: "a case is a generated history on several pools that share tokens and fee tiers; non-trivial: three pools or more existed and two of them were traded in",
            assumptions: &[],
            exhaustive: None,
        },
        Property {
            id: "C22",
            run: c22,
            quick: 22_000,
            thorough: 660_000,
            rule: "a case is a generated history, half of them with users short of funds; non-trivial: a swap was accepted after crossing a tick and another refused",
            assumptions: &["where a number of the calculation does not fit its type any refusal is accepted"],
            exhaustive: None,
        },
    ]
}

fn error_of(r: &Refusal) -> Option<&str> {
    r.error()
}

fn name(e: &InvariantError) -> String {
    format!("{e:?}")
}

fn balance_error(e: Option<&str>) -> bool {
    matches!(e, Some("FailedToChangeTokenBalance" | "NoBalanceForTheToken"))
}

type Quoted = Result<Result<QuoteResult, InvariantError>, Refusal>;

fn quote(h: &mut Hist, by: ActorId, key: PoolKey, x_to_y: bool, amount: U256, exact_in: bool, limit: u128) -> Quoted {
    h.w.call(by, "Quote", (key, x_to_y, TokenAmount(amount), exact_in, SqrtPrice(limit)))
}

fn quote_route(h: &mut Hist, by: ActorId, amount: U256, hops: &[(PoolKey, bool)]) -> Result<Result<TokenAmount, InvariantError>, Refusal> {
    let hops: Vec<SwapHop> = hops.iter().map(|(pool_key, x_to_y)| SwapHop { pool_key: *pool_key, x_to_y: *x_to_y }).collect();
    h.w.call(by, "QuoteRoute", (TokenAmount(amount), hops))
}

/// Not a pool of the history.
fn strange_key(h: &Hist, key: &PoolKey) -> PoolKey {
    let mut k = *key;
    k.fee_tier.fee.0 ^= 1;
    if h.pools.contains(&k) {
        k.fee_tier.fee.0 ^= 2;
    }
    k
}

fn distinct(hops: &[(PoolKey, bool)]) -> bool {
    hops.iter().enumerate().all(|(i, a)| hops[..i].iter().all(|b| a.0 != b.0))
}

fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 40, route: 14, max_pools: 4, min_tokens: 3, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    let quoted: std::cell::RefCell<Option<Quoted>> = Default::default();
    let routed: std::cell::RefCell<Option<Result<Result<TokenAmount, InvariantError>, Refusal>>> = Default::default();
    run_ops_pre(
        &mut h,
        src,
        ctx,
        &mut |h, op, before, src, ctx| {
            *quoted.borrow_mut() = None;
            *routed.borrow_mut() = None;
            match op {
                Op::Swap { by, key, x_to_y, amount, exact_in, limit } => {
                    if src.chance(1, 40) {
                        *key = strange_key(h, key);
                    }
                    if src.chance(1, 40) {
                        *amount = U256::zero();
                    }
                    *quoted.borrow_mut() = Some(quote(h, *by, *key, *x_to_y, *amount, *exact_in, *limit));
                }
                Op::SwapRoute { by, amount, hops, .. } => {
                    if src.chance(1, 20) {
                        hops.clear();
                    } else if src.chance(1, 2) {
                        // every pool once
                        let mut seen = vec![];
                        hops.retain(|h| {
                            let new = !seen.contains(&h.0);
                            seen.push(h.0);
                            new
                        });
                    }
                    *routed.borrow_mut() = Some(quote_route(h, *by, *amount, hops));
                }
                _ => return Ok(()),
            }
            ctx.label("quotes");
            ensure!(h.w.take_events().is_empty(), "quote-events", "a quote left events");
            ensure!(h.state() == *before, "quote-changed-state", "the quote for {} changed the state", op.text());
            Ok(())
        },
        &mut |_, s, ctx| {
            match (s.op, quoted.borrow_mut().take()) {
                (Op::Swap { by, key, x_to_y, .. }, Some(q)) => {
                    let tin = if *x_to_y { key.token_x } else { key.token_y };
                    match (s.result, &q) {
                        (Ok(Out::Swap(r)), Ok(Ok(q))) => {
                            ctx.nontrivial |= !r.ticks.is_empty();
                            let got = (q.amount_in, q.amount_out, q.target_sqrt_price, &q.ticks);
                            let did = (r.amount_in, r.amount_out, r.target_sqrt_price, &r.ticks);
                            ensure!(got == did, "quote-differs", "quoted {got:?}, the swap did {did:?}");
                            let pay = nu(s.before.balance(by, &tin)) - nu(s.after.balance(by, &tin));
                            ensure!(pay == nu(q.amount_in.0), "quote-payment", "quoted {} in, paid {pay}", q.amount_in.0);
                            ensure!(
                                s.after.pool(key).unwrap().pool.sqrt_price == q.target_sqrt_price,
                                "quote-price",
                                "quoted price {:?}",
                                q.target_sqrt_price
                            );
                        }
                        (Err(e), Ok(Ok(q))) => {
                            ensure!(
                                balance_error(error_of(e)) && s.before.balance(by, &tin) < q.amount_in.0,
                                "swap-refused",
                                "the quote gives {} for {}, the swap is refused: {e:?}",
                                q.amount_out.0,
                                q.amount_in.0
                            );
                        }
                        (Err(e), Ok(Err(q))) => {
                            ensure!(error_of(e) == Some(name(q).as_str()), "error-differs", "quote: {q:?}, swap: {e:?}")
                        }
                        (Err(Refusal::Panic(e)), Err(Refusal::Panic(q))) => {
                            ensure!(!e.starts_with("InvariantError"), "error-differs", "quote panics: {q}, swap: {e}")
                        }
                        (r, q) => return fail("quote-differs", format!("quote: {q:?}, swap: {r:?}")),
                    }
                }
                (Op::SwapRoute { by, hops, .. }, _) if distinct(hops) => {
                    let q = routed.borrow_mut().take().unwrap();
                    match (s.result, &q) {
                        (Ok(Out::Amount(a)), Ok(Ok(q))) => {
                            ctx.nontrivial |= hops.len() > 1;
                            ensure!(*a == q.0, "route-quote-differs", "route quoted {}, gave {a}", q.0)
                        }
                        (Err(e), Ok(Ok(q))) => ensure!(
                            balance_error(error_of(e)),
                            "route-refused",
                            "the route's quote gives {}, the route is refused: {e:?} ({})",
                            q.0,
                            short(by)
                        ),
                        // a hop before the refused one may be refused for the payer's balance
                        (Err(e), Ok(Err(q))) => ensure!(
                            error_of(e) == Some(name(q).as_str()) || balance_error(error_of(e)),
                            "route-error-differs",
                            "route quote: {q:?}, route: {e:?}"
                        ),
                        (Err(Refusal::Panic(e)), Err(Refusal::Panic(q))) => ensure!(
                            !e.starts_with("InvariantError") || balance_error(e.strip_prefix("InvariantError: ")),
                            "route-error-differs",
                            "route quote panics: {q}, route: {e}"
                        ),
                        (r, q) => return fail("route-quote-differs", format!("route quote: {q:?}, route: {r:?}")),
                    }
                }
                _ => {}
            }
            Ok(())
        },
    )
}

fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { max_pools: 1, free_tiers: true, initial_positions: (1, 6), ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    if h.pools.is_empty() {
        return Ok(());
    }
    let key = h.pools[0];
    h.initial_positions(src, ctx);
    // others trade first
    for _ in 0..src.below(5) {
        let op = h.gen_swap(src, 0);
        let _ = h.apply(&op, ctx);
    }
    let trader = crate::world::user(30);
    h.scope.users.insert(trader);
    for t in [key.token_x, key.token_y] {
        h.w.deposit(trader, t, U256::one() << 240).expect("deposit");
    }
    let start = h.state();
    let had = (BigInt::from(nu(start.balance(&trader, &key.token_x))), BigInt::from(nu(start.balance(&trader, &key.token_y))));
    let others = |s: &St| {
        let mut s = (s.positions.clone(), s.balances.clone());
        s.0.remove(&trader);
        s.1.remove(&trader);
        s
    };
    let steps = 1 + src.below(12);
    for _ in 0..steps {
        let op = match src.below(8) {
            0 | 1 => match h.gen_position(src, 0) {
                Op::CreatePosition { key, lower, upper, liquidity, lo, hi, .. } => {
                    Op::CreatePosition { by: trader, key, lower, upper, liquidity, lo, hi }
                }
                _ => unreachable!(),
            },
            2 => {
                let n = h.positions_of(&trader).max(1);
                let index = src.below(n as u64) as u32;
                if src.bool() {
                    Op::RemovePosition { by: trader, index }
                } else {
                    Op::ClaimFee { by: trader, index }
                }
            }
            3 if src.bool() => Op::Advance { blocks: 1, millis: 1000 },
            _ => match h.gen_swap(src, 0) {
                Op::Swap { key, x_to_y, amount, exact_in, limit, .. } => {
                    Op::Swap { by: trader, key, x_to_y, amount, exact_in, limit }
                }
                _ => unreachable!(),
            },
        };
        let mut crossed = false;
        if let Ok(Out::Swap(r)) = h.apply(&op, ctx) {
            crossed = !r.ticks.is_empty();
        }
        // on a copy: leave with everything, then trade back what was lost
        let keep = verif_hooks::snapshot();
        while h.positions_of(&trader) > 0 {
            if let Err(e) = h.apply(&Op::RemovePosition { by: trader, index: 0 }, ctx) {
                return fail("exit", format!("the trader cannot close a position: {e:?}"));
            }
        }
        let gain = |h: &Hist| {
            let s = h.state();
            (
                BigInt::from(nu(s.balance(&trader, &key.token_x))) - &had.0,
                BigInt::from(nu(s.balance(&trader, &key.token_y))) - &had.1,
            )
        };
        let check = |g: &(BigInt, BigInt), how: &str| -> Res {
            let zero = BigInt::zero();
            ensure!(
                !(g.0 >= zero && g.1 >= zero && (g.0 > zero || g.1 > zero)),
                "free-profit",
                "the trader has {} more of x and {} more of y than at the start {how}",
                g.0,
                g.1
            );
            Ok(())
        };
        let g = gain(&h);
        check(&g, "after closing its positions")?;
        let lost = if g.0 < BigInt::zero() && g.1 > BigInt::zero() {
            Some((false, -g.0.clone()))
        } else if g.1 < BigInt::zero() && g.0 > BigInt::zero() {
            Some((true, -g.1.clone()))
        } else {
            None
        };
        if let Some((x_to_y, amount)) = lost {
            if let Some(amount) = amount.to_biguint().and_then(|a| to_u256(&a)) {
                let limit = if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
                // exactly what was lost, then everything that was gained
                let gained = if x_to_y { g.0.clone() } else { g.1.clone() };
                let one = verif_hooks::snapshot();
                let back = h.apply(&Op::Swap { by: trader, key, x_to_y, amount, exact_in: false, limit }, ctx);
                if back.is_ok() {
                    ctx.nontrivial |= crossed;
                    ctx.label("traded back");
                    check(&gain(&h), "after trading back what it lost")?;
                }
                verif_hooks::restore(&one);
                if let Some(amount) = gained.to_biguint().and_then(|a| to_u256(&a)) {
                    if h.apply(&Op::Swap { by: trader, key, x_to_y, amount, exact_in: true, limit }, ctx).is_ok() {
                        ctx.label("traded back");
                        check(&gain(&h), "after trading back what it gained")?;
                    }
                }
            }
        }
        ensure!(others(&h.state()) == others(&start), "others", "the trader changed what others have");
        verif_hooks::restore(&keep);
        h.w.take_events();
    }
    Ok(())
}

/// The hops of a route, one by one, on the current state: results up to the first refusal.
fn hop_by_hop(h: &mut Hist, by: ActorId, amount: U256, hops: &[(PoolKey, bool)], ctx: &mut Ctx) -> (Vec<CalculateSwapResult>, Option<Refusal>) {
    let mut at = amount;
    let mut v = vec![];
    for (key, x_to_y) in hops {
        let limit = if *x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
        match h.apply(&Op::Swap { by, key: *key, x_to_y: *x_to_y, amount: at, exact_in: true, limit }, ctx) {
            Ok(Out::Swap(r)) => {
                at = r.amount_out.0;
                v.push(r);
            }
            Err(e) => return (v, Some(e)),
            _ => unreachable!(),
        }
    }
    (v, None)
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 10, route: 40, max_pools: 4, min_tokens: 3, poor_users: true, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    let plan: std::cell::RefCell<Option<(Vec<CalculateSwapResult>, Option<Refusal>, St, Vec<InvariantEvent>)>> = Default::default();
    let (mut done, mut under) = (false, false);
    run_ops_pre(
        &mut h,
        src,
        ctx,
        &mut |h, op, _, src, ctx| {
            *plan.borrow_mut() = None;
            let Op::SwapRoute { by, amount, expected, slippage, hops } = op else { return Ok(()) };
            if src.chance(1, 16) {
                hops.clear();
            } else if src.chance(1, 4) {
                // back through the pools it came by
                let mut back: Vec<_> = hops.iter().rev().map(|(k, d)| (*k, !*d)).collect();
                hops.append(&mut back);
            } else if src.chance(1, 8) {
                let k = strange_key(h, &h.pools[0].clone());
                hops.push((k, src.bool()));
            }
            let keep = verif_hooks::snapshot();
            let (r, e) = hop_by_hop(h, *by, *amount, hops, ctx);
            let end = h.state();
            let events = h.w.take_events();
            verif_hooks::restore(&keep);
            // a minimum about the result
            let out = r.last().map_or(*amount, |r| r.amount_out.0);
            *slippage = match src.below(6) {
                0 => 0,
                1 => ONE_PCT,
                2 => 10_000_000_000,
                _ => src.skewed(ONE_PCT),
            };
            let one = n(ONE_PCT);
            let keepn = &one - n(*slippage);
            let want = if keepn.is_zero() || src.chance(1, 8) {
                nu(scaled_u256(src, 200))
            } else {
                // the largest expectation this result still meets, about
                let v = nu(out) * &one / &keepn;
                near(src, v)
            };
            *expected = to_u256(&want).unwrap_or(U256::MAX >> 1usize);
            *plan.borrow_mut() = Some((r, e, end, events));
            Ok(())
        },
        &mut |_, s, ctx| {
            let Op::SwapRoute { amount, expected, slippage, hops, .. } = s.op else { return Ok(()) };
            let (r, e, end, events) = plan.borrow_mut().take().unwrap();
            if let Some(e) = e {
                ensure!(s.result.is_err(), "route-accepted", "hop {} is refused ({e:?}), the route gives {:?}", r.len() + 1, s.result);
                ensure!(s.before == s.after && s.events.is_empty(), "route-partial", "the refused route left changes");
                let same = match (&e, s.result.as_ref().unwrap_err()) {
                    (Refusal::Panic(a), Refusal::Panic(b)) => e.error().is_none() && s.result.as_ref().unwrap_err().error().is_none() || a == b,
                    _ => false,
                };
                ensure!(same, "route-error", "the hop is refused with {e:?}, the route with {:?}", s.result);
                return Ok(());
            }
            let out = r.last().map_or(*amount, |r| r.amount_out.0);
            let min = ceil_div(&(nu(*expected) * (n(ONE_PCT) - n(*slippage))), &n(ONE_PCT));
            if nu(out) >= min {
                ensure!(
                    *s.result == Ok(Out::Amount(out)),
                    "route-result",
                    "the hops give {out}, the minimum is {min}, the route gives {:?}",
                    s.result
                );
                ensure!(*s.after == end, "route-state", "the route's state differs from the hops': {}", s.op.text());
                ensure!(s.events == events, "route-events", "the route's events differ from the hops'");
                done |= hops.len() > 1;
            } else {
                let e = s.result.as_ref().err().and_then(|e| e.error());
                ensure!(e == Some("AmountUnderMinimumAmountOut"), "route-minimum", "the hops give {out}, the minimum is {min}, the route: {:?}", s.result);
                ensure!(s.before == s.after && s.events.is_empty(), "route-partial", "the refused route left changes");
                under = true;
                ctx.label("route under its minimum");
            }
            ctx.nontrivial = done && under;
            Ok(())
        },
    )
}

fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 40, route: 8, create_position: 16, max_pools: 3, wrong: 2, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    let hops_events: std::cell::RefCell<Vec<InvariantEvent>> = Default::default();
    run_ops_pre(
        &mut h,
        src,
        ctx,
        &mut |h, op, _, _, ctx| {
            if let Op::SwapRoute { by, amount, hops, .. } = op {
                let keep = verif_hooks::snapshot();
                hop_by_hop(h, *by, *amount, hops, ctx);
                *hops_events.borrow_mut() = h.w.take_events();
                verif_hooks::restore(&keep);
            }
            Ok(())
        },
        &mut |_, s, ctx| {
            let want: Vec<InvariantEvent> = match (s.op, s.result) {
                (_, Err(_)) => vec![],
                (Op::CreatePosition { by, key, lower, upper, liquidity, .. }, Ok(_)) => {
                    vec![InvariantEvent::PositionCreatedEvent {
                        timestamp: s.now,
                        address: *by,
                        pool_key: *key,
                        liquidity_delta: Liquidity(*liquidity),
                        lower_tick: *lower,
                        upper_tick: *upper,
                        current_sqrt_price: s.before.pool(key).unwrap().pool.sqrt_price,
                    }]
                }
                (Op::RemovePosition { by, index }, Ok(_)) => {
                    let q = &s.before.positions[by][*index as usize];
                    vec![InvariantEvent::PositionRemovedEvent {
                        timestamp: s.now,
                        address: *by,
                        pool_key: q.pool_key,
                        liquidity: q.liquidity,
                        lower_tick_index: q.lower_tick_index,
                        upper_tick_index: q.upper_tick_index,
                        sqrt_price: s.before.pool(&q.pool_key).unwrap().pool.sqrt_price,
                    }]
                }
                (Op::Swap { by, key, x_to_y, .. }, Ok(Out::Swap(r))) => {
                    let Some(Ok(reference)) = s.reference() else {
                        return fail("reference", "the reference refuses a swap that succeeded");
                    };
                    let (b, a) = (s.before.pool(key).unwrap(), s.after.pool(key).unwrap());
                    let (tin, tout) = if *x_to_y { (key.token_x, key.token_y) } else { (key.token_y, key.token_x) };
                    let paid = nu(s.before.balance(by, &tin)) - nu(s.after.balance(by, &tin));
                    let got = nu(s.after.balance(by, &tout)) - nu(s.before.balance(by, &tout));
                    let mut v = vec![];
                    let indexes: Vec<i32> = reference.crossed.iter().map(|c| c.0).collect();
                    ctx.nontrivial |= indexes.len() > 1;
                    if !indexes.is_empty() {
                        v.push(InvariantEvent::CrossTickEvent { timestamp: s.now, address: *by, pool_key: *key, indexes });
                    }
                    v.push(InvariantEvent::SwapEvent {
                        timestamp: s.now,
                        address: *by,
                        pool_key: *key,
                        amount_in: TokenAmount(to_u256(&paid).unwrap()),
                        amount_out: TokenAmount(to_u256(&got).unwrap()),
                        fee: TokenAmount(to_u256(&reference.fee).unwrap()),
                        start_sqrt_price: b.pool.sqrt_price,
                        target_sqrt_price: a.pool.sqrt_price,
                        x_to_y: *x_to_y,
                    });
                    ensure!(r.fee.0 == to_u256(&reference.fee).unwrap(), "fee", "fee {} of the result", r.fee.0);
                    v
                }
                (Op::SwapRoute { hops, .. }, Ok(_)) => {
                    ctx.nontrivial |= !hops.is_empty();
                    hops_events.borrow().clone()
                }
                _ => vec![],
            };
            ensure!(s.events == want, "events", "{}: events {:?}, expected {want:?}", s.op.text(), s.events);
            Ok(())
        },
    )
}

fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { max_pools: 6, min_tokens: 3, min_tiers: 2, ops: (6, 24), initial_positions: (1, 3), receiver: 3, roles: true, withdraw_protocol: 3, create_pool: 3, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    // the same grid in all pools: positions of the same range everywhere
    if src.bool() && !h.pools.is_empty() {
        let g = h.grid(src, 0);
        for i in 1..h.pools.len() {
            let s = h.pools[i].fee_tier.tick_spacing as i32;
            let mut g: Vec<i32> = g.iter().map(|t| t / s * s).collect();
            g.dedup();
            if g.len() > 1 {
                h.grids[i] = g;
            }
        }
    }
    let mut traded: Vec<PoolKey> = vec![];
    run_ops_pre(&mut h, src, ctx, &mut |_, _, _, _, _| Ok(()), &mut |_, s, ctx| {
        if s.result.is_err() {
            ensure!(s.before == s.after, "refused-changed", "{} was refused and changed the state", s.op.text());
            return Ok(());
        }
        let position_pool = |by: &ActorId, i: u32| s.before.positions[by][i as usize].pool_key;
        let touched: Vec<PoolKey> = match s.op {
            Op::CreatePool { a, b, tier, .. } => vec![PoolKey::new(*a, *b, *tier).unwrap()],
            Op::CreatePosition { key, .. } | Op::SetFeeReceiver { key, .. } | Op::WithdrawProtocolFee { key, .. } => vec![*key],
            Op::Swap { key, .. } => {
                if !traded.contains(key) {
                    traded.push(*key);
                }
                vec![*key]
            }
            Op::RemovePosition { by, index } | Op::ClaimFee { by, index } => vec![position_pool(by, *index)],
            Op::SwapRoute { hops, .. } => hops.iter().map(|h| h.0).collect(),
            _ => vec![],
        };
        for p in &s.after.pools {
            if touched.contains(&p.key) {
                continue;
            }
            ensure!(
                s.before.pool(&p.key) == Some(p),
                "other-pool",
                "{} changed pool {}: {:?} -> {p:?}",
                s.op.text(),
                key_text(&p.key),
                s.before.pool(&p.key)
            );
        }
        // positions in other pools stay, tokens of other pools do not move
        for (u, list) in &s.before.positions {
            let other = |l: &[contracts::Position]| {
                let mut v: Vec<String> = l.iter().filter(|q| !touched.contains(&q.pool_key)).map(|q| format!("{q:?}")).collect();
                v.sort();
                v
            };
            if !matches!(s.op, Op::TransferPosition { .. }) {
                let now = s.after.positions.get(u).cloned().unwrap_or_default();
                ensure!(other(list) == other(&now), "other-positions", "{} changed positions of {} in other pools", s.op.text(), short(u));
            }
        }
        {
            let mut tokens: Vec<ActorId> = vec![];
            for k in &touched {
                tokens.extend([k.token_x, k.token_y]);
            }
            if let Op::Deposit { token, .. } | Op::Withdraw { token, .. } = s.op {
                tokens.push(*token);
            }
            for b in [(s.before, s.after), (s.after, s.before)] {
                for (u, m) in &b.0.balances {
                    for (t, a) in m {
                        ensure!(
                            tokens.contains(t) || b.1.balance(u, t) == *a,
                            "other-token",
                            "{} moved {} of {}",
                            s.op.text(),
                            short(t),
                            short(u)
                        );
                    }
                }
            }
        }
        ctx.nontrivial = s.after.pools.len() > 2 && traded.len() > 1;
        Ok(())
    })
}

fn no_name(e: &No) -> Option<&'static str> {
    Some(match e {
        No::AmountIsZero => "AmountIsZero",
        No::WrongLimit => "WrongLimit",
        No::PriceLimitReached => "PriceLimitReached",
        No::TickLimitReached => "TickLimitReached",
        No::NoGainSwap => "NoGainSwap",
        No::TooManySteps | No::Unrepresentable(_) => return None,
    })
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { swap: 60, poor_users: true, create_position: 8, ops: (6, 30), ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    let (mut accepted, mut refused) = (false, false);
    run_ops_pre(
        &mut h,
        src,
        ctx,
        &mut |h, op, _, src, _| {
            if let Op::Swap { key, amount, limit, x_to_y, .. } = op {
                match src.below(60) {
                    57 => *key = strange_key(h, key),
                    58 => *amount = U256::zero(),
                    59 => {
                        *limit = match src.below(4) {
                            0 => 0,
                            1 => u128::MAX,
                            2 => MIN_SQRT_PRICE - 1,
                            _ => MAX_SQRT_PRICE + 1,
                        };
                        *x_to_y = src.bool();
                    }
                    _ => {}
                }
            }
            Ok(())
        },
        &mut |_, s, ctx| {
            let Op::Swap { by, key, x_to_y, amount, limit, .. } = s.op else { return Ok(()) };
            let got = s.result.as_ref().err().map(|e| (e.error().map(str::to_string), e.clone()));
            if s.result.is_err() {
                ensure!(s.before == s.after, "refused-changed", "the refused swap changed the state");
            }
            let Some(p) = s.before.pool(key) else {
                let fine = match &got {
                    Some((Some(e), _)) => e == "PoolNotFound" || amount.is_zero() && e == "AmountIsZero",
                    _ => false,
                };
                ensure!(fine, "no-pool", "a swap in no pool: {:?}", s.result);
                return Ok(());
            };
            let price = p.pool.sqrt_price.0;
            let wrong_limit =
                if *x_to_y { price <= *limit || *limit > MAX_SQRT_PRICE } else { price >= *limit || *limit < MIN_SQRT_PRICE };
            match s.reference().unwrap() {
                Ok(w) => {
                    let tin = if *x_to_y { key.token_x } else { key.token_y };
                    let tout = if *x_to_y { key.token_y } else { key.token_x };
                    let affordable = nu(s.before.balance(by, &tin)) >= w.amount_in;
                    let fits = (nu(s.before.balance(by, &tout)) + &w.amount_out).bits() <= 256;
                    if affordable && fits {
                        accepted |= !w.crossed.is_empty();
                        ensure!(
                            s.result.is_ok(),
                            "refused",
                            "the swap is refused ({:?}); the reference takes {} for {} in {} steps",
                            s.result,
                            w.amount_in,
                            w.amount_out,
                            w.steps
                        );
                    } else {
                        refused = true;
                        ctx.label("swap without the funds");
                        ensure!(
                            got.as_ref().is_some_and(|(e, _)| balance_error(e.as_deref())),
                            "unaffordable",
                            "the trader has {} and pays {}: {:?}",
                            s.before.balance(by, &tin),
                            w.amount_in,
                            s.result.as_ref().err()
                        );
                    }
                }
                Err(e) => {
                    refused = true;
                    let Some((error, refusal)) = got else {
                        return fail("accepted", format!("the swap is accepted, the reference says {e:?}"));
                    };
                    if let Some(want) = no_name(&e) {
                        let fine = error.as_deref() == Some(want)
                            || wrong_limit && amount.is_zero() && matches!(error.as_deref(), Some("WrongLimit" | "AmountIsZero"));
                        ensure!(fine, "error", "the swap is refused with {refusal:?}, the reference says {want}");
                    }
                }
            }
            ctx.nontrivial = accepted && refused;
            Ok(())
        },
    )
}

