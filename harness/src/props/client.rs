//! The TypeScript client and the library compiled to WebAssembly, as JavaScript calls them.

use crate::client::*;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::refamm::{tick_of_price, tick_price};
use crate::refmath::*;
use crate::world::{decode_all, program_id, Ended, Refusal, TokenDoes};
use contracts::{FeeTier, PoolKey, Position};
use io::{CalculateSwapResult, SwapHop};
use math::percentage::Percentage;
use math::sqrt_price::SqrtPrice;
use math::token_amount::TokenAmount;
use math::{MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use num_traits::{One, Zero};
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use serde_json::{json, Value};

pub const STAND_INS: &str = "@gear-js/api, sails-js, @polkadot/types and the JavaScript half of wasm-bindgen are not installed: stand-ins follow their documented behaviour";

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "T01",
        run: t01,
        quick: 20_000,
        thorough: 600_000,
        rule: "a case is a generated history in which every transaction goes through a method of the client (direct or kept and sent later, with the client's gas limit or its own, valid and not, tokens that decline or fail); non-trivial: a swap, an opening and a refusal went through it",
        assumptions: &[STAND_INS],
        exhaustive: None,
    },
    Property {
        id: "T02",
        run: t02,
        quick: 8_000,
        thorough: 240_000,
        rule: "a case is a generated history, then every view of the client with random arguments (pages of any size, pages skipped, things that do not exist) against the program's own answers and the lists they are pages of; some cases serve lists longer than one page of the interface; non-trivial: a user had positions in two pages, of which one was skipped, or a list took several pages of the interface",
        assumptions: &[STAND_INS],
        exhaustive: None,
    }]
}

/// Limits after slippage: the square root of price * (1 +- slippage), rounded down somewhere.
/// The lowest and the highest acceptable result.
pub fn after_slippage(price: u128, slippage: u128, up: bool) -> Option<(N, N)> {
    if slippage == 0 {
        return Some((n(price), n(price)));
    }
    let pct = n(ONE_PCT);
    let d = pow10(24);
    let square = n(price) * n(price);
    let k = if up { &pct + n(slippage) } else { pct.clone().checked_sub(&n(slippage)).or((square < d).then(N::zero))? };
    let hi = (&square * &k / &pct).sqrt();
    // the price itself has 24 places
    let lo = (&square / &d * &d * &k / &pct).sqrt();
    Some((if lo.is_zero() { lo } else { lo - N::one() }, hi))
}
trait CheckedSub: Sized {
    fn checked_sub(self, other: &Self) -> Option<Self>;
}
impl CheckedSub for N {
    fn checked_sub(self, other: &N) -> Option<N> {
        (self >= *other).then(|| self - other)
    }
}

/// The tick of a price. (Below the lowest usable tick it is one that cannot be used.)
pub fn tick_at(price: u128, spacing: u16) -> i32 {
    let s = spacing as i32;
    let lowest = -(MAX_TICK / s * s);
    if tick_price(lowest) > n(price) {
        lowest - s
    } else {
        tick_of_price(&n(price), s)
    }
}

fn within(v: u128, range: &(N, N)) -> bool {
    range.0 <= n(v) && n(v) <= range.1
}

/// What the client should send, and what it should return.
pub struct Spec {
    pub name: &'static str,
    pub js: Vec<Value>,
    pub method: &'static str,
    /// The arguments on the wire, or none where they are checked by hand.
    pub args: Option<Vec<u8>>,
    pub value: u128,
    pub answer: fn(&[u8]) -> Option<Value>,
    /// The client should refuse without sending anything.
    pub refuses: bool,
}

fn js_of<T: Decode + Js>(b: &[u8]) -> Option<Value> {
    decode_all::<T>(b).ok().map(|x| x.js())
}
fn amount_pair(b: &[u8]) -> Option<Value> {
    js_of::<(TokenAmount, TokenAmount)>(b)
}

/// An account or id: hex text or raw bytes.
fn any_id(src: &mut Src, a: &ActorId) -> Value {
    if src.chance(1, 3) {
        json!({"$b": hex(a.as_ref())})
    } else {
        id(a)
    }
}

pub fn spec_of(op: &Op, src: &mut Src) -> Option<Spec> {
    use Op::*;
    let spec = |name, js, method, args: Vec<u8>, answer| Spec { name, js, method, args: Some(args), value: 0, answer, refuses: false };
    Some(match op {
        CreatePool { a, b, tier, price, .. } => {
            let key = PoolKey { token_x: *a, token_y: *b, fee_tier: *tier };
            let ok = (MIN_SQRT_PRICE..=MAX_SQRT_PRICE).contains(price) && tier.tick_spacing > 0;
            let tick = if ok { tick_at(*price, tier.tick_spacing) } else { 0 };
            let mut s = spec(
                "createPool",
                vec![key.js(), price.js()],
                "CreatePool",
                (*a, *b, *tier, SqrtPrice(*price), tick).encode(),
                js_of::<()>,
            );
            s.refuses = !ok;
            s
        }
        RemovePosition { index, .. } => spec("removePosition", vec![index.js()], "RemovePosition", index.encode(), amount_pair),
        TransferPosition { index, to, .. } => {
            spec("transferPosition", vec![index.js(), any_id(src, to)], "TransferPosition", (*index, *to).encode(), js_of::<()>)
        }
        ClaimFee { index, .. } => spec("claimFee", vec![index.js()], "ClaimFee", index.encode(), amount_pair),
        Swap { key, x_to_y, amount, exact_in, limit, .. } => spec(
            "swap",
            vec![key.js(), json!(x_to_y), amount.js(), json!(exact_in), limit.js()],
            "Swap",
            (*key, *x_to_y, *amount, *exact_in, *limit).encode(),
            js_of::<CalculateSwapResult>,
        ),
        SwapRoute { amount, expected, slippage, hops, .. } => {
            let hops: Vec<SwapHop> = hops.iter().map(|(pool_key, x_to_y)| SwapHop { pool_key: *pool_key, x_to_y: *x_to_y }).collect();
            spec(
                "swapRoute",
                vec![amount.js(), expected.js(), slippage.js(), hops.js()],
                "SwapRoute",
                (*amount, *expected, *slippage, hops).encode(),
                js_of::<TokenAmount>,
            )
        }
        SetProtocolFee { fee, .. } => spec("changeProtocolFee", vec![fee.js()], "ChangeProtocolFee", fee.encode(), js_of::<Percentage>),
        AddTier { tier, .. } => spec("addFeeTier", vec![tier.js()], "AddFeeTier", tier.encode(), js_of::<FeeTier>),
        RemoveTier { tier, .. } => spec("removeFeeTier", vec![tier.js()], "RemoveFeeTier", tier.encode(), js_of::<FeeTier>),
        SetFeeReceiver { key, to, .. } => {
            spec("changeFeeReceiver", vec![key.js(), any_id(src, to)], "ChangeFeeReceiver", (*key, *to).encode(), js_of::<()>)
        }
        WithdrawProtocolFee { key, .. } => spec("withdrawProtocolFee", vec![key.js()], "WithdrawProtocolFee", key.encode(), js_of::<()>),
        Deposit { token, amount, .. } => spec(
            "depositSingleToken",
            vec![any_id(src, token), amount.js()],
            "DepositSingleToken",
            (*token, *amount).encode(),
            js_of::<TokenAmount>,
        ),
        Withdraw { token, amount, .. } => {
            let js = match amount {
                Some(a) => a.js(),
                None if src.bool() => Value::Null,
                None => undefined(),
            };
            spec(
                "withdrawSingleToken",
                vec![any_id(src, token), js],
                "WithdrawSingleToken",
                (*token, *amount).encode(),
                js_of::<TokenAmount>,
            )
        }
        CreatePosition { .. } | Advance { .. } => return None,
    })
}

/// What a token does with a request.
pub fn token_does(src: &mut Src) -> TokenDoes {
    match src.below(10) {
        0 => TokenDoes::Decline,
        1 => TokenDoes::Fail(b"panicked with 'InsufficientBalance'".to_vec(), [1, 0, 1, 0]),
        // replies with something else: the program says the request failed in a reply that says success
        2 => TokenDoes::Garble(vec![0xff]),
        3 => TokenDoes::GarbleOnly(("Vft", "Approve", true).encode()),
        _ => TokenDoes::Obey,
    }
}

/// Sets one of the numbers of a request to the least or the greatest it can be.
pub fn extreme(op: &mut Op, src: &mut Src) {
    use Op::*;
    let u256 = |src: &mut Src| *src.pick(&[U256::zero(), U256::zero(), U256::one(), U256::MAX]);
    let u128 = |src: &mut Src| *src.pick(&[0, 0, 1, u128::MAX]);
    match op {
        CreatePosition { liquidity, lower, upper, .. } => match src.below(3) {
            0 => *liquidity = u256(src),
            1 => *lower = *src.pick(&[0, i32::MIN]),
            _ => *upper = *src.pick(&[0, i32::MAX]),
        },
        RemovePosition { index, .. } | TransferPosition { index, .. } | ClaimFee { index, .. } => *index = *src.pick(&[0, 0, u32::MAX]),
        Swap { amount, limit, .. } => match src.below(2) {
            0 => *amount = u256(src),
            _ => *limit = u128(src),
        },
        SwapRoute { amount, expected, slippage, hops, .. } => match src.below(4) {
            0 => *amount = u256(src),
            1 => *expected = u256(src),
            2 => *slippage = u128(src),
            _ => hops.clear(),
        },
        SetProtocolFee { fee, .. } => *fee = u128(src),
        Deposit { amount, .. } => *amount = u256(src),
        Withdraw { amount, .. } => *amount = Some(u256(src)),
        _ => {}
    }
}

struct Ran {
    answer: Answer,
    sent: Vec<Sent>,
    gas: u64,
}

/// One transaction of the client, one way or the other.
fn transact(h: &mut Hist, src: &mut Src, signer: &ActorId, name: &str, args: Vec<Value>, default_gas: u64, tokens: Vec<TokenDoes>) -> Result<Ran, Failure> {
    let mut args = args;
    let own = src.chance(1, 4).then(|| if src.chance(1, 8) { 0 } else { 1 + src.below(1_000_000_000_000) });
    if let Some(g) = own {
        // the gas limit follows the arguments that may be left out
        if name == "withdrawSingleToken" {
            while args.len() < 2 {
                args.push(Value::Null);
            }
        }
        args.push(big(g));
    }
    let signer_js = if src.chance(1, 5) { json!({"addressRaw": {"$b": hex(signer.as_ref())}}) } else { id(signer) };
    let mut chain = Chain::new(&mut h.w);
    chain.tokens = tokens;
    let answer = if src.chance(1, 3) {
        let made = request(json!({"do": "tx", "name": format!("{name}Tx"), "args": args}), &mut chain)?;
        ensure!(chain.sent.is_empty(), "sent-early", "{name}Tx sent its message before it was signed");
        match made {
            Ok(tx) => request(json!({"do": "send", "tx": tx, "args": [signer_js]}), &mut chain)?,
            Err(e) => Err(e),
        }
    } else {
        let mut all = vec![signer_js];
        all.extend(args);
        request(json!({"do": "call", "name": name, "args": all}), &mut chain)?
    };
    Ok(Ran { answer, sent: chain.sent, gas: own.unwrap_or(default_gas) })
}

/// The message is the one expected, and the client tells its outcome as it was.
fn check_ran(spec: &Spec, signer: &ActorId, r: &Ran) -> Res {
    let name = spec.name;
    if spec.refuses {
        ensure!(r.sent.is_empty(), "sent-nonsense", "{name} sent {:?} for arguments that make no sense", r.sent);
        ensure!(r.answer.is_err(), "accepted-nonsense", "{name} returned {:?} for arguments that make no sense", r.answer);
        return Ok(());
    }
    ensure!(r.sent.len() == 1, "messages", "{name} sent {} messages: {:?}, {:?}", r.sent.len(), r.sent, r.answer);
    let s = &r.sent[0];
    ensure!(s.destination == hex(program_id().as_ref()), "destination", "{name} sent to {}", s.destination);
    ensure!(s.method == spec.method, "method", "{name} called {}", s.method);
    if let Some(args) = &spec.args {
        ensure!(s.args == *args, "arguments", "{name} sent the arguments {} instead of {}", hex(&s.args), hex(args));
    }
    ensure!(s.source == *signer, "signer", "{name} was sent by {:?}", s.source);
    ensure!(s.value == spec.value, "value", "{name} sent the value {} instead of {}", s.value, spec.value);
    ensure!(s.gas == r.gas.to_string(), "gas", "{name} sent with gas {} instead of {}", s.gas, r.gas);
    match &s.result {
        Ok(b) => {
            let Some(want) = (spec.answer)(b) else {
                return fail("reply", format!("{name}: the program replied {}", hex(b)));
            };
            match &r.answer {
                Ok(v) => ensure!(*v == want, "answer", "{name} returned {v} where the program answered {want}"),
                Err(e) => return fail("answer-lost", format!("{name} threw {e:?} where the program answered {want}")),
            }
        }
        Err(Refusal::Panic(t)) => match &r.answer {
            Err(e) => ensure!(e.contains(t.as_str()), "error-text", "{name} threw {e:?} for the refusal {t:?}"),
            Ok(v) => return fail("refusal-hidden", format!("{name} returned {v} for the refusal {t:?}")),
        },
        Err(other) => ensure!(r.answer.is_err(), "refusal-hidden", "{name} returned {:?} for {other:?}", r.answer),
    }
    Ok(())
}

const DEFAULT_GAS: u64 = 750_000_000_000;
const EXISTENTIAL: u128 = 10_000_000_000_000;

fn t01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile {
        ops: (4, 16),
        initial_positions: (1, 3),
        wrong: 3,
        deposit: 4,
        withdraw: 4,
        withdraw_protocol: 4,
        set_fee: 3,
        tiers: 3,
        receiver: 3,
        transfer: 4,
        route: 6,
        create_pool: 3,
        ..Default::default()
    };
    let mut h = Hist::new(src, profile, ctx);
    let gas = if src.chance(1, 4) { Some(1 + src.below(1_000_000_000)) } else { None };
    reset(gas)?;
    let gas = gas.unwrap_or(DEFAULT_GAS);
    let (mut swapped, mut opened, mut refused) = (false, false, false);
    let len = 3 + h.profile.ops.0 + src.below(h.profile.ops.1 - h.profile.ops.0);
    for i in 0..len {
        let mut op = if i < 3 && !h.pools.is_empty() {
            let p = src.usize(h.pools.len());
            h.gen_position(src, p)
        } else {
            h.gen_op(src)
        };
        if let Op::Withdraw { amount, .. } = &mut op {
            if src.chance(1, 3) {
                *amount = None;
            }
        }
        if src.chance(1, 10) {
            extreme(&mut op, src);
        }
        if let Op::CreatePool { price, .. } = &mut op {
            if src.chance(1, 8) {
                *price = *src.pick(&[MIN_SQRT_PRICE - 1, MAX_SQRT_PRICE + 1, 0, MIN_SQRT_PRICE, MAX_SQRT_PRICE]);
            }
        }
        if let Op::Advance { blocks, millis } = &op {
            h.w.advance(*blocks, *millis);
            continue;
        }
        let by = op.by().unwrap();
        ctx.log(|| op.text());
        let (spec, ran) = if src.chance(1, 8) {
            other_transaction(&mut h, src, gas, &by, ctx)?
        } else if src.chance(1, 40) {
            out_of_range(&mut h, src, gas, &by)?
        } else {
            match &op {
                Op::CreatePosition { key, lower, upper, liquidity, .. } => {
                    open(&mut h, src, gas, &by, key, *lower, *upper, *liquidity)?
                }
                Op::Swap { key, x_to_y, amount, exact_in, .. } if src.chance(1, 3) => {
                    swap_with_slippage(&mut h, src, gas, &by, key, *x_to_y, *amount, *exact_in)?
                }
                _ => {
                    if let Op::Deposit { by, token, amount } = &op {
                        if !src.chance(1, 8) && *amount < U256::MAX {
                            h.w.mint(*token, *by, *amount);
                        }
                    }
                    let spec = spec_of(&op, src).unwrap();
                    let js = spec.js.clone();
                    let tokens = vec![token_does(src)];
                    let ran = transact(&mut h, src, &by, spec.name, js, gas, tokens)?;
                    (spec, ran)
                }
            }
        };
        ctx.log(|| format!("  {} => {:?}", spec.name, ran.answer));
        check_ran(&spec, &by, &ran)?;
        if ran.answer.is_ok() {
            if let Op::CreatePool { a, b, tier, .. } = &op {
                if spec.name == "createPool" {
                    h.pools.push(PoolKey::new(*a, *b, *tier).expect("key"));
                    h.grids.push(vec![]);
                }
            }
        }
        ctx.label(label_of(spec.name, ran.answer.is_ok()));
        swapped |= ran.answer.is_ok() && spec.name.starts_with("swap");
        opened |= ran.answer.is_ok() && spec.name == "createPosition";
        refused |= ran.answer.is_err() && !ran.sent.is_empty();
        h.w.take_events();
    }
    ctx.nontrivial = swapped && opened && refused;
    Ok(())
}

fn label_of(name: &'static str, ok: bool) -> &'static str {
    if ok {
        return name;
    }
    match name {
        "createPosition" => "createPosition refused",
        "swap" | "swapWithSlippage" => "swap refused",
        "depositSingleToken" | "depositTokenPair" | "depositVara" => "deposit refused",
        "withdrawSingleToken" | "withdrawTokenPair" | "withdrawVara" => "withdrawal refused",
        _ => "other refused",
    }
}

fn random_slippage(src: &mut Src) -> u128 {
    match src.below(6) {
        0 => 0,
        1 => 1,
        2 => ONE_PCT / 100,
        3 => ONE_PCT,
        4 => src.skewed(ONE_PCT * 2),
        _ => src.skewed(ONE_PCT / 2),
    }
}

#[allow(clippy::too_many_arguments)]
fn open(h: &mut Hist, src: &mut Src, gas: u64, by: &ActorId, key: &PoolKey, lower: i32, upper: i32, liquidity: U256) -> Result<(Spec, Ran), Failure> {
    let spot = match h.pools.iter().position(|k| k == key) {
        Some(i) => {
            let p = h.pool_state(i).pool.sqrt_price.0;
            match src.below(8) {
                0 => p - 1,
                1 => p + 1,
                2 => src.skewed(u128::MAX),
                3 => MAX_SQRT_PRICE,
                _ => p,
            }
        }
        None => MIN_SQRT_PRICE,
    };
    let slippage = random_slippage(src);
    let (lo, hi) = (after_slippage(spot, slippage, false), after_slippage(spot, slippage, true));
    let fits = |r: &Option<(N, N)>| r.as_ref().is_some_and(|r| r.1 <= n(u128::MAX));
    // at the very end of the type either is right
    let edge = hi.as_ref().is_some_and(|r| r.0 <= n(u128::MAX) && r.1 > n(u128::MAX));
    let js = vec![key.js(), lower.js(), upper.js(), liquidity.js(), spot.js(), slippage.js()];
    let ran = transact(h, src, by, "createPosition", js.clone(), gas, vec![])?;
    let mut spec = Spec { name: "createPosition", js, method: "CreatePosition", args: None, value: 0, answer: js_of::<Position>, refuses: false };
    spec.refuses = !fits(&lo) || (!fits(&hi) && !edge) || (edge && ran.sent.is_empty());
    if let (false, Some(s)) = (spec.refuses, ran.sent.first()) {
        let head = (*key, lower, upper, liquidity).encode();
        let Some(mut rest) = s.args.strip_prefix(&head[..]) else {
            return fail("arguments", format!("createPosition sent the arguments {} instead of {}..", hex(&s.args), hex(&head)));
        };
        let Ok((a, b)) = <(u128, u128)>::decode(&mut rest) else {
            return fail("arguments", format!("createPosition sent {}", hex(&s.args)));
        };
        ensure!(rest.is_empty(), "arguments", "createPosition sent {}", hex(&s.args));
        ensure!(within(a, lo.as_ref().unwrap()), "lower-limit", "createPosition at {spot} with slippage {slippage} sent the lower limit {a}, not in {:?}", lo);
        ensure!(within(b, hi.as_ref().unwrap()), "upper-limit", "createPosition at {spot} with slippage {slippage} sent the upper limit {b}, not in {:?}", hi);
    }
    Ok((spec, ran))
}

#[allow(clippy::too_many_arguments)]
fn swap_with_slippage(h: &mut Hist, src: &mut Src, gas: u64, by: &ActorId, key: &PoolKey, x_to_y: bool, amount: U256, exact_in: bool) -> Result<(Spec, Ran), Failure> {
    let price = match h.pools.iter().position(|k| k == key) {
        Some(i) => h.pool_state(i).pool.sqrt_price.0,
        None => MIN_SQRT_PRICE,
    };
    let estimated = match src.below(3) {
        0 => price,
        1 => src.skewed(MAX_SQRT_PRICE),
        _ => {
            let d = src.skewed(price / 8);
            if src.bool() { price - d } else { price + d }
        }
    };
    let slippage = random_slippage(src);
    let js = vec![key.js(), json!(x_to_y), amount.js(), json!(exact_in), estimated.js(), slippage.js()];
    let ran = transact(h, src, by, "swapWithSlippage", js.clone(), gas, vec![])?;
    let mut spec = Spec { name: "swapWithSlippage", js, method: "Swap", args: None, value: 0, answer: js_of::<CalculateSwapResult>, refuses: false };
    // one beyond the price after slippage, so that the price itself can be reached
    let range = after_slippage(estimated, slippage, !x_to_y).and_then(|(a, b)| {
        Some(if x_to_y { (if a.is_zero() { a } else { a - N::one() }, b.checked_sub(&N::one())?) } else { (a + N::one(), b + N::one()) })
    });
    let max = n(u128::MAX);
    let surely = range.as_ref().is_some_and(|r| r.1 <= max && (!x_to_y || !r.0.is_zero()));
    let maybe = range.as_ref().is_some_and(|r| r.0 <= max);
    spec.refuses = !maybe || (!surely && ran.sent.is_empty());
    if let (false, Some(s)) = (spec.refuses, ran.sent.first()) {
        let head = (*key, x_to_y, amount, exact_in).encode();
        let Some(mut rest) = s.args.strip_prefix(&head[..]) else {
            return fail("arguments", format!("swapWithSlippage sent the arguments {} instead of {}..", hex(&s.args), hex(&head)));
        };
        let Ok(limit) = u128::decode(&mut rest) else {
            return fail("arguments", format!("swapWithSlippage sent {}", hex(&s.args)));
        };
        ensure!(rest.is_empty(), "arguments", "swapWithSlippage sent {}", hex(&s.args));
        let r = range.unwrap();
        ensure!(within(limit, &r), "limit", "swapWithSlippage about {estimated} with slippage {slippage} sent the limit {limit}, not in {r:?}");
    }
    Ok((spec, ran))
}

/// Transactions the histories do not have.
fn other_transaction(h: &mut Hist, src: &mut Src, gas: u64, by: &ActorId, ctx: &mut Ctx) -> Result<(Spec, Ran), Failure> {
    let spec = other_transaction_spec(h, src, by);
    let tokens = vec![token_does(src), token_does(src)];
    let ran = transact(h, src, by, spec.name, spec.js.clone(), gas, tokens)?;
    ctx.log(|| format!("  instead: {} {:?}", spec.name, spec.js));
    Ok((spec, ran))
}

pub fn other_transaction_spec(h: &mut Hist, src: &mut Src, by: &ActorId) -> Spec {
    let a = *src.pick(&h.tokens.clone());
    let b = *src.pick(&h.tokens.clone());
    let bits = h.liq_bits;
    match src.below(4) {
        0 => {
            let (x, y) = (scaled_u256(src, bits), scaled_u256(src, bits));
            if !src.chance(1, 6) {
                h.w.mint(a, *by, x);
                h.w.mint(b, *by, y);
            }
            Spec {
                name: "depositTokenPair",
                js: vec![json!([any_id(src, &a), x.js()]), json!([any_id(src, &b), y.js()])],
                method: "DepositTokenPair",
                args: Some(((a, x), (b, y)).encode()),
                value: 0,
                answer: amount_pair,
                refuses: false,
            }
        }
        1 => {
            let some = |src: &mut Src| src.chance(2, 3).then(|| if src.chance(1, 6) { U256::zero() } else { scaled_u256(src, bits) });
            let (x, y) = (some(src), some(src));
            let js = |v: &Option<U256>| v.map_or(Value::Null, |v| v.js());
            Spec {
                name: "withdrawTokenPair",
                js: vec![json!([any_id(src, &a), js(&x)]), json!([any_id(src, &b), js(&y)])],
                method: "WithdrawTokenPair",
                args: Some(((a, x), (b, y)).encode()),
                value: 0,
                answer: amount_pair,
                refuses: false,
            }
        }
        k => {
            let amount = match src.below(5) {
                0 => EXISTENTIAL,
                1 => EXISTENTIAL - 1,
                2 => src.skewed(EXISTENTIAL),
                _ => EXISTENTIAL + src.skewed(1 << 90),
            };
            if k == 2 {
                Spec {
                    name: "depositVara",
                    js: vec![amount.js()],
                    method: "DepositVara",
                    args: Some(vec![]),
                    value: amount,
                    answer: js_of::<TokenAmount>,
                    refuses: amount < EXISTENTIAL,
                }
            } else {
                // nothing: everything
                let amount = src.chance(2, 3).then_some(amount);
                let sent = amount.map(|a| TokenAmount(U256::from(a)));
                Spec {
                    name: "withdrawVara",
                    js: vec![amount.map_or(Value::Null, |a| a.js())],
                    method: "WithdrawVara",
                    args: Some(sent.encode()),
                    value: 0,
                    answer: js_of::<TokenAmount>,
                    // zero passes for nothing there
                    refuses: amount.is_some_and(|a| a > 0 && a < EXISTENTIAL),
                }
            }
        }
    }
}

/// Numbers the interface has no room for.
fn out_of_range(h: &mut Hist, src: &mut Src, gas: u64, by: &ActorId) -> Result<(Spec, Ran), Failure> {
    let key = h.pools.first().copied().unwrap_or(PoolKey {
        token_x: h.tokens[0],
        token_y: h.tokens[1],
        fee_tier: FeeTier { fee: Percentage(0), tick_spacing: 1 },
    });
    let wide = |bits: u32| big(N::one() << bits);
    let wide_or_negative = |src: &mut Src, bits: u32| if src.bool() { wide(bits) } else { big(-1) };
    let all = MAX_TICK.js();
    let (name, js) = match src.below(6) {
        0 => ("claimFee", vec![wide_or_negative(src, 32)]),
        1 => ("removePosition", vec![wide_or_negative(src, 32)]),
        2 => ("swap", vec![key.js(), json!(true), wide_or_negative(src, 256), json!(true), MIN_SQRT_PRICE.js()]),
        3 => ("createPosition", vec![key.js(), wide(31), all, big(1), MIN_SQRT_PRICE.js(), big(0)]),
        4 => ("createPosition", vec![key.js(), big(-10), all, wide_or_negative(src, 256), MIN_SQRT_PRICE.js(), big(0)]),
        _ => ("changeProtocolFee", vec![wide_or_negative(src, 128)]),
    };
    let ran = transact(h, src, by, name, js.clone(), gas, vec![])?;
    Ok((Spec { name, js, method: "", args: None, value: 0, answer: js_of::<()>, refuses: true }, ran))
}

// ---- T02 ----

/// Asks a view of the client.
pub fn view(h: &mut Hist, name: &str, args: Vec<Value>) -> Result<Answer, Failure> {
    let mut chain = Chain::new(&mut h.w);
    let a = request(json!({"do": "call", "name": name, "args": args}), &mut chain)?;
    ensure!(chain.sent.is_empty(), "view-sends", "{name} sent a message");
    h.w.block();
    Ok(a)
}

fn check_view(name: &str, got: Answer, want: Result<Value, String>) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => ensure!(g == w, name, "{name} returned {g} where the program holds {w}"),
        (Err(g), Err(w)) => ensure!(same_error(&g, &w), format!("{name}-error").as_str(), "{name} threw {g:?} for the error {w}"),
        (Ok(g), Err(w)) => return fail(&format!("{name}-error"), format!("{name} returned {g} for the error {w}")),
        (Err(g), Ok(w)) => return fail(name, format!("{name} threw {g:?} where the program holds {w}")),
    }
    Ok(())
}

fn result<T: Js, E: core::fmt::Debug>(r: Result<T, E>) -> Result<Value, String> {
    r.map(|x| x.js()).map_err(|e| format!("{e:?}"))
}

fn js_map<K: Js, V: Js>(entries: impl IntoIterator<Item = (K, V)>) -> Value {
    let mut v: Vec<Value> = entries
        .into_iter()
        .map(|(k, v)| json!([k.js(), v.js()]))
        .collect();
    v.sort_by_key(|e| e.to_string());
    json!({"$m": v})
}
/// A map without an order.
fn sorted_map(v: Value) -> Value {
    match v {
        Value::Object(mut m) => {
            if let Some(Value::Array(a)) = m.get_mut("$m") {
                a.sort_by_key(|e| e.to_string());
            }
            Value::Object(m.into_iter().map(|(k, v)| (k, if v.is_object() { sorted_map(v) } else { v })).collect())
        }
        _ => v,
    }
}

fn t02(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 160) {
        return t02_long(src, ctx);
    }
    let profile = Profile {
        ops: (2, 14),
        initial_positions: (1, 4),
        create_position: 24,
        swap: 16,
        create_pool: 4,
        tiers: 4,
        transfer: 3,
        ..Default::default()
    };
    let mut h = Hist::new(src, profile, ctx);
    reset(None)?;
    for i in 0..h.pools.len() {
        for _ in 0..1 + src.below(4) {
            let op = h.gen_position(src, i);
            let _ = h.apply(&op, ctx);
        }
    }
    for _ in 0..2 + src.below(12) {
        let op = h.gen_op(src);
        let _ = h.apply(&op, ctx);
    }
    let mut nontrivial = false;
    for _ in 0..6 + src.below(8) {
        one_view(&mut h, src, ctx, &mut nontrivial)?;
        ctx.evals += 1;
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

fn one_view(h: &mut Hist, src: &mut Src, ctx: &mut Ctx, nontrivial: &mut bool) -> Res {
    h.w.block();
    let s = h.w.program().service();
    let a = *src.pick(&h.tokens.clone());
    let b = *src.pick(&h.tokens.clone());
    let tier = if src.chance(1, 8) { random_tier(src) } else { *src.pick(&h.tiers.clone()) };
    let owner = if src.chance(1, 10) { crate::world::user(77) } else { *src.pick(&h.users.clone()) };
    let mut key = match h.pools.is_empty() {
        true => PoolKey { token_x: a, token_y: b, fee_tier: tier },
        false => *src.pick(&h.pools.clone()),
    };
    if src.chance(1, 12) {
        key.fee_tier = tier;
    }
    let mine = s.get_all_positions(owner);
    let index = match src.below(8) {
        0 => mine.len() as u32,
        1 => u32::MAX,
        _ => src.below(mine.len().max(1) as u64) as u32,
    };
    let i = h.pools.iter().position(|k| *k == key);
    let tick = match i {
        Some(i) if !src.chance(1, 8) => {
            let grid = h.grid(src, i);
            *src.pick(&grid)
        }
        _ => random_tick(src, key.fee_tier.tick_spacing),
    };
    let owner_js = any_id(src, &owner);
    ctx.log(|| format!("views about {} {}", key_text(&key), crate::world::short(&owner)));
    match src.below(21) {
        0 => {
            let w = s.fee_tier_exists(tier);
            check_view("feeTierExists", view(h, "feeTierExists", vec![tier.js()])?, Ok(json!(w)))
        }
        1 => {
            let w = s.get_fee_tiers();
            check_view("getFeeTiers", view(h, "getFeeTiers", vec![])?, Ok(w.js()))
        }
        2 => {
            let (x, y, t) = if src.bool() { (key.token_y, key.token_x, key.fee_tier) } else if src.bool() { (a, b, tier) } else { (key.token_x, key.token_y, key.fee_tier) };
            let w = result(s.get_pool(x, y, t));
            check_view("getPool", view(h, "getPool", vec![any_id(src, &x), any_id(src, &y), t.js()])?, w)
        }
        3 => {
            let (size, offset) = (src.below(4) as u16, src.below(4) as u16);
            let (keys, count) = s.get_pool_keys(size, offset);
            check_view("getPoolKeys", view(h, "getPoolKeys", vec![size.js(), offset.js()])?, Ok(json!([keys.js(), count.js()])))
        }
        4 => {
            let (keys, _) = s.get_pool_keys(u16::MAX, 0);
            check_view("getAllPoolKeys", view(h, "getAllPoolKeys", vec![])?, Ok(keys.js()))
        }
        5 => {
            let (x, y) = if src.chance(2, 3) { (key.token_x, key.token_y) } else { (a, b) };
            let w = result(s.get_all_pools_for_pair(x, y));
            check_view("getAllPoolsForPair", view(h, "getAllPoolsForPair", vec![any_id(src, &x), any_id(src, &y)])?, w)
        }
        6 => {
            let w = result(s.get_position(owner, index));
            check_view("getPosition", view(h, "getPosition", vec![owner_js, index.js()])?, w)
        }
        7 | 8 => all_positions(h, src, ctx, &owner, nontrivial),
        9 => {
            let w = result(s.get_position_with_associates(owner, index).map(Four));
            check_view("getPositionWithAssociates", view(h, "getPositionWithAssociates", vec![owner_js, index.js()])?, w)
        }
        10 | 11 => {
            let (size, offset) = (src.below(6) as u32, src.below(5) as u32);
            let ok = s.get_positions(owner, size, offset).map(|_| ()).map_err(|e| format!("{e:?}"));
            let want = ok.map(|_| {
                let page: Vec<_> = mine.iter().skip(offset as usize).take(size as usize).copied().collect();
                json!([with_pools(h, &page), (mine.len() as u32).js()])
            });
            check_view("getPositions", view(h, "getPositions", vec![owner_js, size.js(), offset.js()])?, want)
        }
        12 => check_view("_getAllPositions", view(h, "_getAllPositions", vec![owner_js])?, Ok(mine.js())),
        13 => {
            let w = s.get_protocol_fee().js();
            check_view("getProtocolFee", view(h, "getProtocolFee", vec![])?, Ok(w))
        }
        14 => {
            let w = result(s.get_tick(key, tick));
            check_view("getTick", view(h, "getTick", vec![key.js(), tick.js()])?, w)?;
            let w = h.w.program().service().is_tick_initialized(key, tick);
            check_view("isTickInitialized", view(h, "isTickInitialized", vec![key.js(), tick.js()])?, Ok(json!(w)))
        }
        15 => {
            let w = json!({"bitmap": js_map(s.get_tickmap(key))});
            check_view("getTickmap", view(h, "getTickmap", vec![key.js()])?.map(sorted_map), Ok(w))
        }
        16 => {
            let mut list: Vec<i32> = h.pools.iter().position(|k| *k == key).map(|i| h.grid(src, i)).unwrap_or(vec![tick]);
            list.retain(|t| s.is_tick_initialized(key, *t) || src.chance(1, 20));
            if list.iter().all(|t| s.is_tick_initialized(key, *t)) {
                let w = result(s.get_liquidity_ticks(key, list.clone()));
                check_view("getLiquidityTicks", view(h, "getLiquidityTicks", vec![key.js(), list.js()])?, w)?;
            } else {
                let got = view(h, "getLiquidityTicks", vec![key.js(), list.js()])?;
                ensure!(got.is_err(), "getLiquidityTicks-error", "getLiquidityTicks returned {got:?} with a tick that is not initialized");
            }
            let w = h.w.program().service().get_liquidity_ticks_amount(key);
            check_view("getLiquidityTicksAmount", view(h, "getLiquidityTicksAmount", vec![key.js()])?, Ok(w.js()))
        }
        17 => {
            let map = view(h, "getTickmap", vec![key.js()])?;
            let Ok(map) = map else { return fail("getTickmap", format!("getTickmap threw {map:?}")) };
            let bits = crate::st::bits_to_ticks(&s.get_tickmap(key), key.fee_tier.tick_spacing);
            let mut want: Vec<Value> = s.get_liquidity_ticks(key, bits.into_iter().collect()).map(|v| v.iter().map(|t| t.js()).collect()).unwrap_or_default();
            want.sort_by_key(|v| v.to_string());
            let got = view(h, "getAllLiquidityTicks", vec![key.js(), map])?.map(|v| match v {
                Value::Array(mut a) => {
                    a.sort_by_key(|v| v.to_string());
                    Value::Array(a)
                }
                v => v,
            });
            check_view("getAllLiquidityTicks", got, Ok(Value::Array(want)))
        }
        18 => {
            let w = js_map(s.get_user_balances(owner));
            check_view("getUserBalances", view(h, "getUserBalances", vec![owner_js])?.map(sorted_map), Ok(w))?;
            let w = h.w.program().service().get_user_position_amount(owner);
            check_view("getUserPositionAmount", view(h, "getUserPositionAmount", vec![id(&owner)])?, Ok(w.js()))
        }
        19 => {
            let offset = src.below(mine.len() as u64 + 2) as u32;
            let w = s.get_position_ticks(owner, offset);
            check_view("getPositionTicks", view(h, "getPositionTicks", vec![owner_js, offset.js()])?, Ok(w.js()))
        }
        _ => {
            let x_to_y = src.bool();
            let exact_in = src.bool();
            let amount = match i {
                Some(i) => {
                    let st = h.pool_state(i);
                    h.gen_swap_amount(src, &st, x_to_y, exact_in)
                }
                None => U256::one(),
            };
            let spacing = key.fee_tier.tick_spacing as i32;
            let edge = MAX_TICK / spacing * spacing;
            let limit = to_u128(&tick_price(if x_to_y { -edge } else { edge })).unwrap();
            let args = (key, x_to_y, TokenAmount(amount), exact_in, SqrtPrice(limit)).encode();
            let Ended::Done(Ok(reply)) = h.w.send(owner, "Quote", args, 0) else {
                // refused altogether: more than the numbers can hold
                let got = view(h, "quote", vec![key.js(), json!(x_to_y), amount.js(), json!(exact_in)])?;
                ensure!(got.is_err(), "quote-error", "quote returned {got:?} where the program refuses");
                return Ok(());
            };
            let w = match decode_all::<Result<io::QuoteResult, contracts::InvariantError>>(&reply) {
                Ok(w) => result(w),
                Err(_) => return fail("quote-reply", "the reply to a quote is not one"),
            };
            if w.is_ok() {
                ctx.label("quote");
            }
            check_view("quote", view(h, "quote", vec![key.js(), json!(x_to_y), amount.js(), json!(exact_in)])?, w)
        }
    }
}

struct Four((Position, contracts::Pool, contracts::Tick, contracts::Tick));
impl Js for Four {
    fn js(&self) -> Value {
        json!([self.0 .0.js(), self.0 .1.js(), self.0 .2.js(), self.0 .3.js()])
    }
}

/// The positions, each with the pool it is in.
fn with_pools(h: &Hist, list: &[Position]) -> Value {
    let s = h.w.program().service();
    Value::Array(
        list.iter()
            .map(|p| {
                let k = p.pool_key;
                let pool = s.get_pool(k.token_x, k.token_y, k.fee_tier).expect("the pool of a position");
                json!([p.js(), pool.js()])
            })
            .collect(),
    )
}

fn all_positions(h: &mut Hist, src: &mut Src, ctx: &mut Ctx, owner: &ActorId, nontrivial: &mut bool) -> Res {
    let mine = h.w.program().service().get_all_positions(*owner);
    let per_page = src.chance(4, 5).then(|| 1 + src.below(4));
    let size = per_page.unwrap_or(1800) as usize;
    let pages = mine.len().div_ceil(size);
    let skip: Vec<usize> = if src.chance(1, 2) {
        (0..pages + 1).filter(|_| src.chance(1, 3)).collect()
    } else {
        vec![]
    };
    let count = src.chance(1, 3).then_some(mine.len());
    let args = vec![
        id(owner),
        count.map_or(undefined(), |c| big(c)),
        if skip.is_empty() && src.bool() { undefined() } else { json!(skip) },
        per_page.map_or(undefined(), big),
    ];
    ctx.log(|| format!("getAllPositions({args:?}) of {} positions", mine.len()));
    let got = view(h, "getAllPositions", args)?;
    let got = match got {
        Ok(Value::Array(a)) => a,
        other => return fail("getAllPositions", format!("getAllPositions returned {other:?}")),
    };
    let mut want = vec![];
    for i in 0..pages {
        if !skip.contains(&i) {
            let page: Vec<_> = mine.iter().skip(i * size).take(size).copied().collect();
            want.push(json!({"index": i, "entries": with_pools(h, &page)}));
        }
    }
    // a page without entries says nothing wrong
    let got: Vec<Value> = got.into_iter().filter(|p| p["entries"] != json!([])).collect();
    ensure!(
        got == want,
        "getAllPositions",
        "getAllPositions of {} positions, {size} a page, without the pages {skip:?} returned the pages {:?} instead of {:?}: {:?}",
        mine.len(),
        got.iter().map(|p| &p["index"]).collect::<Vec<_>>(),
        want.iter().map(|p| &p["index"]).collect::<Vec<_>>(),
        got
    );
    if pages >= 2 && !skip.is_empty() {
        *nontrivial = true;
        ctx.label("pages skipped");
    }
    Ok(())
}

/// Lists longer than one page of the interface, served without a program.
fn t02_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    reset(None)?;
    ctx.nontrivial = true;
    let key = |i: u64| {
        let mut x = [1u8; 32];
        x[..8].copy_from_slice(&i.to_le_bytes());
        PoolKey { token_x: ActorId::from(x), token_y: ActorId::from([9u8; 32]), fee_tier: FeeTier { fee: Percentage(i as u128), tick_spacing: 1 } }
    };
    let about = |src: &mut Src, page: u64| {
        let k = src.below(3) + 1;
        (page * k + src.below(3)).saturating_sub(1)
    };
    let query = |q: &Value| -> Option<(String, Vec<u8>)> {
        let b = unhex(q["payload"].as_str()?)?;
        let mut s = &b[..];
        let (_, m) = <(String, String)>::decode(&mut s).ok()?;
        Some((m, s.to_vec()))
    };
    let reply = |method: &str, b: Vec<u8>| json!({"payload": hex(&[("Service", method).encode(), b].concat())});
    let broken = json!({"error": "not a page of the interface"});
    match src.below(3) {
        0 => {
            const PAGE: u64 = 9590;
            let count = about(src, PAGE).min(u16::MAX as u64);
            ctx.log(|| format!("{count} pool keys"));
            let mut chain = |q: &Value| {
                let Some((m, a)) = query(q) else { return broken.clone() };
                match <(u16, u16)>::decode(&mut &a[..]) {
                    Ok((size, offset)) if m == "GetPoolKeys" && size as u64 <= PAGE => {
                        let end = (offset as u64 + size as u64).min(count);
                        let list: Vec<PoolKey> = (offset as u64..end).map(key).collect();
                        reply("GetPoolKeys", (list, count as u16).encode())
                    }
                    _ => broken.clone(),
                }
            };
            let got = request(json!({"do": "call", "name": "getAllPoolKeys", "args": []}), &mut chain)?;
            let want: Vec<PoolKey> = (0..count).map(key).collect();
            ctx.label("many pool keys");
            ensure!(got == Ok(want.js()), "getAllPoolKeys", "getAllPoolKeys of {count} keys returned {} of them", got.as_ref().map_or(0, |v| v.as_array().map_or(0, |a| a.len())));
        }
        1 => {
            const PAGE: usize = 21544;
            let count = about(src, PAGE as u64).min(60_000) as i32;
            let start = src.below(1000) as i32;
            ctx.log(|| format!("{count} ticks"));
            let k = key(1);
            let mut bitmap = vec![];
            for chunk in start / 64..=(start + count) / 64 {
                let mut bits = 0u64;
                for b in 0..64 {
                    let at = chunk * 64 + b;
                    if at >= start && at < start + count {
                        bits |= 1 << b;
                    }
                }
                if bits != 0 {
                    bitmap.push((chunk as u16, bits));
                }
            }
            let tick = |i: i32| contracts::LiquidityTick { index: i, liquidity_change: math::liquidity::Liquidity(U256::from((i + MAX_TICK) as u64)), sign: i % 3 == 0 };
            let mut chain = |q: &Value| {
                let Some((m, a)) = query(q) else { return broken.clone() };
                match <(PoolKey, Vec<i32>)>::decode(&mut &a[..]) {
                    Ok((q, list)) if m == "GetLiquidityTicks" && q == k && list.len() <= PAGE => {
                        let r: Result<Vec<contracts::LiquidityTick>, contracts::InvariantError> = Ok(list.into_iter().map(tick).collect());
                        reply("GetLiquidityTicks", r.encode())
                    }
                    _ => broken.clone(),
                }
            };
            let map = json!({"bitmap": {"$m": bitmap.iter().map(|(c, b)| json!([c.js(), b.js()])).collect::<Vec<_>>()}});
            let got = request(json!({"do": "call", "name": "getAllLiquidityTicks", "args": [k.js(), map]}), &mut chain)?;
            let want: Vec<_> = (start..start + count).map(|i| tick(i - MAX_TICK)).collect();
            ctx.label("many ticks");
            ensure!(got == Ok(want.js()), "getAllLiquidityTicks", "getAllLiquidityTicks of {count} ticks returned {} of them", got.as_ref().map_or(0, |v| v.as_array().map_or(0, |a| a.len())));
        }
        _ => {
            const PAGE: u64 = 1800;
            let count = about(src, PAGE);
            ctx.log(|| format!("{count} positions"));
            let pool = contracts::Pool { sqrt_price: SqrtPrice(5), ..Default::default() };
            let position = |i: u64| Position { pool_key: key(1), lower_tick_index: i as i32, ..Default::default() };
            let mut chain = |q: &Value| {
                let Some((m, a)) = query(q) else { return broken.clone() };
                match <(ActorId, u32, u32)>::decode(&mut &a[..]) {
                    Ok((_, size, offset)) if m == "GetPositions" && size as u64 <= PAGE => {
                        let end = (offset as u64 + size as u64).min(count);
                        let list: Vec<(Position, u32)> = (offset as u64..end).map(|i| (position(i), i as u32)).collect();
                        let r: Result<(Vec<(contracts::Pool, Vec<(Position, u32)>)>, u32), contracts::InvariantError> = Ok((vec![(pool.clone(), list)], count as u32));
                        reply("GetPositions", r.encode())
                    }
                    _ => broken.clone(),
                }
            };
            let got = request(json!({"do": "call", "name": "getAllPositions", "args": [id(&program_id())]}), &mut chain)?;
            let pages: Vec<Value> = (0..count.div_ceil(PAGE))
                .map(|p| {
                    let entries: Vec<Value> = (p * PAGE..((p + 1) * PAGE).min(count)).map(|i| json!([position(i).js(), pool.js()])).collect();
                    json!({"index": p, "entries": entries})
                })
                .collect();
            ctx.label("many positions");
            let got = got.map(|v| v.as_array().map_or(vec![], |a| a.iter().filter(|p| p["entries"] != json!([])).cloned().collect()));
            ensure!(got == Ok(pages), "getAllPositions", "getAllPositions of {count} positions returned {:?}", got.as_ref().map(|v| v.len()));
        }
    }
    Ok(())
}
