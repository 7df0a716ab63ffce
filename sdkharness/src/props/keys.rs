//! Pool keys, fee tiers, limits, and values on their way to and from JavaScript.

use super::math::*;
use crate::engine::*;
use crate::ensure;
use crate::refmath::*;
use crate::sut::{of_n, to_n, types::*};
use decimal::Decimal;
use invariant_vara_wasm as sdk;
use invariant_vara_wasm::{FeeTier, InvariantError, LiquidityTick, Pool, PoolKey, Position, Tick, Tickmap};
use serde_json::{json, Value};

fn address(src: &mut Src) -> [u8; 32] {
    let mut a = [0u8; 32];
    match src.below(3) {
        0 => a[31] = src.below(4) as u8,
        1 => a[0] = src.below(4) as u8,
        _ => {
            for c in a.chunks_mut(8) {
                c.copy_from_slice(&src.limb().to_be_bytes());
            }
        }
    }
    a
}

fn hex(a: &[u8; 32]) -> String {
    a.iter().fold("0x".to_string(), |s, b| s + &format!("{b:02x}"))
}

pub fn keys(src: &mut Src, ctx: &mut Ctx) -> Res {
    let one = 10u128.pow(PCT);
    let spacing = match src.below(3) {
        0 => src.below(300) as u16,
        1 => *src.pick(&[0u16, 1, 100, 101, u16::MAX]),
        _ => 1 + src.below(100) as u16,
    };
    let fee = match src.below(4) {
        0 => one - src.skewed(3),
        1 => one + src.skewed(u128::MAX - one),
        _ => src.skewed(one - 1),
    };
    ctx.log(|| format!("fee {fee} spacing {spacing}"));
    let tier = FeeTier::new(Percentage::new(fee), spacing);
    let want = if spacing == 0 || spacing > 100 {
        Err(InvariantError::InvalidTickSpacing)
    } else if fee > one {
        Err(InvariantError::InvalidFee)
    } else {
        Ok(FeeTier { fee: Percentage::new(fee), tick_spacing: spacing as u64 })
    };
    ensure!(tier == want, "tier", "fee {fee} spacing {spacing}: {tier:?}, should be {want:?}");
    let tier = tier.unwrap_or_default();
    // the order of the tokens is that of their addresses, as in the program
    let a = address(src);
    let mut b = if src.chance(1, 6) { a } else { address(src) };
    if src.chance(1, 4) {
        b = a;
        b[src.usize(32)] ^= 1 << src.below(8);
    }
    ctx.log(|| format!("tokens {} {}", hex(&a), hex(&b)));
    for (a, b) in [(a, b), (b, a)] {
        let x = sdk::is_token_x(hex(&a), hex(&b)).ok();
        ensure!(x == Some(a < b), "token-x", "{} {}: {x:?}", hex(&a), hex(&b));
        let key = PoolKey::new(hex(&a), hex(&b), tier);
        let want = if a == b {
            Err(InvariantError::TokensAreSame)
        } else {
            Ok(PoolKey { token_x: hex(&a.min(b)), token_y: hex(&a.max(b)), fee_tier: tier })
        };
        ensure!(key == want, "key", "{key:?}, should be {want:?}");
    }
    ctx.nontrivial = a != b;
    // the limits of the program
    ensure!(
        (sdk::get_global_max_sqrt_price(), sdk::get_global_min_sqrt_price(), sdk::get_tick_search_range(), sdk::get_chunk_size())
            == (65535383934512647000000000000, 15258932000000000000, 256, 64),
        "limits",
        "prices and search range"
    );
    ensure!(
        (sdk::get_position_tick_limit(), sdk::get_liquidity_tick_limit(), sdk::get_max_pool_keys_returned(), sdk::get_position_entries_limit(), sdk::get_max_pool_pairs_returned(), sdk::get_max_swap_step())
            == (17872, 21544, 9590, 1800, 4012, 142),
        "limits",
        "query limits"
    );
    serialized(src, ctx)
}

fn amount(src: &mut Src) -> N {
    big(src)
}

/// There and back, and under the names JavaScript knows.
fn there_and_back<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, v: &T, want: Value, same: impl Fn(&T) -> bool) -> Res {
    // (through text, so that numbers of more than 64 bits are told apart)
    let text = attempt(|| serde_json::to_string(v).unwrap());
    let Some(text) = text else { return fail("serialize", format!("{what} can not be serialized")) };
    let got: Value = serde_json::from_str(&text).unwrap();
    ensure!(got == want, "serialized", "{what} is {got}, should be {want}");
    let back: Option<T> = attempt(|| serde_json::from_str(&text).unwrap());
    ensure!(back.as_ref().is_some_and(|b| same(b)), "back", "{what} {text} does not come back");
    Ok(())
}

fn serialized(src: &mut Src, ctx: &mut Ctx) -> Res {
    // JSON numbers above 64 bits come back as floats as a `Value`: compare those by text
    let w = |src: &mut Src| src.skewed(u64::MAX as u128);
    let (l, x, y) = (amount(src), amount(src), amount(src));
    let (p, gx, gy, fee) = (w(src), w(src), w(src), w(src));
    let (t, s) = (src.range(-221_818, 221_818) as i32, src.limb());
    let sign = src.bool();
    ctx.log(|| format!("{l} {x} {y} {p} {gx} {gy} {fee} {t} {s} {sign}"));
    let (liq, tx, ty) = (Liquidity::new(of_n(&l)), TokenAmount::new(of_n(&x)), TokenAmount::new(of_n(&y)));
    let text = |v: &N| Value::String(v.to_string());
    there_and_back("a token amount", &tx, text(&x), |b| to_n(b.get()) == x)?;
    there_and_back("a liquidity", &liq, text(&l), |b| to_n(b.get()) == l)?;
    let num = |v: u128| json!(v as u64);
    let wide = src.skewed(u128::MAX);
    let back: Option<SqrtPrice> = attempt(|| serde_json::from_str(&serde_json::to_string(&SqrtPrice::new(wide)).unwrap()).unwrap());
    ensure!(back == Some(SqrtPrice::new(wide)), "price-back", "price {wide} comes back as {back:?}");
    let back = attempt(|| serde_json::to_string(&FeeGrowth::new(wide)).unwrap());
    ensure!(back == Some(wide.to_string()), "growth", "fee growth {wide} is {back:?}");

    let lt = LiquidityTick { index: t as i64, liquidity_change: liq, sign };
    there_and_back("a liquidity tick", &lt, json!({"index": t, "liquidityChange": text(&l), "sign": sign}), |b| *b == lt)?;
    let tick = Tick {
        index: t,
        sign,
        liquidity_change: liq,
        liquidity_gross: Liquidity::new(of_n(&x)),
        sqrt_price: SqrtPrice::new(p),
        fee_growth_outside_x: FeeGrowth::new(gx),
        fee_growth_outside_y: FeeGrowth::new(gy),
        seconds_outside: s,
    };
    let want = json!({"index": t, "sign": sign, "liquidityChange": text(&l), "liquidityGross": text(&x), "sqrtPrice": num(p),
        "feeGrowthOutsideX": num(gx), "feeGrowthOutsideY": num(gy), "secondsOutside": s});
    there_and_back("a tick", &tick, want, |b| format!("{b:?}") == format!("{tick:?}"))?;
    let pool = Pool {
        liquidity: liq,
        sqrt_price: SqrtPrice::new(p),
        current_tick_index: t as i64,
        fee_growth_global_x: FeeGrowth::new(gx),
        fee_growth_global_y: FeeGrowth::new(gy),
        fee_protocol_token_x: tx,
        fee_protocol_token_y: ty,
        start_timestamp: s,
        last_timestamp: s / 2,
        fee_receiver: hex(&[7; 32]),
    };
    let want = json!({"liquidity": text(&l), "sqrtPrice": num(p), "currentTickIndex": t, "feeGrowthGlobalX": num(gx), "feeGrowthGlobalY": num(gy),
        "feeProtocolTokenX": text(&x), "feeProtocolTokenY": text(&y), "startTimestamp": s, "lastTimestamp": s / 2, "feeReceiver": hex(&[7; 32])});
    there_and_back("a pool", &pool, want, |b| *b == pool)?;
    let tier = FeeTier { fee: Percentage::new(fee), tick_spacing: s };
    let key = PoolKey { token_x: hex(&[1; 32]), token_y: hex(&[2; 32]), fee_tier: tier };
    let kj = json!({"tokenX": hex(&[1; 32]), "tokenY": hex(&[2; 32]), "feeTier": {"fee": num(fee), "tickSpacing": s}});
    there_and_back("a pool key", &key, kj.clone(), |b| *b == key)?;
    let pos = Position {
        pool_key: key.clone(),
        liquidity: liq,
        lower_tick_index: t,
        upper_tick_index: -t,
        fee_growth_inside_x: FeeGrowth::new(gx),
        fee_growth_inside_y: FeeGrowth::new(gy),
        last_block_number: s,
        tokens_owed_x: tx,
        tokens_owed_y: ty,
    };
    let want = json!({"poolKey": kj, "liquidity": text(&l), "lowerTickIndex": t, "upperTickIndex": -t, "feeGrowthInsideX": num(gx), "feeGrowthInsideY": num(gy),
        "lastBlockNumber": s, "tokensOwedX": text(&x), "tokensOwedY": text(&y)});
    there_and_back("a position", &pos, want, |b| *b == pos)?;
    let mut map = Tickmap::default();
    let chunk = src.below(7000);
    map.bitmap.insert(chunk, s);
    let mut want = json!({"bitmap": {}});
    want["bitmap"][chunk.to_string()] = json!(s);
    there_and_back("a tick map", &map, want, |b| b.bitmap == map.bitmap)
}
