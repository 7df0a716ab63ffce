//! The libraries of the program.

use contracts::{get_liquidity_by_x, get_liquidity_by_y, PoolKey, FeeTier, Tickmap};
use decimal::*;
use math::fee_growth::*;
use math::liquidity::Liquidity;
use math::percentage::Percentage;
use math::seconds_per_liquidity::*;
use math::sqrt_price::*;
use math::token_amount::TokenAmount;
use math::*;

include!("adapter.rs");

/// Whether prices that leave the range are refused, not replaced by the ends of the range.
pub const REFUSES: bool = true;

pub mod types {
    pub use math::fee_growth::FeeGrowth;
    pub use math::fixed_point::FixedPoint;
    pub use math::liquidity::Liquidity;
    pub use math::percentage::Percentage;
    pub use math::seconds_per_liquidity::SecondsPerLiquidity;
    pub use math::sqrt_price::SqrtPrice;
    pub use math::token_amount::TokenAmount;
}

pub fn max_tick(spacing: u16) -> Option<i32> {
    attempt(|| get_max_tick(spacing))
}
pub fn min_tick(spacing: u16) -> Option<i32> {
    attempt(|| get_min_tick(spacing))
}
pub fn max_price(spacing: u16) -> Option<u128> {
    attempt(|| get_max_sqrt_price(spacing).get())
}
pub fn min_price(spacing: u16) -> Option<u128> {
    attempt(|| get_min_sqrt_price(spacing).get())
}
pub fn max_chunk(spacing: u16) -> Option<u16> {
    attempt(|| contracts::get_max_chunk(spacing))
}
pub fn place_of_tick(tick: i32, spacing: u16) -> Option<(u16, u8)> {
    attempt(|| contracts::tick_to_position(tick, spacing))
}
pub fn tick_of_place(chunk: u16, bit: u8, spacing: u16) -> Option<i32> {
    attempt(|| contracts::position_to_tick(chunk, bit, spacing))
}
pub fn search_limit(tick: i32, spacing: u16, up: bool) -> Option<i32> {
    attempt(|| contracts::get_search_limit(tick, spacing, up))
}

/// (liquidity, x, y); outer None: the library has no such function.
pub fn by_both(x: &N, y: &N, lower: i32, upper: i32, price: u128, up: bool) -> Option<Option<(N, N, N)>> {
    Some(call(|| contracts::get_liquidity(t(x), t(y), lower, upper, p(price), up))
        .map(|r| (to_n(r.l.get()), to_n(r.x.get()), to_n(r.y.get()))))
}

/// Tick maps of several pools.
pub struct Map {
    map: Tickmap,
    keys: Vec<PoolKey>,
}
impl Map {
    pub const POOLS: usize = 3;
    pub fn new(spacing: u16) -> Map {
        let key = |a: u8, b: u8, fee| {
            PoolKey::new([a; 32].into(), [b; 32].into(), FeeTier { fee: Percentage::new(fee), tick_spacing: spacing }).unwrap()
        };
        Map { map: Tickmap::default(), keys: vec![key(1, 2, 0), key(1, 2, 1), key(2, 3, 0)] }
    }
    pub fn flip(&mut self, pool: usize, value: bool, tick: i32, spacing: u16) -> Option<()> {
        attempt(|| self.map.flip(value, tick, spacing, self.keys[pool]))
    }
    pub fn get(&self, pool: usize, tick: i32, spacing: u16) -> Option<bool> {
        attempt(|| self.map.get(tick, spacing, self.keys[pool]))
    }
    /// Err: refused (panic), Ok(None): none in reach.
    pub fn next(&self, pool: usize, tick: i32, spacing: u16) -> Result<Option<i32>, ()> {
        attempt(|| self.map.next_initialized(tick, spacing, self.keys[pool])).ok_or(())
    }
    pub fn prev(&self, pool: usize, tick: i32, spacing: u16) -> Result<Option<i32>, ()> {
        attempt(|| self.map.prev_initialized(tick, spacing, self.keys[pool])).ok_or(())
    }
    pub fn closer(&self, pool: usize, limit: u128, x_to_y: bool, tick: i32, spacing: u16) -> Option<(u128, Option<(i32, bool)>)> {
        call(|| self.map.get_closer_limit(p(limit), x_to_y, tick, spacing, self.keys[pool])).map(|(p, t)| (p.get(), t))
    }
}
