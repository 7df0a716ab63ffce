//! The library of the SDK.

use decimal::*;
use invariant_vara_wasm::fee_growth::*;
use invariant_vara_wasm::liquidity::Liquidity;
use invariant_vara_wasm::percentage::Percentage;
use invariant_vara_wasm::seconds_per_liquidity::*;
use invariant_vara_wasm::sqrt_price::*;
use invariant_vara_wasm::token_amount::TokenAmount;
use invariant_vara_wasm::{
    calculate_amount_delta, calculate_max_liquidity_per_tick, calculate_min_amount_out, check_tick,
    check_tick_to_sqrt_price_relationship, check_ticks, compute_swap_step, get_delta_x, get_delta_y, get_liquidity_by_x,
    get_liquidity_by_y, get_next_sqrt_price_x_up, get_tick_at_sqrt_price, is_enough_amount_to_change_price, Tickmap,
};

include!("../../harness/src/adapter.rs");

/// Prices that leave the range are replaced by the ends of the range, not refused.
pub const REFUSES: bool = false;

pub mod types {
    pub use invariant_vara_wasm::fee_growth::FeeGrowth;
    pub use invariant_vara_wasm::fixed_point::FixedPoint;
    pub use invariant_vara_wasm::liquidity::Liquidity;
    pub use invariant_vara_wasm::percentage::Percentage;
    pub use invariant_vara_wasm::seconds_per_liquidity::SecondsPerLiquidity;
    pub use invariant_vara_wasm::sqrt_price::SqrtPrice;
    pub use invariant_vara_wasm::token_amount::TokenAmount;
}

pub fn max_tick(spacing: u16) -> Option<i32> {
    call(|| get_max_tick(spacing))
}
pub fn min_tick(spacing: u16) -> Option<i32> {
    call(|| get_min_tick(spacing))
}
pub fn max_price(spacing: u16) -> Option<u128> {
    call(|| get_max_sqrt_price(spacing)).map(|p| p.get())
}
pub fn min_price(spacing: u16) -> Option<u128> {
    call(|| get_min_sqrt_price(spacing)).map(|p| p.get())
}
pub fn max_chunk(spacing: u16) -> Option<u16> {
    call(|| invariant_vara_wasm::get_max_chunk(spacing))
}
pub fn place_of_tick(tick: i32, spacing: u16) -> Option<(u16, u8)> {
    let a = call(|| invariant_vara_wasm::tick_to_position_js(tick, spacing));
    let b = attempt(|| invariant_vara_wasm::tick_to_position(tick, spacing));
    // the exported function and the one the tick map uses
    (a == b).then_some(a).flatten()
}
pub fn tick_of_place(chunk: u16, bit: u8, spacing: u16) -> Option<i32> {
    call(|| invariant_vara_wasm::position_to_tick(chunk, bit, spacing))
}
pub fn search_limit(tick: i32, spacing: u16, up: bool) -> Option<i32> {
    attempt(|| invariant_vara_wasm::get_search_limit(tick, spacing, up))
}

pub fn by_both(_: &N, _: &N, _: i32, _: i32, _: u128, _: bool) -> Option<Option<(N, N, N)>> {
    None
}

/// The tick map of a pool.
pub struct Map {
    map: Tickmap,
}
impl Map {
    pub const POOLS: usize = 1;
    pub fn new(_: u16) -> Map {
        Map { map: Tickmap::default() }
    }
    pub fn flip(&mut self, _: usize, value: bool, tick: i32, spacing: u16) -> Option<()> {
        attempt(|| self.map.flip(value, tick, spacing))
    }
    pub fn get(&self, _: usize, tick: i32, spacing: u16) -> Option<bool> {
        attempt(|| self.map.get(tick, spacing))
    }
    pub fn next(&self, _: usize, tick: i32, spacing: u16) -> Result<Option<i32>, ()> {
        attempt(|| self.map.next_initialized(tick, spacing)).ok_or(())
    }
    pub fn prev(&self, _: usize, tick: i32, spacing: u16) -> Result<Option<i32>, ()> {
        attempt(|| self.map.prev_initialized(tick, spacing)).ok_or(())
    }
    pub fn closer(&self, _: usize, limit: u128, x_to_y: bool, tick: i32, spacing: u16) -> Option<(u128, Option<(i32, bool)>)> {
        call(|| self.map.get_closer_limit(p(limit), x_to_y, tick, spacing)).map(|(p, t)| (p.get(), t))
    }
}
