// The library under test in terms of plain numbers. Included by each harness crate next to the
// names it tests (`sut.rs`). None: the library refuses (an error or a panic).

use crate::engine::attempt;
use crate::refmath::{N, Step};

pub fn to_n(v: U256) -> N {
    let mut b = [0u8; 32];
    v.to_little_endian(&mut b);
    N::from_bytes_le(&b)
}
pub fn of_n(v: &N) -> U256 {
    let b = v.to_bytes_le();
    assert!(b.len() <= 32);
    U256::from_little_endian(&b)
}
fn p(v: u128) -> SqrtPrice {
    SqrtPrice::new(v)
}
fn l(v: &N) -> Liquidity {
    Liquidity::new(of_n(v))
}
fn t(v: &N) -> TokenAmount {
    TokenAmount::new(of_n(v))
}
fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    attempt(f)?.ok()
}

pub fn price_of(tick: i32) -> Option<u128> {
    call(|| calculate_sqrt_price(tick)).map(|x| x.get())
}
pub fn tick_at(price: u128, spacing: u16) -> Option<i32> {
    call(|| get_tick_at_sqrt_price(p(price), spacing))
}
pub fn belongs(tick: i32, spacing: u16, price: u128) -> Option<bool> {
    call(|| check_tick_to_sqrt_price_relationship(tick, spacing, p(price)))
}
pub fn usable(tick: i32, spacing: u16) -> bool {
    call(|| check_tick(tick, spacing)).is_some()
}
pub fn usable_range(lower: i32, upper: i32, spacing: u16) -> bool {
    call(|| check_ticks(lower, upper, spacing)).is_some()
}
pub fn liquidity_per_tick(spacing: u16) -> Option<N> {
    attempt(|| calculate_max_liquidity_per_tick(spacing)).map(|x| to_n(x.get()))
}
pub fn min_amount_out(expected: &N, slippage: u128) -> Option<N> {
    attempt(|| calculate_min_amount_out(t(expected), Percentage::new(slippage))).map(|x| to_n(x.get()))
}

pub fn amount_x(a: u128, b: u128, liquidity: &N, up: bool) -> Option<N> {
    call(|| get_delta_x(p(a), p(b), l(liquidity), up)).map(|x| to_n(x.get()))
}
pub fn amount_y(a: u128, b: u128, liquidity: &N, up: bool) -> Option<N> {
    call(|| get_delta_y(p(a), p(b), l(liquidity), up)).map(|x| to_n(x.get()))
}
pub fn amounts(tick: i32, price: u128, liquidity: &N, add: bool, lower: i32, upper: i32) -> Option<(N, N, bool)> {
    call(|| calculate_amount_delta(tick, p(price), l(liquidity), add, upper, lower))
        .map(|(x, y, b)| (to_n(x.get()), to_n(y.get()), b))
}
pub fn next_price_x(price: u128, liquidity: &N, x: &N, add: bool) -> Option<u128> {
    call(|| get_next_sqrt_price_x_up(p(price), l(liquidity), t(x), add)).map(|x| x.get())
}
pub fn step(cur: u128, target: u128, liquidity: &N, amount: &N, exact_in: bool, fee: u128) -> Option<Step> {
    call(|| compute_swap_step(p(cur), p(target), l(liquidity), t(amount), exact_in, Percentage::new(fee))).map(|r| Step {
        next: N::from(r.next_sqrt_price.get()),
        amount_in: to_n(r.amount_in.get()),
        amount_out: to_n(r.amount_out.get()),
        fee: to_n(r.fee_amount.get()),
    })
}
pub fn moves_price(amount: &N, price: u128, liquidity: &N, fee: u128, exact_in: bool, x_to_y: bool) -> Option<bool> {
    call(|| is_enough_amount_to_change_price(t(amount), p(price), l(liquidity), Percentage::new(fee), exact_in, x_to_y))
}

pub fn growth_add(a: u128, b: u128) -> Option<u128> {
    attempt(|| FeeGrowth::new(a).unchecked_add(FeeGrowth::new(b)).get())
}
pub fn growth_sub(a: u128, b: u128) -> Option<u128> {
    attempt(|| FeeGrowth::new(a).unchecked_sub(FeeGrowth::new(b)).get())
}
pub fn growth_from_fee(liquidity: &N, fee: &N) -> Option<u128> {
    call(|| FeeGrowth::from_fee(l(liquidity), t(fee))).map(|x| x.get())
}
pub fn growth_to_fee(growth: u128, liquidity: &N) -> Option<N> {
    call(|| FeeGrowth::new(growth).to_fee(l(liquidity))).map(|x| to_n(x.get()))
}
/// (tick, x, y) of the lower and the upper end, the current tick and the global growth.
pub fn growth_inside(lo: (i32, u128, u128), up: (i32, u128, u128), cur: i32, g: (u128, u128)) -> Option<(u128, u128)> {
    let f = FeeGrowth::new;
    attempt(|| calculate_fee_growth_inside(lo.0, f(lo.1), f(lo.2), up.0, f(up.1), f(up.2), cur, f(g.0), f(g.1)))
        .map(|(x, y)| (x.get(), y.get()))
}
pub fn seconds_add(a: u128, b: u128) -> Option<u128> {
    attempt(|| SecondsPerLiquidity::new(a).unchecked_add(SecondsPerLiquidity::new(b)).get())
}
pub fn seconds_sub(a: u128, b: u128) -> Option<u128> {
    attempt(|| SecondsPerLiquidity::new(a).unchecked_sub(SecondsPerLiquidity::new(b)).get())
}
pub fn seconds_global(liquidity: &N, now: u64, last: u64) -> Option<u128> {
    call(|| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(l(liquidity), now, last)).map(|x| x.get())
}
pub fn seconds_inside(lo: (i32, u128), up: (i32, u128), cur: i32, g: u128) -> Option<u128> {
    let f = SecondsPerLiquidity::new;
    call(|| calculate_seconds_per_liquidity_inside(lo.0, up.0, cur, f(lo.1), f(up.1), f(g))).map(|x| x.get())
}

pub fn by_x(x: &N, lower: i32, upper: i32, price: u128, up: bool) -> Option<(N, N)> {
    call(|| get_liquidity_by_x(t(x), lower, upper, p(price), up)).map(|r| (to_n(r.l.get()), to_n(r.amount.get())))
}
pub fn by_y(y: &N, lower: i32, upper: i32, price: u128, up: bool) -> Option<(N, N)> {
    call(|| get_liquidity_by_y(t(y), lower, upper, p(price), up)).map(|r| (to_n(r.l.get()), to_n(r.amount.get())))
}
