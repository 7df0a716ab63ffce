//! Properties of the SDK.

#[path = "../../../harness/src/props/decimals.rs"]
pub mod decimals;
#[path = "../../../harness/src/props/math.rs"]
pub mod math;
pub mod keys;
pub mod sim;

use crate::engine::*;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            run: math::tick_prices_out,
            quick: math::TICK_CASES,
            thorough: math::TICK_CASES,
            rule: "every block of 64 ticks, with 50 generated prices and ticks out of range besides",
            assumptions: &[],
            exhaustive: Some(s01),
        },
        p("S02", sim::amounts_and_pools, 3_000_000, "amounts between two different prices for some liquidity; changes of a pool's active liquidity"),
        p("S03", math::steps, 4_000_000, "steps between two different prices with liquidity and an amount"),
        p("S04", sim::fees, 5_000_000, "fees of both tokens; fees that leave some growth, paid out again in several shares"),
        p("S05", sim::simulate, 1_500_000, "trades that cross an initialized tick"),
        p("S06", search, 2_500_000, "searches that find a tick in another word of the tick map than they start in; usable ticks and their places"),
        p("S07", math::liquidity, 3_000_000, "deposits of more than ten units with the price inside the range"),
        p("S08", numbers, 4_000_000, "operations on two numbers above the smallest unit; casts of numbers that use more than half of their type"),
        p("S09", keys::keys, 600_000, "pairs of different tokens"),
    ]
}

fn p(id: &'static str, run: fn(&mut Src, &mut Ctx) -> Res, quick: u64, rule: &'static str) -> Property {
    Property { id, run, quick, thorough: quick * 30, rule, assumptions: &[], exhaustive: None }
}

fn s01(i: u64, ctx: &mut Ctx) -> Res {
    math::tick_prices(i, ctx)?;
    let mut src = Src::random(Rng::new(&[i, 0x5D01]));
    for _ in 0..50 {
        math::tick_prices_out(&mut src, ctx)?;
    }
    Ok(())
}

fn search(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        math::tick_search(src, ctx)
    } else {
        math::limits(src, ctx)
    }
}

fn numbers(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        decimals::decimals(src, ctx)
    } else {
        decimals::integers(src, ctx)
    }
}
