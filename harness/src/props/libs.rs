//! Properties of the program's libraries.

use super::{decimals, math};
use crate::engine::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "M01",
            run: math::tick_prices_out,
            quick: math::TICK_CASES,
            thorough: math::TICK_CASES,
            rule: "every block of 64 ticks, with 50 generated prices and ticks out of range besides",
            assumptions: &[],
            exhaustive: Some(m01),
        },
        p("M02", math::amounts, 3_000_000, "amounts between two different prices for some liquidity"),
        p("M03", math::steps, 4_000_000, "steps between two different prices with liquidity and an amount"),
        p("M04", math::accumulators, 5_000_000, "fees that leave some growth, paid out again in several shares"),
        p("M05", decimals::decimals, 2_500_000, "operations on two numbers above the smallest unit"),
        p("M06", decimals::integers, 6_000_000, "numbers that use more than half, or of unsigned ones more than 160 bits, of their type"),
        p("M07", math::tick_search, 2_500_000, "searches that find a tick in another word of the tick map than they start in"),
        p("M08", math::liquidity, 3_000_000, "deposits of more than ten units with the price inside the range"),
        p("M09", math::limits, 2_500_000, "cases with a usable tick"),
    ]
}

fn p(id: &'static str, run: fn(&mut Src, &mut Ctx) -> Res, quick: u64, rule: &'static str) -> Property {
    Property { id, run, quick, thorough: quick * 30, rule, assumptions: &[], exhaustive: None }
}

fn m01(i: u64, ctx: &mut Ctx) -> Res {
    math::tick_prices(i, ctx)?;
    let mut src = Src::random(Rng::new(&[i, 0x4D01]));
    for _ in 0..50 {
        math::tick_prices_out(&mut src, ctx)?;
    }
    Ok(())
}
