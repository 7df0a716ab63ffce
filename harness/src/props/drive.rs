//! Runs a generated history and shows every step, with the observed state around it, to a check.

use crate::engine::*;
use crate::hist::*;
use crate::refamm::{self, RefSwap, SwapArgs};
use crate::refmath::*;
use crate::st::St;
use crate::world::Refusal;
use io::InvariantEvent;

pub struct Step<'a> {
    pub n: u64,
    pub op: &'a Op,
    pub before: &'a St,
    pub after: &'a St,
    pub result: &'a Result<Out, Refusal>,
    pub events: &'a [InvariantEvent],
    pub now: u64,
    pub height: u32,
}

impl Step<'_> {
    /// What the reference says about the swap of this step.
    pub fn reference(&self) -> Option<Result<RefSwap, refamm::No>> {
        let Op::Swap { key, x_to_y, amount, exact_in, limit, .. } = self.op else { return None };
        let s = self.before.pool(key)?;
        Some(refamm::swap(
            &s.view(),
            &SwapArgs {
                x_to_y: *x_to_y,
                amount: &nu(*amount),
                exact_in: *exact_in,
                limit: &n(*limit),
                protocol_fee: self.before.protocol_fee,
                now: self.now,
            },
        ))
    }
}

pub fn drive(
    src: &mut Src,
    ctx: &mut Ctx,
    profile: Profile,
    check: &mut dyn FnMut(&mut Hist, &Step, &mut Ctx) -> Res,
) -> Result<Hist, Failure> {
    let mut h = Hist::new(src, profile, ctx);
    run_ops(&mut h, src, ctx, check)?;
    Ok(h)
}

pub fn run_ops(
    h: &mut Hist,
    src: &mut Src,
    ctx: &mut Ctx,
    check: &mut dyn FnMut(&mut Hist, &Step, &mut Ctx) -> Res,
) -> Res {
    run_ops_pre(h, src, ctx, &mut |_, _, _, _, _| Ok(()), check)
}

/// As `run_ops`; `pre` sees (and may change) every operation before it runs.
pub fn run_ops_pre(
    h: &mut Hist,
    src: &mut Src,
    ctx: &mut Ctx,
    pre: &mut dyn FnMut(&mut Hist, &mut Op, &St, &mut Src, &mut Ctx) -> Res,
    check: &mut dyn FnMut(&mut Hist, &Step, &mut Ctx) -> Res,
) -> Res {
    let (lo, hi) = h.profile.ops;
    let mut before = h.state();
    let mut n = 0;
    h.w.take_events();
    // the first positions, then the history proper
    let (plo, phi) = h.profile.initial_positions;
    let mut first: Vec<usize> = vec![];
    for i in 0..h.pools.len() {
        let k = plo + src.below(phi - plo + 1);
        first.extend(std::iter::repeat(i).take(k as usize));
    }
    let mut len = first.len() as u64 + lo + src.below(hi - lo + 1);
    if h.profile.swap > 0 && h.profile.create_position > 0 && !h.pools.is_empty() && src.chance(1, 120) {
        let i = src.usize(h.pools.len());
        h.plan_ladder(src, i);
        len += h.planned.len() as u64;
    }
    while n < len {
        let mut op = match first.get(n as usize) {
            Some(i) => h.gen_position(src, *i),
            None => h.gen_op(src),
        };
        pre(h, &mut op, &before, src, ctx)?;
        let after = step(h, &op, before, n, ctx, check)?;
        before = after;
        n += 1;
    }
    Ok(())
}

pub fn step(
    h: &mut Hist,
    op: &Op,
    before: St,
    n: u64,
    ctx: &mut Ctx,
    check: &mut dyn FnMut(&mut Hist, &Step, &mut Ctx) -> Res,
) -> Result<St, Failure> {
    let (now, height) = (h.w.now, h.w.height);
    let result = h.apply(op, ctx);
    let events = h.w.take_events();
    let after = h.state();
    label_step(op, &result, ctx);
    check(h, &Step { n, op, before: &before, after: &after, result: &result, events: &events, now, height }, ctx)?;
    Ok(after)
}

fn label_step(op: &Op, r: &Result<Out, Refusal>, ctx: &mut Ctx) {
    let ok = r.is_ok();
    ctx.label(match (op, ok) {
        (Op::CreatePool { .. }, true) => "create_pool",
        (Op::CreatePosition { .. }, true) => "create_position",
        (Op::CreatePosition { .. }, false) => "create_position refused",
        (Op::RemovePosition { .. }, true) => "remove_position",
        (Op::TransferPosition { .. }, true) => "transfer_position",
        (Op::ClaimFee { .. }, true) => "claim_fee",
        (Op::Swap { .. }, true) => "swap",
        (Op::Swap { .. }, false) => match r.as_ref().unwrap_err().error() {
            Some("TickLimitReached") => "swap refused: tick limit",
            Some("PriceLimitReached") => "swap refused: price limit",
            Some("WrongLimit") => "swap refused: wrong limit",
            Some("NoGainSwap") => "swap refused: no gain",
            Some("FailedToChangeTokenBalance" | "NoBalanceForTheToken") => "swap refused: balance",
            Some(_) => "swap refused: other error",
            None => "swap refused: panic",
        },
        (Op::SwapRoute { .. }, true) => "swap_route",
        (Op::SwapRoute { .. }, false) => "swap_route refused",
        (Op::SetProtocolFee { .. }, true) => "change_protocol_fee",
        (Op::AddTier { .. }, true) => "add_fee_tier",
        (Op::RemoveTier { .. }, true) => "remove_fee_tier",
        (Op::SetFeeReceiver { .. }, true) => "change_fee_receiver",
        (Op::WithdrawProtocolFee { .. }, true) => "withdraw_protocol_fee",
        (Op::Deposit { .. }, true) => "deposit",
        (Op::Withdraw { .. }, true) => "withdraw",
        (Op::Advance { .. }, _) => "time passes",
        (_, false) => "other refused",
    });
}
