//! Generated histories of operations on the program.

use crate::engine::{Ctx, Src};
use crate::refamm::{tick_of_price, tick_price};
use crate::refmath::*;
use crate::st::{read_pool, PoolSt, Scope, St};
use crate::world::{program_id, actor, short, user, Refusal, World};
use contracts::{FeeTier, PoolKey, Position, CHUNK_SIZE};
use io::{CalculateSwapResult, SwapHop};
use math::liquidity::Liquidity;
use math::percentage::Percentage;
use math::sqrt_price::SqrtPrice;
use math::token_amount::TokenAmount;
use math::{MAX_SQRT_PRICE, MAX_TICK, MIN_SQRT_PRICE};
use num_traits::{One, Zero};
use sails_rs::{ActorId, U256};
use std::collections::VecDeque;

pub const ONE_PCT: u128 = 1_000_000_000_000;

#[derive(Clone, Debug)]
pub enum Op {
    CreatePool { by: ActorId, a: ActorId, b: ActorId, tier: FeeTier, price: u128, tick: i32 },
    CreatePosition { by: ActorId, key: PoolKey, lower: i32, upper: i32, liquidity: U256, lo: u128, hi: u128 },
    RemovePosition { by: ActorId, index: u32 },
    TransferPosition { by: ActorId, index: u32, to: ActorId },
    ClaimFee { by: ActorId, index: u32 },
    Swap { by: ActorId, key: PoolKey, x_to_y: bool, amount: U256, exact_in: bool, limit: u128 },
    SwapRoute { by: ActorId, amount: U256, expected: U256, slippage: u128, hops: Vec<(PoolKey, bool)> },
    SetProtocolFee { by: ActorId, fee: u128 },
    AddTier { by: ActorId, tier: FeeTier },
    RemoveTier { by: ActorId, tier: FeeTier },
    SetFeeReceiver { by: ActorId, key: PoolKey, to: ActorId },
    WithdrawProtocolFee { by: ActorId, key: PoolKey },
    Deposit { by: ActorId, token: ActorId, amount: U256 },
    Withdraw { by: ActorId, token: ActorId, amount: Option<U256> },
    Advance { blocks: u32, millis: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Position(Position),
    Amounts(U256, U256),
    Amount(U256),
    Swap(CalculateSwapResult),
    Pct(u128),
    Tier(FeeTier),
}

pub fn key_text(k: &PoolKey) -> String {
    format!("{}/{}@{}:{}", short(&k.token_x), short(&k.token_y), k.fee_tier.fee.0, k.fee_tier.tick_spacing)
}

impl Op {
    pub fn by(&self) -> Option<ActorId> {
        use Op::*;
        Some(match self {
            CreatePool { by, .. }
            | CreatePosition { by, .. }
            | RemovePosition { by, .. }
            | TransferPosition { by, .. }
            | ClaimFee { by, .. }
            | Swap { by, .. }
            | SwapRoute { by, .. }
            | SetProtocolFee { by, .. }
            | AddTier { by, .. }
            | RemoveTier { by, .. }
            | SetFeeReceiver { by, .. }
            | WithdrawProtocolFee { by, .. }
            | Deposit { by, .. }
            | Withdraw { by, .. } => *by,
            Advance { .. } => return None,
        })
    }
    pub fn text(&self) -> String {
        use Op::*;
        match self {
            CreatePool { by, a, b, tier, price, tick } => format!(
                "{}: create_pool({}, {}, fee {} spacing {}, sqrt_price {}, tick {})",
                short(by), short(a), short(b), tier.fee.0, tier.tick_spacing, price, tick
            ),
            CreatePosition { by, key, lower, upper, liquidity, lo, hi } => format!(
                "{}: create_position({}, {lower}..{upper}, liquidity {liquidity}, slippage {lo}..{hi})",
                short(by), key_text(key)
            ),
            RemovePosition { by, index } => format!("{}: remove_position({index})", short(by)),
            TransferPosition { by, index, to } => format!("{}: transfer_position({index}, {})", short(by), short(to)),
            ClaimFee { by, index } => format!("{}: claim_fee({index})", short(by)),
            Swap { by, key, x_to_y, amount, exact_in, limit } => format!(
                "{}: swap({}, {}, {} {amount}, limit {limit})",
                short(by), key_text(key), if *x_to_y { "x->y" } else { "y->x" }, if *exact_in { "in" } else { "out" }
            ),
            SwapRoute { by, amount, expected, slippage, hops } => format!(
                "{}: swap_route({amount}, expected {expected}, slippage {slippage}, [{}])",
                short(by),
                hops.iter().map(|(k, d)| format!("{} {}", key_text(k), if *d { "x->y" } else { "y->x" })).collect::<Vec<_>>().join("; ")
            ),
            SetProtocolFee { by, fee } => format!("{}: change_protocol_fee({fee})", short(by)),
            AddTier { by, tier } => format!("{}: add_fee_tier({}, {})", short(by), tier.fee.0, tier.tick_spacing),
            RemoveTier { by, tier } => format!("{}: remove_fee_tier({}, {})", short(by), tier.fee.0, tier.tick_spacing),
            SetFeeReceiver { by, key, to } => format!("{}: change_fee_receiver({}, {})", short(by), key_text(key), short(to)),
            WithdrawProtocolFee { by, key } => format!("{}: withdraw_protocol_fee({})", short(by), key_text(key)),
            Deposit { by, token, amount } => format!("{}: deposit({}, {amount})", short(by), short(token)),
            Withdraw { by, token, amount } => format!("{}: withdraw({}, {amount:?})", short(by), short(token)),
            Advance { blocks, millis } => format!("time passes: {blocks} blocks, {millis} ms"),
        }
    }
}

/// Weights of the operations and the shape of the pools.
#[derive(Clone)]
pub struct Profile {
    pub ops: (u64, u64),
    pub max_pools: u64,
    pub create_pool: u64,
    pub create_position: u64,
    pub remove: u64,
    pub transfer: u64,
    pub claim: u64,
    pub swap: u64,
    pub route: u64,
    pub set_fee: u64,
    pub tiers: u64,
    pub receiver: u64,
    pub withdraw_protocol: u64,
    pub deposit: u64,
    pub withdraw: u64,
    pub advance: u64,
    /// Of 16: an operation with an argument or a caller that should be refused.
    pub wrong: u64,
    /// Bits of the biggest liquidity (raw).
    pub max_liquidity_bits: u64,
    pub initial_positions: (u64, u64),
    pub poor_users: bool,
    /// Half of the fee tiers have no fee.
    pub free_tiers: bool,
    /// Tokens at least.
    pub min_tokens: u64,
    /// Fee tiers at least (before duplicates).
    pub min_tiers: u64,
    /// Fee receivers that are nobody, a token, the program or the administrator, and callers that have
    /// another role than the one needed.
    pub roles: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            ops: (4, 28),
            max_pools: 2,
            create_pool: 1,
            create_position: 12,
            remove: 8,
            transfer: 2,
            claim: 6,
            swap: 30,
            route: 3,
            set_fee: 1,
            tiers: 1,
            receiver: 1,
            withdraw_protocol: 2,
            deposit: 1,
            withdraw: 1,
            advance: 4,
            wrong: 1,
            max_liquidity_bits: 200,
            initial_positions: (1, 5),
            poor_users: false,
            free_tiers: false,
            min_tokens: 2,
            min_tiers: 1,
            roles: false,
        }
    }
}

pub struct Hist {
    pub w: World,
    pub tokens: Vec<ActorId>,
    pub users: Vec<ActorId>,
    pub tiers: Vec<FeeTier>,
    pub pools: Vec<PoolKey>,
    /// Tick grid of each pool, so that positions share ticks.
    pub grids: Vec<Vec<i32>>,
    pub liq_bits: u64,
    pub scope: Scope,
    pub profile: Profile,
    /// What comes next, before anything else is generated.
    pub planned: VecDeque<Plan>,
}

#[derive(Clone)]
pub enum Plan {
    Op(Op),
    /// A trade in this pool and direction that ends on the next tick, with a little left over.
    OntoTick(usize, bool),
    /// A trade of the nearly penniless user with all they have of the token they sell.
    SpendAll(usize, bool),
    /// A trade across this many initialized ticks.
    Sweep(usize, bool, usize),
}

/// The user who has little or nothing.
pub fn penniless() -> ActorId {
    user(90)
}

pub fn token_ids(n: usize) -> Vec<ActorId> {
    // the first bytes and the last bytes order them differently
    let ids: [[u8; 4]; 5] = [[1, 9, 0, 7], [1, 9, 0, 3], [2, 0, 0, 1], [0, 255, 0, 9], [255, 0, 1, 0]];
    ids[..n]
        .iter()
        .map(|b| {
            let mut id = [0x77u8; 32];
            id[0] = b[0];
            id[1] = b[1];
            id[16] = b[2];
            id[31] = b[3];
            actor(id)
        })
        .collect()
}

pub fn random_tier(src: &mut Src) -> FeeTier {
    let spacing = match src.below(8) {
        0 => 1,
        1 => 2,
        2 => 10,
        3 => 100,
        4 => 5,
        5 => 64,
        _ => src.range(1, 100) as u16,
    };
    let fee = match src.below(9) {
        0 => 6_000_000_000,
        1 => 0,
        2 => 10_000_000_000,
        3 => 100_000_000,
        4 => 1,
        5 => 500_000_000_000,
        6 => ONE_PCT - 1,
        _ => src.skewed(ONE_PCT / 10),
    };
    FeeTier { fee: Percentage(fee), tick_spacing: spacing }
}

pub fn random_protocol_fee(src: &mut Src) -> u128 {
    match src.below(7) {
        0 => 10_000_000_000,
        1 => 0,
        2 => ONE_PCT,
        3 => 200_000_000_000,
        4 => 1,
        5 => 500_000_000_000,
        _ => src.skewed(ONE_PCT),
    }
}

/// A tick aligned to the spacing, anywhere, the middle, the edges and chunk borders likely.
pub fn random_tick(src: &mut Src, spacing: u16) -> i32 {
    let s = spacing as i64;
    let max = MAX_TICK as i64 / s;
    let i = match src.below(8) {
        0 => 0,
        1 => src.range(-3, 3),
        2 => max - src.range(0, 3),
        3 => -max + src.range(0, 3),
        4 => src.range(-max / 8, max / 8),
        5 => {
            // the first tick of a chunk, about
            let c = src.range(0, (2 * max) / CHUNK_SIZE as i64);
            (c * CHUNK_SIZE as i64 - max + src.range(-1, 1)).clamp(-max, max)
        }
        _ => src.range(-max, max),
    };
    (i * s) as i32
}

/// A price in [price(tick), price(tick + spacing)), or the single price of the last tick.
pub fn random_price_in_tick(src: &mut Src, tick: i32, spacing: u16) -> u128 {
    let lo = math::sqrt_price::calculate_sqrt_price(tick).unwrap().0;
    if tick + spacing as i32 > MAX_TICK {
        return lo;
    }
    let hi = math::sqrt_price::calculate_sqrt_price(tick + spacing as i32).unwrap().0;
    match src.below(4) {
        0 | 1 => lo,
        2 => hi - 1,
        _ => lo + src.skewed(hi - lo - 1),
    }
}

pub fn near(src: &mut Src, v: N) -> N {
    match src.below(6) {
        0 => v + N::one(),
        1 => {
            if v.is_zero() {
                v
            } else {
                v - N::one()
            }
        }
        2 => v + n(2),
        _ => v,
    }
}

pub fn scaled_u256(src: &mut Src, bits: u64) -> U256 {
    // about 2^bits
    let bits = bits.clamp(1, 255);
    let top = src.below(bits) as usize / 4;
    let b = (bits as usize - top).max(1);
    let mut v = U256::zero();
    for i in 0..4 {
        v.0[i] = src.word();
    }
    let v = v >> (256 - b);
    if v.is_zero() {
        U256::one()
    } else {
        v
    }
}

impl Hist {
    pub fn new(src: &mut Src, profile: Profile, ctx: &mut Ctx) -> Hist {
        let protocol_fee = random_protocol_fee(src);
        let mut w = World::new(protocol_fee);
        w.now = 1_700_000_000_000 + src.below(1000);
        w.height = 1000;
        w.block();
        let least = profile.min_tokens.clamp(2, 4);
        let n_tokens = (least + src.below(5 - least)) as usize;
        let tokens = token_ids(n_tokens);
        let n_users = 1 + src.usize(3);
        let users: Vec<ActorId> = (0..n_users).map(|i| user(i as u8)).collect();
        let mut scope = Scope::default();
        scope.users.extend(users.iter().copied());
        scope.users.insert(w.admin);
        scope.users.insert(user(200));
        scope.users.insert(penniless());
        let mut h = Hist {
            w,
            tokens,
            users,
            tiers: vec![],
            pools: vec![],
            grids: vec![],
            liq_bits: 30,
            scope,
            profile,
            planned: VecDeque::new(),
        };
        ctx.log(|| format!("program created, protocol fee {protocol_fee}, {n_tokens} tokens, {n_users} users"));
        let max_bits = h.profile.max_liquidity_bits;
        h.liq_bits = match src.below(8) {
            0 => 36,
            // the price does not move for every unit
            6 | 7 => 85 + src.below(60),
            1 => 1 + src.below(20),
            2 => 50 + src.below(40).min(max_bits.saturating_sub(50)),
            3 => 20 + src.below(max_bits - 20),
            _ => 25 + src.below(50),
        }
        .min(max_bits);
        let n_tiers = h.profile.min_tiers + src.below(2);
        for _ in 0..n_tiers {
            let mut tier = random_tier(src);
            if h.profile.free_tiers && src.bool() {
                tier.fee.0 = 0;
            }
            if !h.tiers.contains(&tier) {
                h.tiers.push(tier);
                let admin = h.w.admin;
                h.apply(&Op::AddTier { by: admin, tier }, ctx).expect("fee tier");
            }
        }
        let n_pools = 1 + src.below(h.profile.max_pools);
        for _ in 0..n_pools {
            h.new_pool(src, ctx);
        }
        // everyone can pay for anything reasonable
        let fund_bits = if h.profile.poor_users && src.bool() { h.liq_bits } else { 240 };
        for u in h.users.clone() {
            for t in h.tokens.clone() {
                let amount = if fund_bits == 240 { U256::one() << 240 } else { scaled_u256(src, fund_bits.max(4)) };
                h.w.deposit(u, t, amount).expect("deposit");
            }
        }
        h
    }

    pub fn new_pool(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let a = src.usize(self.tokens.len());
        let b = (a + 1 + src.usize(self.tokens.len() - 1)) % self.tokens.len();
        let tier = *src.pick(&self.tiers.clone());
        let tick = match src.below(3) {
            0 => (src.range(-30, 30) as i32) * tier.tick_spacing as i32,
            1 => random_tick(src, tier.tick_spacing),
            _ => {
                let max = MAX_TICK as i64 / tier.tick_spacing as i64;
                (src.range(-max, max) * tier.tick_spacing as i64) as i32
            }
        };
        let price = random_price_in_tick(src, tick, tier.tick_spacing);
        let by = *src.pick(&self.users.clone());
        let op = Op::CreatePool { by, a: self.tokens[a], b: self.tokens[b], tier, price, tick };
        let _ = self.apply(&op, ctx);
    }

    pub fn pool_state(&self, i: usize) -> PoolSt {
        let extra: Vec<i32> = self.scope.ticks.range((i, i32::MIN)..=(i, i32::MAX)).map(|(_, t)| *t).collect();
        read_pool(&self.w, self.pools[i], extra.into_iter())
    }

    pub fn state(&self) -> St {
        crate::st::read(&self.w, &self.scope)
    }

    pub fn positions_of(&self, u: &ActorId) -> u32 {
        self.w.block();
        self.w.program().service().get_user_position_amount(*u)
    }

    fn make_grid(&self, src: &mut Src, key: &PoolKey, current: i32) -> Vec<i32> {
        let s = key.fee_tier.tick_spacing as i64;
        let max = MAX_TICK as i64 / s;
        let c = current as i64 / s;
        let mut g = vec![];
        for side in [-1i64, 1] {
            let mut at = c;
            for _ in 0..2 + src.usize(3) {
                at += side
                    * match src.below(6) {
                        0 => 1,
                        1 => src.range(1, 4),
                        2 => src.range(1, 70),
                        3 => 256 + src.range(-2, 2),
                        4 => src.range(60, 68),
                        _ => src.range(1, 600),
                    };
                g.push((at.clamp(-max, max) * s) as i32);
            }
        }
        g.push((c.clamp(-max, max) * s) as i32);
        if src.chance(1, 4) {
            g.push((max * s) as i32);
            g.push((-max * s) as i32);
        }
        g.sort();
        g.dedup();
        g
    }

    /// Runs one operation; keeps track of what it may have touched.
    pub fn apply(&mut self, op: &Op, ctx: &mut Ctx) -> Result<Out, Refusal> {
        let r = self.run(op);
        ctx.log(|| {
            let out = match &r {
                Ok(Out::Swap(s)) => format!(
                    "ok in {} out {} fee {} price {} -> {}",
                    s.amount_in.0, s.amount_out.0, s.fee.0, s.start_sqrt_price.0, s.target_sqrt_price.0
                ),
                Ok(Out::Position(p)) => format!("ok liquidity {}", p.liquidity.0),
                Ok(o) => format!("ok {o:?}"),
                Err(e) => format!("refused {e:?}"),
            };
            format!("{} => {out}", op.text())
        });
        r
    }

    fn run(&mut self, op: &Op) -> Result<Out, Refusal> {
        use Op::*;
        match op.clone() {
            CreatePool { by, a, b, tier, price, tick } => {
                let r = self
                    .w
                    .call::<()>(by, "CreatePool", (a, b, tier, SqrtPrice(price), tick))
                    .map(|_| Out::Unit);
                if r.is_ok() {
                    let key = PoolKey::new(a, b, tier).expect("key");
                    self.pools.push(key);
                    self.grids.push(vec![]);
                }
                r
            }
            CreatePosition { by, key, lower, upper, liquidity, lo, hi } => {
                if let Some(i) = self.pools.iter().position(|k| *k == key) {
                    self.scope.ticks.insert((i, lower));
                    self.scope.ticks.insert((i, upper));
                }
                self.w
                    .call::<Position>(
                        by,
                        "CreatePosition",
                        (key, lower, upper, Liquidity(liquidity), SqrtPrice(lo), SqrtPrice(hi)),
                    )
                    .map(Out::Position)
            }
            RemovePosition { by, index } => self
                .w
                .call::<(TokenAmount, TokenAmount)>(by, "RemovePosition", index)
                .map(|(x, y)| Out::Amounts(x.0, y.0)),
            TransferPosition { by, index, to } => {
                self.w.call::<()>(by, "TransferPosition", (index, to)).map(|_| Out::Unit)
            }
            ClaimFee { by, index } => self
                .w
                .call::<(TokenAmount, TokenAmount)>(by, "ClaimFee", index)
                .map(|(x, y)| Out::Amounts(x.0, y.0)),
            Swap { by, key, x_to_y, amount, exact_in, limit } => self
                .w
                .call::<CalculateSwapResult>(
                    by,
                    "Swap",
                    (key, x_to_y, TokenAmount(amount), exact_in, SqrtPrice(limit)),
                )
                .map(Out::Swap),
            SwapRoute { by, amount, expected, slippage, hops } => {
                let hops: Vec<SwapHop> =
                    hops.into_iter().map(|(pool_key, x_to_y)| SwapHop { pool_key, x_to_y }).collect();
                self.w
                    .call::<TokenAmount>(
                        by,
                        "SwapRoute",
                        (TokenAmount(amount), TokenAmount(expected), Percentage(slippage), hops),
                    )
                    .map(|a| Out::Amount(a.0))
            }
            SetProtocolFee { by, fee } => self
                .w
                .call::<Percentage>(by, "ChangeProtocolFee", Percentage(fee))
                .map(|p| Out::Pct(p.0)),
            AddTier { by, tier } => self.w.call::<FeeTier>(by, "AddFeeTier", tier).map(Out::Tier),
            RemoveTier { by, tier } => self.w.call::<FeeTier>(by, "RemoveFeeTier", tier).map(Out::Tier),
            SetFeeReceiver { by, key, to } => {
                self.w.call::<()>(by, "ChangeFeeReceiver", (key, to)).map(|_| Out::Unit)
            }
            WithdrawProtocolFee { by, key } => {
                self.w.call::<()>(by, "WithdrawProtocolFee", key).map(|_| Out::Unit)
            }
            Deposit { by, token, amount } => self.w.deposit(by, token, amount).map(|_| Out::Unit),
            Withdraw { by, token, amount } => self.w.withdraw(by, token, amount).map(Out::Amount),
            Advance { blocks, millis } => {
                self.w.advance(blocks, millis);
                Ok(Out::Unit)
            }
        }
    }

    pub fn grid(&mut self, src: &mut Src, i: usize) -> Vec<i32> {
        if self.grids[i].is_empty() {
            let tick = self.pool_tick(i);
            self.grids[i] = self.make_grid(src, &self.pools[i], tick);
        }
        self.grids[i].clone()
    }

    pub fn pool_tick(&self, i: usize) -> i32 {
        let k = self.pools[i];
        self.w.block();
        self.w.program().service().get_pool(k.token_x, k.token_y, k.fee_tier).expect("pool").current_tick_index
    }

    pub fn gen_position(&mut self, src: &mut Src, i: usize) -> Op {
        let by = *src.pick(&self.users.clone());
        let key = self.pools[i];
        let grid = self.grid(src, i);
        let spacing = key.fee_tier.tick_spacing;
        let (mut lower, mut upper);
        if grid.len() >= 2 && !src.chance(1, 8) {
            let a = src.usize(grid.len());
            let b = (a + 1 + src.usize(grid.len() - 1)) % grid.len();
            lower = grid[a.min(b)];
            upper = grid[a.max(b)];
        } else {
            lower = random_tick(src, spacing);
            upper = random_tick(src, spacing);
            if lower > upper {
                std::mem::swap(&mut lower, &mut upper);
            }
        }
        // an end about the current price, where in range and out of range meet
        if src.chance(1, 6) {
            let s = self.pool_state(i);
            let t = match src.below(3) {
                0 => s.pool.current_tick_index,
                1 => s.pool.current_tick_index + spacing as i32,
                _ => tick_of_price(&n(s.pool.sqrt_price.0), spacing as i32),
            };
            if t.abs() <= MAX_TICK / spacing as i32 * spacing as i32 {
                if (src.bool() && t < upper) || t <= lower { lower = t } else { upper = t }
            }
        }
        let mut liquidity = match src.below(10) {
            0 => scaled_u256(src, 8),
            1 => scaled_u256(src, (self.liq_bits + 20).min(self.profile.max_liquidity_bits)),
            2 => U256::one() << (self.liq_bits.min(250) as usize),
            _ => scaled_u256(src, self.liq_bits),
        };
        let (mut lo, mut hi) = (MIN_SQRT_PRICE, MAX_SQRT_PRICE);
        if src.chance(self.profile.wrong, 32) {
            match src.below(6) {
                0 => upper = lower,
                1 => std::mem::swap(&mut lower, &mut upper),
                2 => lower += 1,
                3 => liquidity = U256::zero(),
                4 => upper = MAX_TICK + spacing as i32,
                _ => {
                    lo = MAX_SQRT_PRICE;
                    hi = MIN_SQRT_PRICE;
                }
            }
        }
        Op::CreatePosition { by, key, lower, upper, liquidity, lo, hi }
    }

    /// An amount that takes the price of the pool about somewhere interesting.
    pub fn gen_swap_amount(&self, src: &mut Src, s: &PoolSt, x_to_y: bool, exact_in: bool) -> U256 {
        if src.chance(1, 5) {
            let bits = (self.liq_bits + src.below(40)).saturating_sub(src.below(30)).max(2);
            return scaled_u256(src, bits);
        }
        if src.chance(1, 12) {
            return U256::from(1 + src.below(4));
        }
        let hops = src.usize(4);
        let kind = src.below(6);
        self.swap_amount_to(src, s, x_to_y, exact_in, hops, kind)
    }

    /// An amount by way of this many initialized ticks ahead.
    fn swap_amount_to(&self, src: &mut Src, s: &PoolSt, x_to_y: bool, exact_in: bool, hops: usize, kind: u64) -> U256 {
        let mut liq = nu(s.pool.liquidity.0);
        let mut p = n(s.pool.sqrt_price.0);
        let mut tick = s.pool.current_tick_index;
        let fee = n(s.key.fee_tier.fee.0);
        let one = n(ONE_PCT);
        let (mut total_in, mut total_out) = (N::zero(), N::zero());
        let mut seg = (N::zero(), N::zero());
        for h in 0..=hops {
            let next = if x_to_y { s.bits.range(..=tick).next_back().copied() } else { s.bits.range(tick + 1..).next().copied() };
            let Some(t) = next else { break };
            let tp = tick_price(t);
            if (x_to_y && tp > p) || (!x_to_y && tp < p) {
                break;
            }
            let (i, o) = if x_to_y {
                (delta_x(&tp, &p, &liq, true).unwrap_or_default(), delta_y(&tp, &p, &liq, false))
            } else {
                (delta_y(&tp, &p, &liq, true), delta_x(&tp, &p, &liq, false).unwrap_or_default())
            };
            let with_fee = if fee < one { ceil_div(&(&i * &one), &(&one - &fee)) } else { i.clone() };
            seg = (with_fee.clone(), o.clone());
            if h == hops {
                break;
            }
            total_in += with_fee;
            total_out += o;
            p = tp;
            if let Some(rec) = s.ticks.get(&t) {
                let c = nu(rec.liquidity_change.0);
                if (!x_to_y) == rec.sign {
                    liq += c
                } else if liq >= c {
                    liq -= c
                }
            }
            tick = if x_to_y { t - 1 } else { t };
        }
        let (base, part) = if exact_in { (total_in, seg.0) } else { (total_out, seg.1) };
        let v = match kind {
            0 => near(src, base),
            // onto the last tick, with about what moves the price by the least there left over
            4 | 5 => {
                let up = p.clone() + N::one();
                let (x, y) = (delta_x(&p, &up, &liq, true).unwrap_or_default(), delta_y(&p, &up, &liq, true));
                let least = if x_to_y == exact_in { x } else { y };
                base + n(src.skewed(to_u128(&(least * n(2))).unwrap_or(u128::MAX).max(2)))
            }
            1 => near(src, base + part),
            2 => base + part * n(src.below(1001) as u128) / n(1000),
            _ => {
                let b = base + part;
                let k = src.below(6) as u32;
                b / pow10(k) + n(src.below(3) as u128)
            }
        };
        let v = if v.is_zero() { N::one() } else { v };
        to_u256(&v).unwrap_or(U256::MAX)
    }

    pub fn gen_limit(&self, src: &mut Src, s: &PoolSt, x_to_y: bool) -> u128 {
        if !src.chance(1, 4) {
            return if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
        }
        let p = s.pool.sqrt_price.0;
        match src.below(5) {
            0 => {
                // an initialized tick
                let v: Vec<i32> = s.bits.iter().copied().collect();
                if v.is_empty() {
                    p
                } else {
                    to_u128(&tick_price(*src.pick(&v))).unwrap()
                }
            }
            1 => {
                let d = 1 + src.skewed(p / 4);
                if x_to_y { p - d.min(p) } else { p + d }
            }
            2 => {
                let t = s.pool.current_tick_index + if x_to_y { -1 } else { 1 } * src.range(0, 300) as i32;
                to_u128(&tick_price(t.clamp(-MAX_TICK, MAX_TICK))).unwrap()
            }
            3 => p,
            _ => {
                if x_to_y { p - 1 } else { p + 1 }
            }
        }
    }

    pub fn gen_swap(&mut self, src: &mut Src, i: usize) -> Op {
        let by = *src.pick(&self.users.clone());
        let key = self.pools[i];
        let s = self.pool_state(i);
        let x_to_y = src.bool();
        let exact_in = !src.chance(2, 5);
        let amount = self.gen_swap_amount(src, &s, x_to_y, exact_in);
        let limit = self.gen_limit(src, &s, x_to_y);
        Op::Swap { by, key, x_to_y, amount, exact_in, limit }
    }

    /// A position about the price and one next to it with far more liquidity, then a trade that crosses
    /// into that: it may not move the price there.
    fn plan_neighbours(&mut self, src: &mut Src, i: usize) {
        let by = *src.pick(&self.users.clone());
        let key = self.pools[i];
        let spacing = key.fee_tier.tick_spacing as i32;
        let max = self.profile.max_liquidity_bits;
        let bits = 50.min(max) + src.below(70.min(max.saturating_sub(50)) + 1);
        let more = (bits + 1 + src.below(30)).min(max);
        let tick = self.pool_tick(i);
        let (a, b) = (src.below(8) as i32, 1 + src.below(8) as i32);
        let (lower, upper) = (tick - spacing * a, tick + spacing * b);
        let beyond = spacing * (1 + src.below(8) as i32);
        let x_to_y = src.chance(2, 3);
        let side = if x_to_y { (lower - beyond, lower) } else { (upper, upper + beyond) };
        for ((lower, upper), bits) in [((lower, upper), bits), (side, more)] {
            let (lo, hi) = (MIN_SQRT_PRICE, MAX_SQRT_PRICE);
            let liquidity = U256::one() << bits as usize;
            self.planned.push_back(Plan::Op(Op::CreatePosition { by, key, lower, upper, liquidity, lo, hi }));
        }
        self.planned.push_back(Plan::OntoTick(i, x_to_y));
    }

    /// Positions one next to the other, tens of them, and trades across most of their ticks and back.
    pub fn plan_ladder(&mut self, src: &mut Src, i: usize) {
        let key = self.pools[i];
        let s = key.fee_tier.tick_spacing as i32;
        let most = if src.chance(1, 4) { 90 } else { 30 };
        let steps = 8 + src.below(most) as i32;
        let stride = 1 + src.below(3) as i32;
        let bits = (30 + src.below(50)).min(self.profile.max_liquidity_bits);
        let tick = self.pool_tick(i).div_euclid(s) * s;
        let up = src.bool();
        for k in 0..steps {
            let by = *src.pick(&self.users.clone());
            let k = if up { k } else { -k - 1 };
            let lower = tick + k * stride * s;
            let upper = lower + stride * s * (1 + src.below(3) as i32);
            let liquidity = (U256::one() << bits as usize) + U256::from(src.below(1 << 20));
            let (lo, hi) = (MIN_SQRT_PRICE, MAX_SQRT_PRICE);
            self.planned.push_back(Plan::Op(Op::CreatePosition { by, key, lower, upper, liquidity, lo, hi }));
        }
        let hops = steps as usize * 3 / 4 + src.usize(steps as usize / 4 + 1);
        self.planned.push_back(Plan::Sweep(i, !up, hops));
        self.planned.push_back(Plan::Sweep(i, up, hops));
    }

    /// Someone with little or nothing of any token gets some of one and sells it all.
    fn plan_spend(&mut self, src: &mut Src, i: usize) {
        let by = penniless();
        let key = self.pools[i];
        let x_to_y = src.bool();
        let (sold, bought) = if x_to_y { (key.token_x, key.token_y) } else { (key.token_y, key.token_x) };
        let s = self.pool_state(i);
        let amount = self.gen_swap_amount(src, &s, x_to_y, true).min(U256::one() << 200);
        for token in self.tokens.clone() {
            if token != sold && (token != bought || src.bool()) && src.bool() {
                let amount = U256::from(1 + src.below(3));
                self.planned.push_back(Plan::Op(Op::Deposit { by, token, amount }));
            }
        }
        self.planned.push_back(Plan::Op(Op::Deposit { by, token: sold, amount }));
        self.planned.push_back(Plan::SpendAll(i, x_to_y));
        if src.bool() {
            self.planned.push_back(Plan::Op(Op::Withdraw { by, token: bought, amount: None }));
        }
    }

    pub fn gen_op(&mut self, src: &mut Src) -> Op {
        if self.planned.is_empty() && self.profile.swap > 0 && !self.pools.is_empty() && src.chance(1, 80) {
            let i = src.usize(self.pools.len());
            self.plan_spend(src, i);
        }
        if self.planned.is_empty() && self.profile.create_position > 0 && self.profile.swap > 0 && !self.pools.is_empty() && src.chance(1, 60) {
            let i = src.usize(self.pools.len());
            self.plan_neighbours(src, i);
        }
        match self.planned.pop_front() {
            Some(Plan::Op(op)) => return op,
            Some(Plan::OntoTick(i, x_to_y)) => {
                let (by, key, s) = (*src.pick(&self.users.clone()), self.pools[i], self.pool_state(i));
                let exact_in = src.bool();
                let amount = self.swap_amount_to(src, &s, x_to_y, exact_in, 1, 4);
                let limit = if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
                return Op::Swap { by, key, x_to_y, amount, exact_in, limit };
            }
            Some(Plan::Sweep(i, x_to_y, hops)) => {
                let (by, key, s) = (*src.pick(&self.users.clone()), self.pools[i], self.pool_state(i));
                let exact_in = src.bool();
                let amount = self.swap_amount_to(src, &s, x_to_y, exact_in, hops, 2);
                let limit = if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
                return Op::Swap { by, key, x_to_y, amount, exact_in, limit };
            }
            Some(Plan::SpendAll(i, x_to_y)) => {
                let (by, key) = (penniless(), self.pools[i]);
                self.w.block();
                let sold = if x_to_y { key.token_x } else { key.token_y };
                let amount = self.w.program().service().get_user_balances(by).into_iter().find(|b| b.0 == sold).map_or(U256::one(), |b| b.1 .0);
                let limit = if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
                return Op::Swap { by, key, x_to_y, amount, exact_in: true, limit };
            }
            None => {}
        }
        let p = self.profile.clone();
        let weights = [
            p.swap,
            p.create_position,
            p.remove,
            p.claim,
            p.advance,
            p.transfer,
            p.route,
            p.withdraw_protocol,
            p.set_fee,
            p.tiers,
            p.receiver,
            p.deposit,
            p.withdraw,
            p.create_pool,
        ];
        let kind = src.weighted(&weights);
        let by = *src.pick(&self.users.clone());
        let admin = self.w.admin;
        let maybe_admin = |src: &mut Src| if src.chance(1, 6) { by } else { admin };
        if self.pools.is_empty() {
            return Op::Advance { blocks: 1, millis: 1 };
        }
        let i = src.usize(self.pools.len());
        let key = self.pools[i];
        match kind {
            0 => self.gen_swap(src, i),
            1 => self.gen_position(src, i),
            2 | 3 | 5 => {
                let len = self.positions_of(&by) as u64;
                let index = if src.chance(p.wrong, 32) || len == 0 { len as u32 } else { src.below(len) as u32 };
                match kind {
                    2 => Op::RemovePosition { by, index },
                    3 => Op::ClaimFee { by, index },
                    _ => {
                        let to = *src.pick(&self.users.clone());
                        Op::TransferPosition { by, index, to }
                    }
                }
            }
            4 => {
                // sometimes months or years, seldom ages
                let millis = match src.below(16) {
                    0 => 1 + src.below(1 << 45),
                    1 | 2 => 1 + src.below(1 << 36),
                    _ => 1 + src.below(1 << 20),
                };
                let blocks = if millis >> 20 == 0 { 1 + src.below(3) as u32 } else { 1 + src.below(1 << 24) as u32 };
                Op::Advance { blocks, millis }
            }
            6 => {
                let len = 1 + src.usize(3);
                let mut hops = vec![];
                for _ in 0..len {
                    hops.push((*src.pick(&self.pools.clone()), src.bool()));
                }
                let bits = self.liq_bits;
                let amount = scaled_u256(src, bits);
                Op::SwapRoute { by, amount, expected: U256::zero(), slippage: 0, hops }
            }
            7 => {
                let receiver = self.fee_receiver(i);
                let by = if p.roles {
                    // only users and the administrator send messages
                    let other = src.chance(1, 3);
                    let able = receiver == admin || self.users.contains(&receiver);
                    if !other && able {
                        receiver
                    } else if src.bool() {
                        admin
                    } else {
                        by
                    }
                } else if src.chance(1, 6) {
                    by
                } else {
                    receiver
                };
                Op::WithdrawProtocolFee { by, key }
            }
            8 => Op::SetProtocolFee { by: maybe_admin(src), fee: random_protocol_fee(src) },
            9 => {
                let by = maybe_admin(src);
                if src.bool() {
                    let tier = random_tier(src);
                    if !self.tiers.contains(&tier) && self.tiers.len() < 5 {
                        self.tiers.push(tier);
                    }
                    Op::AddTier { by, tier }
                } else {
                    Op::RemoveTier { by, tier: *src.pick(&self.tiers.clone()) }
                }
            }
            10 => {
                let to = *src.pick(&self.users.clone());
                if !p.roles || src.bool() {
                    return Op::SetFeeReceiver { by: maybe_admin(src), key, to };
                }
                let odd = [admin, ActorId::zero(), program_id(), key.token_x, key.token_y, by];
                let to = *src.pick(&odd);
                let receiver = self.fee_receiver(i);
                let by = if self.users.contains(&receiver) && src.chance(1, 3) { receiver } else { maybe_admin(src) };
                Op::SetFeeReceiver { by, key, to }
            }
            11 => Op::Deposit { by, token: *src.pick(&self.tokens.clone()), amount: scaled_u256(src, self.liq_bits) },
            12 => {
                let token = *src.pick(&self.tokens.clone());
                let bits = self.liq_bits;
                let amount = Some(scaled_u256(src, bits));
                Op::Withdraw { by, token, amount }
            }
            _ => {
                let a = src.usize(self.tokens.len());
                let b = (a + 1 + src.usize(self.tokens.len() - 1)) % self.tokens.len();
                let tier = *src.pick(&self.tiers.clone());
                let tick = random_tick(src, tier.tick_spacing);
                let price = random_price_in_tick(src, tick, tier.tick_spacing);
                Op::CreatePool { by, a: self.tokens[a], b: self.tokens[b], tier, price, tick }
            }
        }
    }

    pub fn fee_receiver(&self, i: usize) -> ActorId {
        let k = self.pools[i];
        self.w.block();
        self.w.program().service().get_pool(k.token_x, k.token_y, k.fee_tier).expect("pool").fee_receiver
    }

    /// Tens of fee tiers, and pools of one pair for most of them.
    pub fn many_tiers(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let (a, b) = (self.tokens[0], self.tokens[1]);
        let admin = self.w.admin;
        for _ in 0..8 + src.below(30) {
            let tier = random_tier(src);
            if self.apply(&Op::AddTier { by: admin, tier }, ctx).is_ok() {
                self.tiers.push(tier);
            }
            let tick = random_tick(src, tier.tick_spacing);
            let price = random_price_in_tick(src, tick, tier.tick_spacing);
            if src.chance(7, 8) {
                let _ = self.apply(&Op::CreatePool { by: admin, a, b, tier, price, tick }, ctx);
            }
        }
    }

    /// `count` small positions of the first user, in all pools; those that were opened.
    pub fn crowd(&mut self, src: &mut Src, count: u64, ctx: &mut Ctx) -> Vec<Op> {
        let mut opened = vec![];
        let by = self.users[0];
        for i in 0..count {
            if self.pools.is_empty() {
                break;
            }
            let key = self.pools[src.usize(self.pools.len())];
            let s = key.fee_tier.tick_spacing as i32;
            let op = Op::CreatePosition { by, key, lower: -s * (1 + i as i32 % 7), upper: s, liquidity: U256::from(1 + i), lo: MIN_SQRT_PRICE, hi: MAX_SQRT_PRICE };
            if self.apply(&op, ctx).is_ok() {
                opened.push(op);
            }
        }
        opened
    }

    /// Positions that begin and end in many words of a pool's tick map, about the current tick.
    pub fn spread(&mut self, src: &mut Src, i: usize, count: u64, ctx: &mut Ctx) {
        let s = self.pools[i].fee_tier.tick_spacing as i32;
        let now = self.pool_state(i).pool.current_tick_index / s;
        let edge = MAX_TICK / s;
        let near = |src: &mut Src| (now + (src.below(2 * count + 1) as i32 - count as i32) * 32 + src.below(64) as i32 - 32).clamp(-edge, edge) * s;
        for _ in 0..count {
            let (a, b) = (near(src), near(src));
            let mut op = self.gen_position(src, i);
            if let Op::CreatePosition { lower, upper, .. } = &mut op {
                (*lower, *upper) = (a.min(b), a.max(b));
            }
            let _ = self.apply(&op, ctx);
        }
    }

    pub fn initial_positions(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let (lo, hi) = self.profile.initial_positions;
        for i in 0..self.pools.len() {
            let k = lo + src.below(hi - lo + 1);
            for _ in 0..k {
                let op = self.gen_position(src, i);
                let _ = self.apply(&op, ctx);
            }
        }
    }
}
