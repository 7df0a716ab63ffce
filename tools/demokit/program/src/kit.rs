//! Short ways to the entry points of the program.
pub use crate::world::*;
pub use contracts::*;
pub use decimal::*;
pub use io::*;
pub use math::fee_growth::FeeGrowth;
pub use math::liquidity::Liquidity;
pub use math::clamm::*;
pub use math::percentage::Percentage;
pub use math::sqrt_price::*;
pub use math::token_amount::TokenAmount;
pub use sails_rs::{ActorId, Encode, Decode};
pub use sails_rs::U256;

pub const X: u8 = 0x11;
pub const Y: u8 = 0x22;
pub const Z: u8 = 0x33;

pub fn id(n: u8) -> ActorId {
    ActorId::from([n; 32])
}
pub fn price(tick: i32) -> SqrtPrice {
    calculate_sqrt_price(tick).unwrap()
}
pub fn lowest() -> SqrtPrice {
    price(-221_818)
}
pub fn highest() -> SqrtPrice {
    price(221_818)
}
pub fn amount(v: u128) -> TokenAmount {
    TokenAmount::new(U256::from(v))
}
pub fn liq(v: u128) -> Liquidity {
    Liquidity::new(U256::from(v) * U256::from(100_000u32))
}
pub fn key(a: u8, b: u8, t: FeeTier) -> PoolKey {
    PoolKey::new(id(a), id(b), t).unwrap()
}
/// Fee in millionths.
pub fn tier(fee: u128, spacing: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee * 1_000_000), tick_spacing: spacing }
}

impl World {
    pub fn with_pool(&mut self, a: u8, b: u8, t: FeeTier, tick: i32) -> PoolKey {
        let admin = self.admin;
        let _ = self.call::<FeeTier>(admin, "AddFeeTier", t);
        self.call::<()>(admin, "CreatePool", (id(a), id(b), t, price(tick), tick)).expect("pool");
        key(a, b, t)
    }
    pub fn rich(&mut self, who: u8) {
        for t in [X, Y, Z] {
            self.deposit(id(who), id(t), U256::from(1u128 << 100)).expect("deposit");
        }
    }
    pub fn open(&mut self, who: u8, k: PoolKey, lower: i32, upper: i32, l: Liquidity) -> Result<Position, Refusal> {
        self.call(id(who), "CreatePosition", (k, lower, upper, l, lowest(), highest()))
    }
    pub fn close(&mut self, who: u8, index: u32) -> Result<(TokenAmount, TokenAmount), Refusal> {
        self.call(id(who), "RemovePosition", index)
    }
    pub fn claim(&mut self, who: u8, index: u32) -> Result<(TokenAmount, TokenAmount), Refusal> {
        self.call(id(who), "ClaimFee", index)
    }
    pub fn swap(&mut self, who: u8, k: PoolKey, x_to_y: bool, v: u128, exact_in: bool, limit: SqrtPrice) -> Result<CalculateSwapResult, Refusal> {
        self.call(id(who), "Swap", (k, x_to_y, amount(v), exact_in, limit))
    }
    pub fn sell(&mut self, who: u8, k: PoolKey, x_to_y: bool, v: u128) -> Result<CalculateSwapResult, Refusal> {
        self.swap(who, k, x_to_y, v, true, if x_to_y { lowest() } else { highest() })
    }
    pub fn pool(&mut self, k: PoolKey) -> Pool {
        self.call::<Result<Pool, InvariantError>>(id(9), "GetPool", (k.token_x, k.token_y, k.fee_tier)).unwrap().unwrap()
    }
    pub fn tick(&mut self, k: PoolKey, t: i32) -> Option<Tick> {
        self.call::<Result<Tick, InvariantError>>(id(9), "GetTick", (k, t)).unwrap().ok()
    }
    pub fn has(&mut self, who: u8, token: u8) -> u128 {
        let l: Vec<(ActorId, TokenAmount)> = self.call(id(9), "GetUserBalances", id(who)).unwrap();
        l.iter().find(|(t, _)| *t == id(token)).map_or(0, |(_, v)| v.get().as_u128())
    }
    pub fn list(&mut self, who: u8) -> Vec<Position> {
        self.call(id(9), "GetAllPositions", id(who)).unwrap()
    }
}
