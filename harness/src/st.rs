//! The observable state of the program, read through its queries.

use crate::refamm::{RefTick, View};
use crate::refmath::nu;
use crate::world::World;
use contracts::{FeeTier, Pool, PoolKey, Position, Tick, CHUNK_SIZE};
use math::MAX_TICK;
use sails_rs::{ActorId, U256};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct PoolSt {
    pub key: PoolKey,
    pub pool: Pool,
    /// Initialized ticks by the tickmap.
    pub bits: BTreeSet<i32>,
    /// Tick records among the initialized ticks and every index the case has used.
    pub ticks: BTreeMap<i32, Tick>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub protocol_fee: u128,
    pub tiers: Vec<FeeTier>,
    pub pools: Vec<PoolSt>,
    pub positions: BTreeMap<ActorId, Vec<Position>>,
    pub balances: BTreeMap<ActorId, BTreeMap<ActorId, U256>>,
}

/// What the case has touched: where to look.
#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub users: BTreeSet<ActorId>,
    pub ticks: BTreeSet<(usize, i32)>,
}

/// Ticks of a tickmap, as the documented layout has them: bit `b` of chunk `c` is the tick
/// `(c * 64 + b) * spacing - floor(MAX_TICK / spacing) * spacing`.
pub fn bits_to_ticks(map: &[(u16, u64)], spacing: u16) -> BTreeSet<i32> {
    let s = spacing as i32;
    let mut out = BTreeSet::new();
    for (chunk, bits) in map {
        for b in 0..CHUNK_SIZE {
            if bits >> b & 1 == 1 {
                out.insert((*chunk as i32 * CHUNK_SIZE + b) * s - MAX_TICK / s * s);
            }
        }
    }
    out
}

pub fn read_pool(w: &World, key: PoolKey, extra: impl Iterator<Item = i32>) -> PoolSt {
    let s = w.program().service();
    let pool = s.get_pool(key.token_x, key.token_y, key.fee_tier).expect("pool of a listed key");
    let bits = bits_to_ticks(&s.get_tickmap(key), key.fee_tier.tick_spacing);
    let mut ticks = BTreeMap::new();
    for i in bits.iter().copied().chain(extra) {
        if let Ok(t) = s.get_tick(key, i) {
            ticks.insert(i, t);
        }
    }
    PoolSt { key, pool, bits, ticks }
}

pub fn read(w: &World, scope: &Scope) -> St {
    w.block();
    let s = w.program().service();
    let (keys, _) = s.get_pool_keys(u16::MAX, 0);
    let pools = keys
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let extra = scope.ticks.range((i, i32::MIN)..=(i, i32::MAX)).map(|(_, t)| *t);
            read_pool(w, *k, extra)
        })
        .collect();
    St {
        protocol_fee: s.get_protocol_fee().0,
        tiers: s.get_fee_tiers(),
        pools,
        positions: scope
            .users
            .iter()
            .map(|u| (*u, s.get_all_positions(*u)))
            .filter(|(_, p)| !p.is_empty())
            .collect(),
        balances: scope
            .users
            .iter()
            .map(|u| {
                let b = s.get_user_balances(*u).into_iter().map(|(t, a)| (t, a.0)).filter(|(_, a)| !a.is_zero());
                (*u, b.collect::<BTreeMap<_, _>>())
            })
            .filter(|(_, b)| !b.is_empty())
            .collect(),
    }
}

impl St {
    pub fn balance(&self, u: &ActorId, t: &ActorId) -> U256 {
        self.balances.get(u).and_then(|b| b.get(t)).copied().unwrap_or_default()
    }
    pub fn pool(&self, k: &PoolKey) -> Option<&PoolSt> {
        self.pools.iter().find(|p| p.key == *k)
    }
    pub fn positions_of_pool<'a>(&'a self, k: &'a PoolKey) -> impl Iterator<Item = (&'a ActorId, usize, &'a Position)> {
        self.positions
            .iter()
            .flat_map(|(u, ps)| ps.iter().enumerate().map(move |(i, p)| (u, i, p)))
            .filter(move |(_, _, p)| p.pool_key == *k)
    }
}

impl PoolSt {
    /// The pool as plain numbers, for the reference.
    pub fn view(&self) -> View {
        View {
            spacing: self.key.fee_tier.tick_spacing,
            fee: self.key.fee_tier.fee.0,
            price: self.pool.sqrt_price.0,
            tick: self.pool.current_tick_index,
            liquidity: nu(self.pool.liquidity.0),
            gx: self.pool.fee_growth_global_x.0,
            gy: self.pool.fee_growth_global_y.0,
            px: nu(self.pool.fee_protocol_token_x.0),
            py: nu(self.pool.fee_protocol_token_y.0),
            start: self.pool.start_timestamp,
            bits: self.bits.clone(),
            ticks: self
                .ticks
                .iter()
                .map(|(i, t)| {
                    (
                        *i,
                        RefTick {
                            up: t.sign,
                            change: nu(t.liquidity_change.0),
                            fx: t.fee_growth_outside_x.0,
                            fy: t.fee_growth_outside_y.0,
                            seconds: t.seconds_outside,
                        },
                    )
                })
                .collect(),
        }
    }
}
