//! A stand-in for gear-foundation's `vft-service`, which is not in the offline cache: the standard fungible
//! token, with the interface the project's token extends.
#![no_std]
#![allow(static_mut_refs, clippy::new_without_default)]

use gstd::msg;
use sails_rs::prelude::*;

pub mod funcs;
pub mod utils;
use utils::{panicking, AllowancesMap, BalancesMap};

#[derive(Default)]
pub struct Storage {
    balances: BalancesMap,
    allowances: AllowancesMap,
    name: String,
    symbol: String,
    decimals: u8,
    total_supply: U256,
}

static mut STORAGE: Option<Storage> = None;

impl Storage {
    fn get() -> &'static mut Storage {
        unsafe { STORAGE.as_mut().expect("Storage is not initialized") }
    }
    pub fn balances() -> &'static mut BalancesMap {
        &mut Self::get().balances
    }
    pub fn allowances() -> &'static mut AllowancesMap {
        &mut Self::get().allowances
    }
    pub fn total_supply() -> &'static mut U256 {
        &mut Self::get().total_supply
    }
}

#[derive(Encode, Decode, TypeInfo)]
pub enum Event {
    Approval { owner: ActorId, spender: ActorId, value: U256 },
    Transfer { from: ActorId, to: ActorId, value: U256 },
}

#[derive(Clone)]
pub struct Service(u8);

impl Service {
    pub fn seed(name: String, symbol: String, decimals: u8) -> Self {
        unsafe { STORAGE = Some(Storage { name, symbol, decimals, ..Default::default() }) };
        Self(1)
    }
}

#[service(events = Event)]
impl Service {
    pub fn new() -> Self {
        Self(1)
    }

    pub fn allowance(&self, owner: ActorId, spender: ActorId) -> U256 {
        funcs::allowance(Storage::allowances(), owner, spender)
    }

    pub fn approve(&mut self, spender: ActorId, value: U256) -> bool {
        let owner = ActorId::from(<[u8; 32]>::from(msg::source()));
        let mutated = funcs::approve(Storage::allowances(), owner, spender, value);
        if mutated {
            self.notify_on(Event::Approval { owner, spender, value }).expect("Notification Error");
        }
        mutated
    }

    pub fn balance_of(&self, account: ActorId) -> U256 {
        funcs::balance_of(Storage::balances(), account)
    }

    pub fn decimals(&self) -> u8 {
        Storage::get().decimals
    }

    pub fn name(&self) -> String {
        Storage::get().name.clone()
    }

    pub fn symbol(&self) -> String {
        Storage::get().symbol.clone()
    }

    pub fn total_supply(&self) -> U256 {
        *Storage::total_supply()
    }

    pub fn transfer(&mut self, to: ActorId, value: U256) -> bool {
        let from = ActorId::from(<[u8; 32]>::from(msg::source()));
        let mutated = panicking(|| funcs::transfer(Storage::balances(), from, to, value));
        if mutated {
            self.notify_on(Event::Transfer { from, to, value }).expect("Notification Error");
        }
        mutated
    }

    pub fn transfer_from(&mut self, from: ActorId, to: ActorId, value: U256) -> bool {
        let spender = ActorId::from(<[u8; 32]>::from(msg::source()));
        let mutated = panicking(|| funcs::transfer_from(Storage::allowances(), Storage::balances(), spender, from, to, value));
        if mutated {
            self.notify_on(Event::Transfer { from, to, value }).expect("Notification Error");
        }
        mutated
    }
}
