//! The properties.

pub mod client;
pub mod decimals;
mod drive;
pub mod errors;
pub mod jslib;
pub mod jsnode;
pub mod ledger;
pub mod libs;
pub mod math;
pub mod pool;
pub mod swaps;
pub mod token;
pub mod tokens;
pub mod views;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(pool::properties());
    v.extend(ledger::properties());
    v.extend(swaps::properties());
    v.extend(views::properties());
    v.extend(tokens::properties());
    v.extend(token::properties());
    v.extend(libs::properties());
    v.extend(errors::properties());
    v.extend(client::properties());
    v.extend(jslib::properties());
    v.extend(jsnode::properties());
    v
}
