use crate::utils::{AllowancesMap, BalancesMap, Error, Result};
use sails_rs::prelude::*;

pub fn allowance(allowances: &AllowancesMap, owner: ActorId, spender: ActorId) -> U256 {
    allowances.get(&(owner, spender)).copied().unwrap_or_default()
}

pub fn approve(allowances: &mut AllowancesMap, owner: ActorId, spender: ActorId, value: U256) -> bool {
    if owner == spender {
        return false;
    }
    if value.is_zero() {
        return allowances.remove(&(owner, spender)).is_some();
    }
    allowances.insert((owner, spender), value) != Some(value)
}

pub fn balance_of(balances: &BalancesMap, owner: ActorId) -> U256 {
    balances.get(&owner).copied().unwrap_or_default()
}

pub fn transfer(balances: &mut BalancesMap, from: ActorId, to: ActorId, value: U256) -> Result<bool> {
    if from == to || value.is_zero() {
        return Ok(false);
    }
    let new_from = balance_of(balances, from).checked_sub(value).ok_or(Error::InsufficientBalance)?;
    let new_to = balance_of(balances, to).checked_add(value).ok_or(Error::NumericOverflow)?;
    if new_from.is_zero() {
        balances.remove(&from);
    } else {
        balances.insert(from, new_from);
    }
    balances.insert(to, new_to);
    Ok(true)
}

pub fn transfer_from(
    allowances: &mut AllowancesMap,
    balances: &mut BalancesMap,
    spender: ActorId,
    from: ActorId,
    to: ActorId,
    value: U256,
) -> Result<bool> {
    if spender == from {
        return transfer(balances, from, to, value);
    }
    if from == to || value.is_zero() {
        return Ok(false);
    }
    let new = allowance(allowances, from, spender).checked_sub(value).ok_or(Error::InsufficientAllowance)?;
    transfer(balances, from, to, value)?;
    if new.is_zero() {
        allowances.remove(&(from, spender));
    } else {
        allowances.insert((from, spender), new);
    }
    Ok(true)
}
