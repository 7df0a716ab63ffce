//! The project's own token (extended-vft), over a stand-in for the standard token it extends.

use crate::engine::*;
use crate::ensure;
use crate::world::{actor, short, user};
use gsys::host;
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "E01",
        run: e01,
        quick: 60_000,
        thorough: 2_000_000,
        rule: "a case is a history of up to 24 messages to the token (mints, burns, roles given and taken, transfers, approvals, failures switched on and off, from anybody), every view after each; non-trivial: a role given or taken made a difference to a later mint, burn or administration, and tokens were minted and burned",
        assumptions: &["the standard token the project's token extends (vft-service) is not in the offline cache: a stand-in of it is used"],
        exhaustive: None,
    }]
}

#[derive(Clone, Debug, PartialEq)]
enum Heard {
    Minted(ActorId, U256),
    Burned(ActorId, U256),
}

thread_local! {
    static HEARD: RefCell<Vec<Heard>> = const { RefCell::new(vec![]) };
}

type Meta = (String, String, u8);

macro_rules! token {
    ($module:ident, $name:ident) => {
        mod $module {
            use super::*;
            use std::mem::discriminant;
            static mut PROGRAM: Option<&'static $name::Program> = None;

            pub fn seed(by: ActorId, meta: &Meta) {
                context(by, vec![]);
                let p = $name::Program::new(meta.0.clone(), meta.1.clone(), meta.2);
                unsafe { PROGRAM = Some(Box::leak(Box::new(p))) };
            }

            pub fn send(by: ActorId, payload: Vec<u8>) -> Result<Vec<u8>, String> {
                context(by, payload);
                HEARD.with(|h| h.borrow_mut().clear());
                let r = catch_unwind(AssertUnwindSafe(|| {
                    gstd::message_loop(async move {
                        let input = gstd::msg::load_bytes().expect("payload");
                        let route = "Vft".encode();
                        let body = input.strip_prefix(&route[..]).expect("Unexpected service").to_vec();
                        let mut vft = unsafe { PROGRAM }.expect("seeded").vft();
                        let out = {
                            let _guard = vft.set_event_listener(|e| {
                                // told by their encoding: the type is not public
                                let b = e.encode();
                                let _ = discriminant(e);
                                let (to, value) = <(ActorId, U256)>::decode(&mut &b[1..]).expect("event");
                                HEARD.with(|h| h.borrow_mut().push(if b[0] == 0 { Heard::Minted(to, value) } else { Heard::Burned(to, value) }));
                            });
                            vft.handle(&body).await
                        };
                        gstd::msg::reply_bytes([route, out].concat(), 0).expect("reply");
                    });
                }));
                let replies = host::with(|h| std::mem::take(&mut h.replies));
                match r {
                    Ok(()) => Ok(replies.into_iter().next().map(|r| r.0).unwrap_or_default()),
                    Err(e) => {
                        let id = host::with(|h| h.id);
                        host::with(|h| h.signal_from = Some(id));
                        let _ = catch_unwind(AssertUnwindSafe(gstd::handle_signal));
                        host::with(|h| h.clear_effects());
                        Err(panic_text(e))
                    }
                }
            }
        }
    };
}
token!(full, token_app);
token!(plain, token_app_plain);

fn context(by: ActorId, payload: Vec<u8>) {
    host::with(|h| {
        let next_id = h.next_id;
        *h = host::Host { program: [0xBB; 32], next_id, source: by.into(), payload, gas: u64::MAX / 4, timestamp: 1_000_000, height: 1, ..Default::default() };
        h.id = h.fresh_id();
    });
}

#[derive(Clone, Debug)]
enum Op {
    Mint(ActorId, U256),
    Burn(ActorId, U256),
    Transfer(ActorId, U256),
    TransferFrom(ActorId, ActorId, U256),
    Approve(ActorId, U256),
    /// role, given or taken, whose
    Role(usize, bool, ActorId),
    Fail(bool),
}
use Op::*;

const GRANT: [&str; 3] = ["GrantAdminRole", "GrantMinterRole", "GrantBurnerRole"];
const REVOKE: [&str; 3] = ["RevokeAdminRole", "RevokeMinterRole", "RevokeBurnerRole"];
const LIST: [&str; 3] = ["Admins", "Minters", "Burners"];

impl Op {
    fn method(&self) -> &'static str {
        match self {
            Mint(..) => "Mint",
            Burn(..) => "Burn",
            Transfer(..) => "Transfer",
            TransferFrom(..) => "TransferFrom",
            Approve(..) => "Approve",
            Role(r, true, _) => GRANT[*r],
            Role(r, false, _) => REVOKE[*r],
            Fail(_) => "SetTransferFail",
        }
    }
    fn args(&self) -> Vec<u8> {
        match self {
            Mint(a, v) | Burn(a, v) | Transfer(a, v) | Approve(a, v) => (a, v).encode(),
            TransferFrom(a, b, v) => (a, b, v).encode(),
            Role(_, _, a) => a.encode(),
            Fail(f) => f.encode(),
        }
    }
    fn payload(&self) -> Vec<u8> {
        [("Vft", self.method()).encode(), self.args()].concat()
    }
}

#[derive(Clone, Default)]
struct Model {
    balances: BTreeMap<ActorId, U256>,
    allowances: BTreeMap<(ActorId, ActorId), U256>,
    supply: U256,
    roles: [BTreeSet<ActorId>; 3],
    fails: bool,
    /// Without the feature for tests the failures cannot be switched on.
    plain: bool,
}

impl Model {
    fn balance(&self, a: &ActorId) -> U256 {
        self.balances.get(a).copied().unwrap_or_default()
    }
    fn allowance(&self, a: &ActorId, b: &ActorId) -> U256 {
        self.allowances.get(&(*a, *b)).copied().unwrap_or_default()
    }
    fn moves(&mut self, from: &ActorId, to: &ActorId, v: U256) -> Option<bool> {
        if from == to || v.is_zero() {
            return Some(false);
        }
        let left = self.balance(from).checked_sub(v)?;
        let sum = self.balance(to).checked_add(v)?;
        self.balances.insert(*from, left);
        self.balances.insert(*to, sum);
        Some(true)
    }

    /// The reply and the event, or nothing where the message is refused.
    fn apply(&mut self, by: &ActorId, op: &Op) -> Option<(Vec<u8>, Option<Heard>)> {
        let is = |m: &Model, r: usize| m.roles[r].contains(by).then_some(());
        Some(match op {
            Mint(to, v) => {
                is(self, 1)?;
                if v.is_zero() {
                    return Some((false.encode(), None));
                }
                self.supply = self.supply.checked_add(*v)?;
                *self.balances.entry(*to).or_default() += *v;
                (true.encode(), Some(Heard::Minted(*to, *v)))
            }
            Burn(from, v) => {
                is(self, 2)?;
                if v.is_zero() {
                    return Some((false.encode(), None));
                }
                let left = self.balance(from).checked_sub(*v)?;
                self.balances.insert(*from, left);
                self.supply -= *v;
                (true.encode(), Some(Heard::Burned(*from, *v)))
            }
            Transfer(to, v) => {
                (!self.fails).then_some(())?;
                (self.moves(by, to, *v)?.encode(), None)
            }
            TransferFrom(from, to, v) => {
                (!self.fails).then_some(())?;
                if by == from {
                    return Some((self.moves(by, to, *v)?.encode(), None));
                }
                if from == to || v.is_zero() {
                    return Some((false.encode(), None));
                }
                let left = self.allowance(from, by).checked_sub(*v)?;
                let moved = self.moves(from, to, *v)?;
                self.allowances.insert((*from, *by), left);
                (moved.encode(), None)
            }
            Approve(to, v) => {
                let had = self.allowance(by, to);
                if by == to {
                    return Some((false.encode(), None));
                }
                self.allowances.insert((*by, *to), *v);
                ((had != *v).encode(), None)
            }
            Role(r, give, who) => {
                is(self, 0)?;
                if *give {
                    self.roles[*r].insert(*who);
                } else {
                    self.roles[*r].remove(who);
                }
                (vec![], None)
            }
            Fail(f) => {
                if !self.plain {
                    is(self, 0)?;
                    self.fails = *f;
                }
                (vec![], None)
            }
        })
    }
}

fn e01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let plain = src.chance(1, 6);
    let send: fn(ActorId, Vec<u8>) -> Result<Vec<u8>, String> = if plain { plain::send } else { full::send };
    let seed: fn(ActorId, &Meta) = if plain { plain::seed } else { full::seed };
    let users: Vec<ActorId> = (0..2 + src.below(4) as u8).map(user).chain([actor([0; 32])]).collect();
    let by = users[0];
    let text = |src: &mut Src| (0..src.below(5)).map(|_| *src.pick(&['A', 'z', ' ', 'Ł', '0'])).collect::<String>();
    let meta: Meta = (text(src), text(src), src.below(256) as u8);
    seed(by, &meta);
    let one: BTreeSet<ActorId> = [by].into();
    let mut m = Model { roles: [one.clone(), one.clone(), one], plain, ..Default::default() };
    check(&m, &users, &meta, send)?;
    let mut done: Vec<(ActorId, Op)> = vec![];
    let mut changed: BTreeSet<(usize, ActorId)> = BTreeSet::new();
    let (mut mattered, mut minted, mut burned) = (false, false, false);
    let bits = *src.pick(&[8u64, 64, 128, 255, 256]);
    for _ in 0..4 + src.below(21) {
        let who = *src.pick(&users);
        let other = *src.pick(&users);
        let third = *src.pick(&users);
        let kind = src.weighted(&[6, 4, 3, 3, 2, 6, 1]);
        // mostly from somebody who may
        let role = match kind {
            0 => Some(1),
            1 => Some(2),
            5 | 6 => Some(0),
            _ => None,
        };
        let allowed = role.and_then(|r| {
            let list: Vec<ActorId> = m.roles[r].iter().copied().collect();
            (!list.is_empty() && src.chance(3, 4)).then(|| *src.pick(&list))
        });
        // or from somebody who was given or has lost just that role
        let turned: Vec<ActorId> = changed.iter().filter(|c| Some(c.0) == role).map(|c| c.1).collect();
        let who = if !turned.is_empty() && src.chance(1, 2) { *src.pick(&turned) } else { allowed.unwrap_or(who) };
        let amount = |src: &mut Src, near: U256| match src.below(8) {
            0 => U256::zero(),
            1 => near,
            2 => near.checked_add(U256::one()).unwrap_or(near),
            3 => near.checked_sub(U256::one()).unwrap_or(near),
            4 => near / 2,
            5 => U256::MAX,
            _ => crate::hist::scaled_u256(src, bits),
        };
        let op = match kind {
            0 => Mint(other, amount(src, U256::MAX - m.supply)),
            1 => Burn(other, amount(src, m.balance(&other))),
            2 => Transfer(other, amount(src, m.balance(&who))),
            3 => {
                let v = m.allowance(&third, &who).min(m.balance(&third));
                TransferFrom(third, other, amount(src, v))
            }
            4 => Approve(other, amount(src, m.balance(&who))),
            5 => Role(src.usize(3), src.chance(3, 5), other),
            _ => Fail(src.bool()),
        };
        let before = m.clone();
        let want = m.apply(&who, &op);
        if let (Some(r), true) = (role, want.is_some() || role.is_some_and(|r| !before.roles[r].contains(&who))) {
            mattered |= changed.contains(&(r, who)) && !(plain && kind == 6);
        }
        if want.is_none() {
            m = before;
        }
        let got = send(who, op.payload());
        let heard = HEARD.with(|h| std::mem::take(&mut *h.borrow_mut()));
        ctx.evals += 1;
        ctx.log(|| format!("{}: {op:?} => {}", short(&who), got.as_ref().map_or_else(|e| e.clone(), |b| format!("{b:02x?}"))));
        match (&got, &want) {
            (Ok(b), Some((reply, event))) => {
                let full = [("Vft", op.method()).encode(), reply.clone()].concat();
                ensure!(*b == full, "reply", "{op:?} by {} replies {b:02x?} instead of {full:02x?}", short(&who));
                ensure!(heard == event.iter().cloned().collect::<Vec<_>>(), "event", "{op:?} tells {heard:?} instead of {event:?}");
                done.push((who, op.clone()));
                ctx.label(op.method());
                match &op {
                    Mint(_, v) => minted |= !v.is_zero(),
                    Burn(_, v) => burned |= !v.is_zero(),
                    Role(r, _, a) => drop(changed.insert((*r, *a))),
                    _ => {}
                }
            }
            (Err(_), None) => {
                ctx.label("refused");
                // the node takes back what a failed message did: here everything is done once more
                seed(by, &meta);
                for (w, o) in &done {
                    if send(*w, o.payload()).is_err() {
                        return fail("not-repeatable", format!("{o:?} by {} is refused the second time", short(w)));
                    }
                }
            }
            (Ok(b), None) => return fail("accepted", format!("{op:?} by {} is accepted: {b:02x?}", short(&who))),
            (Err(e), Some(_)) => return fail("refused", format!("{op:?} by {} is refused: {e}", short(&who))),
        }
        check(&m, &users, &meta, send)?;
    }
    ctx.nontrivial = mattered && minted && burned;
    Ok(())
}

fn check(m: &Model, users: &[ActorId], meta: &Meta, send: fn(ActorId, Vec<u8>) -> Result<Vec<u8>, String>) -> Res {
    let ask = |method: &str, args: Vec<u8>| -> Result<Vec<u8>, Failure> {
        let route = ("Vft", method).encode();
        match send(users[users.len() - 1], [route.clone(), args].concat()) {
            Ok(b) if b.starts_with(&route) => Ok(b[route.len()..].to_vec()),
            other => fail("view", format!("{method} gives {other:02x?}")),
        }
    };
    let mut sum = Some(U256::zero());
    for u in users {
        let got = ask("BalanceOf", u.encode())?;
        ensure!(got == m.balance(u).encode(), "balance", "the balance of {} is {got:02x?} instead of {}", short(u), m.balance(u));
        sum = sum.and_then(|s| s.checked_add(U256::decode(&mut &got[..]).unwrap()));
        for v in users {
            let got = ask("Allowance", (u, v).encode())?;
            ensure!(got == m.allowance(u, v).encode(), "allowance", "{} lets {} spend {got:02x?}", short(u), short(v));
        }
    }
    let supply = ask("TotalSupply", vec![])?;
    ensure!(supply == m.supply.encode(), "supply", "the supply is {supply:02x?} instead of {}", m.supply);
    ensure!(sum == Some(m.supply), "supply", "the balances add up to {sum:?}, the supply is {}", m.supply);
    for (name, want) in LIST.iter().zip(&m.roles) {
        let got = ask(name, vec![])?;
        let Ok(list) = Vec::<ActorId>::decode(&mut &got[..]) else { return fail("view", format!("{name} gives {got:02x?}")) };
        let set: BTreeSet<ActorId> = list.iter().copied().collect();
        ensure!(set.len() == list.len() && set == *want, "roles", "{name} gives {list:?} instead of {want:?}");
    }
    let told = (ask("Name", vec![])?, ask("Symbol", vec![])?, ask("Decimals", vec![])?);
    ensure!(told == (meta.0.encode(), meta.1.encode(), meta.2.encode()), "meta", "{told:02x?} instead of {meta:?}");
    Ok(())
}
