//! The environment of the program: users, token contracts and the message queue of a node.
//!
//! The real program runs natively. Every call goes in as a message in the wire format of its
//! interface and runs on the Gear runtime library, whose system calls `gsys::host` serves; a
//! message that panics is rolled back, as a node does.

use crate::engine::quiet_panics;
use gsys::host::{self, Exit};
use invariant::verif_hooks;
use invariant::InvariantProgram;
use io::{InvariantConfig, InvariantEvent};
use math::percentage::Percentage;
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Id = [u8; 32];

thread_local! {
    static EVENTS: RefCell<Vec<InvariantEvent>> = const { RefCell::new(Vec::new()) };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Refusal {
    /// The program panicked with this text; the node rolled the message back.
    Panic(String),
    /// The program replied with an error and left (state committed).
    LeftWith(String),
    /// The reply is not what the interface says.
    BadReply(String),
}

impl Refusal {
    /// The `InvariantError` variant, if it is one.
    pub fn error(&self) -> Option<&str> {
        let t = match self {
            Refusal::Panic(t) | Refusal::LeftWith(t) => t,
            _ => return None,
        };
        t.strip_prefix("InvariantError: ")
    }
}

/// A token transfer the program has asked for.
#[derive(Clone, Debug)]
pub struct InFlight {
    pub message: Id,
    pub token: ActorId,
    pub from: ActorId,
    pub to: ActorId,
    pub amount: U256,
    /// The user's message that waits for it.
    pub parent: Id,
    pub sent_at: u32,
    pub gas: Option<u64>,
    pub reply_deposit: u64,
}

#[derive(Clone, Debug)]
struct Pending {
    source: ActorId,
    payload: Vec<u8>,
    route: Vec<u8>,
    deadline: u32,
}

/// What a token contract does with a request.
#[derive(Clone, Debug, PartialEq)]
pub enum TokenDoes {
    /// Moves the tokens and replies true, or panics if the payer has too few (as the standard
    /// implementation does: an error reply with the panic text).
    Obey,
    /// Replies false, nothing moved.
    Decline,
    /// Fails with an error reply of this payload (panic text, out of gas, ...), nothing moved.
    Fail(Vec<u8>, [u8; 4]),
    /// Moves the tokens if it can, but replies something else than the interface says.
    Garble(Vec<u8>),
    /// Replies something else than the interface says, nothing moved.
    GarbleOnly(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ended {
    Done(Result<Vec<u8>, Refusal>),
    Waiting(Id),
}

#[derive(Clone)]
pub struct Gone {
    pub message: Id,
    pub result: Result<Vec<u8>, Refusal>,
}

pub struct World {
    pub now: u64,
    pub height: u32,
    pub admin: ActorId,
    /// token -> holder -> amount: the books of the token contracts.
    pub ledger: BTreeMap<ActorId, BTreeMap<ActorId, U256>>,
    pub in_flight: Vec<InFlight>,
    pending: HashMap<Id, Pending>,
    /// Ended messages that had waited, in order.
    pub gone: Vec<Gone>,
    /// Native value held by the program and paid to users.
    pub vara_held: u128,
    pub vara_paid: BTreeMap<ActorId, u128>,
    /// Events of committed executions since the last `take_events`.
    pub events: Vec<InvariantEvent>,
    pub messages: u64,
    pub gas: u64,
    /// Refuse the n-th message sent by the next execution.
    pub fail_send: Option<usize>,
    prog: &'static InvariantProgram,
}

pub const PROGRAM: Id = [0xEE; 32];

pub fn program_id() -> ActorId {
    ActorId::from(PROGRAM)
}

pub fn actor(bytes: Id) -> ActorId {
    ActorId::from(bytes)
}

pub fn user(n: u8) -> ActorId {
    let mut b = [0u8; 32];
    // differ in single bytes at both ends
    b[0] = 0x10 + (n & 1);
    b[31] = 0x40 + n;
    ActorId::from(b)
}

pub fn short(a: &ActorId) -> String {
    let b: &[u8] = a.as_ref();
    format!("{:02x}..{:02x}", b[0], b[31])
}

static INIT: std::sync::Once = std::sync::Once::new();

impl World {
    pub fn new(protocol_fee: u128) -> World {
        quiet_panics();
        verif_hooks::clear();
        EVENTS.with(|e| e.borrow_mut().clear());
        let admin = ActorId::from([0xAD; 32]);
        host::with(|h| {
            // ids never repeat: the runtime library keeps what it has per message
            let next_id = h.next_id;
            *h = host::Host { program: PROGRAM, next_id, ..Default::default() };
        });
        let prog = InvariantProgram::new(InvariantConfig {
            admin,
            protocol_fee: Percentage(protocol_fee),
        });
        let w = World {
            now: 1_000_000,
            height: 1,
            admin,
            ledger: BTreeMap::new(),
            in_flight: vec![],
            pending: HashMap::new(),
            gone: vec![],
            vara_held: 0,
            vara_paid: BTreeMap::new(),
            events: vec![],
            messages: 0,
            gas: u64::MAX / 4,
            fail_send: None,
            prog: Box::leak(Box::new(prog)),
        };
        w.block();
        w
    }

    /// The context of a query outside any message.
    pub fn block(&self) {
        host::with(|h| {
            h.timestamp = self.now;
            h.height = self.height;
            h.program = PROGRAM;
            h.id = [7; 32];
            h.source = [0x51; 32];
            h.value = 0;
            h.gas = u64::MAX / 4;
            h.payload.clear();
            h.reply_to = None;
            h.signal_from = None;
            h.fail_send = None;
            h.clear_effects();
        });
    }

    /// The queries of the program, typed.
    pub fn program(&self) -> &'static InvariantProgram {
        self.prog
    }

    pub fn take_events(&mut self) -> Vec<InvariantEvent> {
        std::mem::take(&mut self.events)
    }

    pub fn held(&self, token: &ActorId, who: &ActorId) -> U256 {
        self.ledger.get(token).and_then(|l| l.get(who)).copied().unwrap_or_default()
    }

    pub fn mint(&mut self, token: ActorId, who: ActorId, amount: U256) {
        let b = self.ledger.entry(token).or_default().entry(who).or_default();
        *b = b.checked_add(amount).expect("mint");
    }

    fn ledger_move(&mut self, token: &ActorId, from: &ActorId, to: &ActorId, amount: U256) -> bool {
        let have = self.held(token, from);
        let Some(left) = have.checked_sub(amount) else { return false };
        let l = self.ledger.entry(*token).or_default();
        if from != to {
            let Some(sum) = l.get(to).copied().unwrap_or_default().checked_add(amount) else {
                return false;
            };
            l.insert(*from, left);
            l.insert(*to, sum);
        }
        true
    }

    /// Runs the message loop of one message once.
    fn poll(&mut self, id: Id, source: ActorId, value: u128, payload: Vec<u8>, route: &[u8]) -> Ended {
        let snapshot = verif_hooks::snapshot();
        EVENTS.with(|e| e.borrow_mut().clear());
        self.block();
        let gas = self.gas;
        let fail_send = self.fail_send.take();
        host::with(|h| {
            h.id = id;
            h.source = source.into();
            h.value = value;
            h.payload = payload.clone();
            h.gas = gas;
            h.fail_send = fail_send;
        });
        let prog = self.prog;
        let r = catch_unwind(AssertUnwindSafe(|| {
            gstd::message_loop(async move {
                let input = gstd::msg::load_bytes().expect("payload");
                let service_route = "Service".encode();
                let Some(body) = input.strip_prefix(&service_route[..]) else {
                    panic!("Unexpected service")
                };
                let mut service = prog.service();
                let _guard = service
                    .set_event_listener(|e: &InvariantEvent| EVENTS.with(|l| l.borrow_mut().push(e.clone())));
                let out = service.handle(body).await;
                gstd::msg::reply_bytes([service_route, out].concat(), 0).expect("reply");
            });
        }));
        let committed = match &r {
            Ok(()) => true,
            Err(e) => e.is::<Exit>(),
        };
        if !committed {
            verif_hooks::restore(&snapshot);
            EVENTS.with(|e| e.borrow_mut().clear());
            // the node's signal about the failure, which drops the future
            host::with(|h| h.signal_from = Some(id));
            let _ = catch_unwind(AssertUnwindSafe(gstd::handle_signal));
            host::with(|h| h.clear_effects());
            if value > 0 {
                // returned to the sender with the error reply
            }
            self.block();
            return Ended::Done(Err(Refusal::Panic(crate::engine::panic_text(r.unwrap_err()))));
        }
        self.vara_held += value;
        self.commit_sent(id);
        let replies = host::with(|h| std::mem::take(&mut h.replies));
        let out = match r {
            Err(e) if e.downcast_ref::<Exit>() != Some(&Exit::Leave) => {
                let Some(Exit::Wait(d)) = e.downcast_ref::<Exit>().copied() else { unreachable!() };
                self.pending.insert(
                    id,
                    Pending {
                        source,
                        payload,
                        route: route.to_vec(),
                        deadline: self.height + d.unwrap_or(u32::MAX / 2),
                    },
                );
                Ended::Waiting(id)
            }
            other => {
                // `exec::leave()`: the message is done, the future is never polled again
                if other.is_err() {
                    host::with(|h| h.signal_from = Some(id));
                    let _ = catch_unwind(AssertUnwindSafe(gstd::handle_signal));
                }
                let out = match replies.into_iter().next() {
                    None => Err(Refusal::BadReply("no reply".into())),
                    Some((bytes, v)) => {
                        if v > 0 {
                            match self.vara_held.checked_sub(v) {
                                Some(rest) => {
                                    self.vara_held = rest;
                                    *self.vara_paid.entry(source).or_default() += v;
                                }
                                None => {
                                    // the node refuses a reply with value it does not have: the
                                    // message fails
                                    verif_hooks::restore(&snapshot);
                                    self.vara_held -= value.min(self.vara_held);
                                    EVENTS.with(|e| e.borrow_mut().clear());
                                    return Ended::Done(Err(Refusal::Panic(
                                        "reply value exceeds the program's balance".into(),
                                    )));
                                }
                            }
                        }
                        let plain: Vec<u8> = route[..].to_vec();
                        match bytes.strip_prefix(&plain[..]) {
                            Some(b) => Ok(b.to_vec()),
                            None => match contracts::InvariantError::decode(&mut &bytes[..]) {
                                Ok(e) => {
                                    let s: String = e.into();
                                    Err(Refusal::LeftWith(s))
                                }
                                Err(_) => Err(Refusal::BadReply(format!("{bytes:?}"))),
                            },
                        }
                    }
                };
                Ended::Done(out)
            }
        };
        EVENTS.with(|e| self.events.append(&mut e.borrow_mut()));
        self.block();
        out
    }

    fn commit_sent(&mut self, parent: Id) {
        let sent = host::with(|h| std::mem::take(&mut h.sent));
        for m in sent {
            let decoded = <(String, String, Id, Id, U256)>::decode(&mut &m.payload[..]);
            match decoded {
                Ok((s, a, from, to, amount)) if s == "Vft" && a == "TransferFrom" => {
                    self.in_flight.push(InFlight {
                        message: m.id,
                        token: ActorId::from(m.to),
                        from: ActorId::from(from),
                        to: ActorId::from(to),
                        amount,
                        parent,
                        sent_at: self.height,
                        gas: m.gas,
                        reply_deposit: m.reply_deposit,
                    })
                }
                _ => panic!("unexpected message to {:02x?}: {:02x?}", m.to, m.payload),
            }
        }
    }

    fn route(method: &str) -> Vec<u8> {
        ("Service", method).encode()
    }

    /// Sends a message to the program; returns how its first execution ended.
    pub fn send(&mut self, from: ActorId, method: &str, args: Vec<u8>, value: u128) -> Ended {
        let route = Self::route(method);
        let payload = [route.clone(), args].concat();
        self.messages += 1;
        let id = host::with(|h| h.fresh_id());
        self.poll(id, from, value, payload, &route)
    }

    /// A call that does not wait for anything.
    pub fn call<R: Decode>(&mut self, from: ActorId, method: &str, args: impl Encode) -> Result<R, Refusal> {
        self.call_with_value(from, method, args, 0)
    }
    pub fn call_with_value<R: Decode>(
        &mut self,
        from: ActorId,
        method: &str,
        args: impl Encode,
        value: u128,
    ) -> Result<R, Refusal> {
        match self.send(from, method, args.encode(), value) {
            Ended::Done(Ok(b)) => decode_all(&b),
            Ended::Done(Err(e)) => Err(e),
            Ended::Waiting(_) => Err(Refusal::BadReply(format!("{method} waits"))),
        }
    }

    /// Delivers transfer `i` to its token contract and the reply to the program.
    /// Returns whether the tokens moved.
    pub fn deliver(&mut self, i: usize, does: TokenDoes) -> bool {
        let t = self.in_flight.remove(i);
        let obey = |w: &mut World| w.ledger_move(&t.token, &t.from, &t.to, t.amount);
        let success_code = [0, 1, 0, 0];
        let panic_code = [1, 0, 1, 0];
        let (moved, payload, code) = match does {
            TokenDoes::Obey => {
                if obey(self) {
                    (true, ("Vft", "TransferFrom", true).encode(), success_code)
                } else {
                    (
                        false,
                        b"panicked with 'InsufficientBalance'".to_vec(),
                        panic_code,
                    )
                }
            }
            TokenDoes::Decline => (false, ("Vft", "TransferFrom", false).encode(), success_code),
            TokenDoes::Fail(payload, code) => (false, payload, code),
            TokenDoes::Garble(payload) => (obey(self), payload, success_code),
            TokenDoes::GarbleOnly(payload) => (false, payload, success_code),
        };
        self.reply(t.message, t.token, payload, code);
        moved
    }

    /// Delivers a reply to the program and runs what it wakes.
    pub fn reply(&mut self, to_message: Id, from: ActorId, payload: Vec<u8>, code: [u8; 4]) {
        let snapshot = verif_hooks::snapshot();
        self.block();
        self.messages += 1;
        host::with(|h| {
            h.id = h.fresh_id();
            h.source = from.into();
            h.payload = payload;
            h.gas = 10_600_000_000 * 2;
            h.reply_to = Some(to_message);
            h.reply_code = code;
        });
        let r = catch_unwind(AssertUnwindSafe(gstd::handle_reply_with_hook));
        if r.is_err() {
            verif_hooks::restore(&snapshot);
            host::with(|h| h.clear_effects());
        }
        let woken = host::with(|h| std::mem::take(&mut h.woken));
        self.block();
        for id in woken {
            self.resume(id);
        }
    }

    fn resume(&mut self, id: Id) {
        if let Some(p) = self.pending.remove(&id) {
            match self.poll(id, p.source, 0, p.payload, &p.route) {
                Ended::Waiting(_) => {}
                Ended::Done(result) => self.gone.push(Gone { message: id, result }),
            }
        }
    }

    /// Time passes; messages that waited too long are woken.
    pub fn advance(&mut self, blocks: u32, millis: u64) {
        self.height += blocks;
        self.now += millis;
        self.block();
        let mut late: Vec<Id> =
            self.pending.iter().filter(|(_, p)| p.deadline <= self.height).map(|(i, _)| *i).collect();
        late.sort();
        for id in late {
            self.resume(id);
        }
    }

    pub fn is_waiting(&self, id: &Id) -> bool {
        self.pending.contains_key(id)
    }
    pub fn waiting(&self) -> usize {
        self.pending.len()
    }

    /// A whole deposit with an honest token.
    pub fn deposit(&mut self, who: ActorId, token: ActorId, amount: U256) -> Result<(), Refusal> {
        self.mint(token, who, amount);
        match self.send(who, "DepositSingleToken", (token, amount).encode(), 0) {
            Ended::Done(Err(e)) => Err(e),
            Ended::Done(Ok(_)) => Err(Refusal::BadReply("deposit done without a transfer".into())),
            Ended::Waiting(id) => {
                let i = self.in_flight.iter().position(|t| t.parent == id).expect("transfer");
                self.deliver(i, TokenDoes::Obey);
                let i = self.gone.iter().position(|g| g.message == id).expect("deposit ends");
                self.gone.remove(i).result.map(|_| ())
            }
        }
    }

    /// A whole withdrawal (of everything if `amount` is none) with an honest token.
    pub fn withdraw(&mut self, who: ActorId, token: ActorId, amount: Option<U256>) -> Result<U256, Refusal> {
        match self.send(who, "WithdrawSingleToken", (token, amount).encode(), 0) {
            Ended::Done(r) => r.and_then(|b| decode_all(&b)),
            Ended::Waiting(id) => {
                let i = self.in_flight.iter().position(|t| t.parent == id).expect("transfer");
                self.deliver(i, TokenDoes::Obey);
                let i = self.gone.iter().position(|g| g.message == id).expect("withdrawal ends");
                self.gone.remove(i).result.and_then(|b| decode_all(&b))
            }
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        // forget the futures of messages that still wait
        for (id, _) in self.pending.drain() {
            host::with(|h| h.signal_from = Some(id));
            let _ = catch_unwind(AssertUnwindSafe(gstd::handle_signal));
        }
    }
}

pub fn decode_all<R: Decode>(b: &[u8]) -> Result<R, Refusal> {
    let mut s = b;
    match R::decode(&mut s) {
        Ok(r) if s.is_empty() => Ok(r),
        _ => Err(Refusal::BadReply(format!("{b:02x?}"))),
    }
}
