//! What the TypeScript client does with the chain besides single transactions: events, batches, tokens.

use super::client::{extreme, other_transaction_spec, spec_of, token_does, Spec, STAND_INS};
use crate::client::*;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::world::{program_id, user, Refusal, PROGRAM};
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "T06",
            run: t06,
            quick: 20_000,
            thorough: 500_000,
            rule: "a case is a generated history whose events, with messages that are not events of the program between them, reach a client that registers and drops listeners meanwhile; non-trivial: events of two kinds were heard, one after a listener was dropped",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
        Property {
            id: "T07",
            run: t07,
            quick: 30_000,
            thorough: 400_000,
            rule: "a case is a generated history and batches of up to 8 transactions of the client, some of which the program or a token refuses, or the chain refuses the whole batch; non-trivial: a batch with one transaction that succeeded and one that failed",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
        Property {
            id: "T08",
            run: t08,
            quick: 60_000,
            thorough: 500_000,
            rule: "a case is a sequence of calls of the token client on several tokens (transactions also kept and sent later), against a model of their balances and allowances, and deployments; non-trivial: a transfer of more than nothing succeeded, one was refused, and a kept transaction was sent after a call to another token",
            assumptions: &[STAND_INS, "the token program is a model of the interface (balances, allowances, one administrator); its own code is outside the repository"],
            exhaustive: None,
        },
        Property {
            id: "T10",
            run: t10,
            quick: 40_000,
            thorough: 400_000,
            rule: "a case is a connection to a network, known or not, whose node may fail, a stream of blocks told until it is ended, or a delay; non-trivial: a connection refused by a node after it was made, or a stream ended in its middle",
            assumptions: &[STAND_INS],
            exhaustive: None,
        },
    ]
}

const EVENTS: [&str; 4] = ["PositionCreatedEvent", "PositionRemovedEvent", "CrossTickEvent", "SwapEvent"];

fn t06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let profile = Profile { ops: (4, 16), initial_positions: (2, 5), swap: 40, create_position: 20, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    reset(None)?;
    let mut listeners: BTreeMap<&'static str, Vec<u64>> = BTreeMap::new();
    let mut kinds = std::collections::BTreeSet::new();
    let (mut dropped, mut after) = (false, false);
    // (number, kind of event) of the subscriptions
    let mut subscribed: Vec<(u64, &'static str)> = vec![];
    let mut subscriptions = 99;
    let steps = h.profile.ops.0 + src.below(h.profile.ops.1 - h.profile.ops.0);
    for step in 0..steps {
        for _ in 0..if step == 0 { 4 } else { src.below(3) } {
            let ident = EVENTS[src.usize(4)];
            let callback = src.below(4);
            let list = listeners.entry(ident).or_default();
            if step > 0 && src.chance(2, 5) {
                let one = src.chance(3, 4);
                let mut r = json!({"do": "off", "ident": ident});
                if one {
                    r["callback"] = json!(callback);
                    list.retain(|c| *c != callback);
                } else {
                    list.clear();
                }
                dropped = true;
                ctx.log(|| format!("off {ident} {callback} (one: {one})"));
                request(r, &mut Nobody)?.or_else(|e| fail("off", format!("off({ident}) fails with {e}")))?;
            } else {
                list.push(callback);
                ctx.log(|| format!("on {ident} {callback}"));
                request(json!({"do": "on", "ident": ident, "callback": callback}), &mut Nobody)?.or_else(|e| fail("on", format!("on({ident}) fails with {e}")))?;
            }
        }
        // subscriptions of the program's class
        if step == 0 || src.chance(1, 4) {
            if !subscribed.is_empty() && src.chance(1, 3) {
                let (n, kind) = subscribed.remove(src.usize(subscribed.len()));
                ctx.log(|| format!("unsubscribe {n} ({kind})"));
                request(json!({"do": "unsubscribe", "callback": n}), &mut Nobody)?.or_else(|e| fail("unsubscribe", format!("ending a subscription to {kind} fails with {e}")))?;
            } else {
                let kind = EVENTS[src.usize(4)];
                subscriptions += 1;
                subscribed.push((subscriptions, kind));
                ctx.log(|| format!("subscribe {subscriptions} to {kind}"));
                request(json!({"do": "subscribe", "program": hex(&PROGRAM), "event": kind, "callback": subscriptions}), &mut Nobody)?
                    .or_else(|e| fail("subscribe", format!("subscribing to {kind} fails with {e}")))?;
            }
        }
        let op = match (h.pools.is_empty(), step) {
            (false, 0) => {
                let i = src.usize(h.pools.len());
                h.gen_position(src, i)
            }
            _ => h.gen_op(src),
        };
        let _ = h.apply(&op, ctx);
        for e in h.w.take_events() {
            let payload = event_payload(&e);
            let zero = [0u8; 32];
            // messages that are none of its events
            let mut all = vec![(PROGRAM, zero, payload.clone(), true)];
            for _ in 0..src.below(3) {
                let other: [u8; 32] = (*src.pick(&h.users)).into();
                let renamed = |service: &str, method: &str| [(service, method).encode(), e.encode()[1..].to_vec()].concat();
                let decoy = match src.below(6) {
                    0 => (other, zero, payload.clone(), false),
                    1 => (PROGRAM, other, payload.clone(), false),
                    2 => (PROGRAM, PROGRAM, payload.clone(), false),
                    3 => (PROGRAM, zero, renamed("Vft", event_name(&e)), false),
                    4 => (PROGRAM, zero, renamed("Service", "Swap"), false),
                    _ => (zero, zero, payload.clone(), false),
                };
                let at = src.usize(all.len() + 1);
                all.insert(at, decoy);
            }
            for (source, destination, payload, real) in all {
                let event = json!({"source": hex(&source), "destination": hex(&destination), "payload": hex(&payload), "success": true});
                let got = request(json!({"do": "emit", "event": event}), &mut Nobody)?;
                ctx.evals += 1;
                let want: Vec<Value> = match (real, listeners.get(event_name(&e))) {
                    (true, Some(l)) => l.iter().map(|c| json!([c, e.js()])).collect(),
                    _ => vec![],
                };
                let got = match got {
                    Ok(v) => v,
                    Err(t) => return fail("event-error", format!("a message ({real}) of {} makes the client fail with {t}", event_name(&e))),
                };
                let (got, of_subscriptions): (Vec<Value>, Vec<Value>) = got.as_array().cloned().unwrap_or_default().into_iter().partition(|h| h[0].as_u64() < Some(99));
                let leaves = event_leaves(&e);
                let want_of_subscriptions: Vec<Value> = subscribed.iter().filter(|s| real && s.1 == event_name(&e)).map(|s| json!([s.0, leaves])).collect();
                ensure!(
                    of_subscriptions == want_of_subscriptions,
                    if real { "subscription" } else { "subscription-not-an-event" },
                    "{e:?} from {} to {} is heard by the subscriptions as {of_subscriptions:?}, should be {want_of_subscriptions:?}",
                    hex(&source),
                    hex(&destination)
                );
                ctx.evals += 1;
                let got = json!(got);
                ensure!(
                    got == json!(want),
                    if real { "event" } else { "not-an-event" },
                    "{e:?} from {} to {} is heard as {got}, should be {want:?}",
                    hex(&source),
                    hex(&destination)
                );
                if !want.is_empty() {
                    kinds.insert(event_name(&e));
                    after |= dropped;
                }
            }
        }
    }
    for k in &kinds {
        ctx.label(k);
    }
    ctx.nontrivial = kinds.len() >= 2 && after;
    Ok(())
}

// ---- T07 ----

/// The checks a batch makes of replies that say success: each accepts just the replies of its kind.
fn validators(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (name, kind) = *src.pick(&[
        ("validateInvariantSingleDeposit", 0),
        ("validateInvariantSingleWithdraw", 0),
        ("validateInvariantVaraDeposit", 0),
        ("validateInvariantVaraWithdraw", 0),
        ("validateInvariantPairDeposit", 1),
        ("validateInvariantPairWithdraw", 1),
        ("validateFungibleTokenResponse", 2),
    ]);
    let route = (*src.pick(&["Service", "Vft"]), *src.pick(&["Transfer", "DepositSingleToken", "WithdrawVara", "Approve", "TransferFrom", "Mint", "Burn"]));
    let (a, b) = (scaled_u256(src, 256), scaled_u256(src, 256));
    let yes = src.chance(2, 3);
    let mut payload = match kind {
        0 => (route, a).encode(),
        1 => (route, (a, b)).encode(),
        _ => (route, yes).encode(),
    };
    // a reply that is not all there, or only the text of an error
    let mut good = kind != 2 || yes;
    match src.below(4) {
        0 => {
            let n = 1 + src.usize(if kind == 2 { 1 } else { 32 });
            payload.truncate(payload.len() - n);
            good = false;
        }
        1 => {
            payload = "NotEnoughGasToUpdate".as_bytes().to_vec();
            good = false;
        }
        _ => {}
    }
    let message = json!({"data": {"message": {"payload": {"$b": hex(&payload)}}}});
    let got = request(json!({"do": "lib", "name": name, "args": [message]}), &mut Nobody)?;
    ctx.evals += 1;
    // an exception stops the batch as well as a text does
    let accepted = got == Ok(Value::Null);
    ensure!(accepted == good, name, "{name} of {} gives {got:?}", hex(&payload));
    ctx.label(if good { "reply accepted" } else { "reply not accepted" });
    Ok(())
}

/// The program and a few tokens on one chain.
struct Both<'a, 'b> {
    chain: Chain<'a>,
    tokens: &'b mut Tokens,
    /// Whether the messages, in order, went to a token.
    order: Vec<bool>,
}

impl Asked for Both<'_, '_> {
    fn asked(&mut self, q: &Value) -> Value {
        let message = q["what"] == json!("send_message");
        let to_token = message && actor_of(&q["destination"]).is_some_and(|d| self.tokens.list.contains_key(&d));
        if message {
            self.order.push(to_token);
        }
        if to_token {
            self.tokens.asked(q)
        } else {
            self.chain.asked(q)
        }
    }
}

/// What is expected of one transaction of a batch.
enum Expected {
    Program(Spec),
    /// Method, token, arguments, whether the reply is validated.
    Token(&'static str, ActorId, Vec<u8>, bool),
}

fn t07(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 8) {
        return validators(src, ctx);
    }
    let profile = Profile { ops: (2, 8), initial_positions: (1, 3), deposit: 20, withdraw: 20, swap: 20, create_position: 0, wrong: 3, ..Default::default() };
    let mut h = Hist::new(src, profile, ctx);
    let gas = 1 + src.below(1_000_000_000);
    reset(Some(gas))?;
    h.initial_positions(src, ctx);
    h.w.take_events();
    let token = |src: &mut Src, i: u8| (ActorId::from([0x70 + i; 32]), Token { fails: src.chance(1, 5), ..Default::default() });
    let mut coins = Tokens { list: (0..2).map(|i| token(src, i)).collect(), admin: h.users[0], seen: vec![], deployed: vec![], starts: true };
    let mixed = src.bool();
    for _ in 0..1 + src.below(3) {
        let by = *src.pick(&h.users.clone());
        let mut expected = vec![];
        let mut txs = vec![];
        let mut tokens = vec![];
        let size = src.below(8) + u64::from(src.chance(9, 10));
        for _ in 0..size {
            if mixed && src.chance(1, 3) {
                let coin = *src.pick(&coins.list.keys().copied().collect::<Vec<_>>());
                let (a, b, v) = (*src.pick(&h.users), *src.pick(&h.users), U256::from(src.below(100)));
                let (name, method, args, sent) = match src.below(6) {
                    0 => ("transferTx", "Transfer", vec![id(&b), v.js()], (b, v).encode()),
                    1 => ("transferFromTx", "TransferFrom", vec![id(&a), id(&b), v.js()], (a, b, v).encode()),
                    2 => ("burnTx", "Burn", vec![id(&a), v.js()], (a, v).encode()),
                    3 => ("mintTx", "Mint", vec![id(&a), v.js()], (a, v).encode()),
                    _ => ("approveTx", "Approve", vec![id(&b), v.js()], (b, v).encode()),
                };
                let validate = src.bool();
                let args = [args, vec![id(&coin)]].concat();
                match request(json!({"do": "tx", "on": "token", "name": name, "args": args, "validate": validate}), &mut Nobody)? {
                    Ok(t) => txs.push(t),
                    Err(e) => return fail("refused", format!("{name} fails with {e}")),
                }
                expected.push(Expected::Token(method, coin, sent, validate));
                continue;
            }
            let spec = if src.chance(1, 4) {
                other_transaction_spec(&mut h, src, &by)
            } else {
                let mut op = h.gen_op(src);
                if src.chance(1, 10) {
                    extreme(&mut op, src);
                }
                if let Op::Deposit { token, amount, .. } = &op {
                    if !src.chance(1, 8) && *amount < U256::MAX {
                        h.w.mint(*token, by, *amount);
                    }
                }
                match spec_of(&op, src) {
                    Some(s) => s,
                    None => continue,
                }
            };
            tokens.push(token_does(src));
            tokens.push(token_does(src));
            let made = request(json!({"do": "tx", "name": format!("{}Tx", spec.name), "args": spec.js}), &mut Nobody)?;
            match made {
                Ok(t) => {
                    ensure!(!spec.refuses, "accepted-nonsense", "{}Tx accepted arguments that make no sense", spec.name);
                    txs.push(t);
                    expected.push(Expected::Program(spec));
                }
                Err(e) => ensure!(spec.refuses, "refused", "{}Tx fails with {e}", spec.name),
            }
        }
        let refused = src.chance(1, 12);
        let signer = if src.bool() { id(&by) } else { json!({"addressRaw": {"$b": hex(by.as_ref())}}) };
        let mut chain = Chain::new(&mut h.w);
        chain.tokens = tokens;
        if refused {
            chain.refuse_batch = Some("1010: inability to pay some fees".into());
        }
        coins.seen.clear();
        // what the tokens will answer
        let mut told = coins.clone();
        let mut both = Both { chain, tokens: &mut coins, order: vec![] };
        let got = request(json!({"do": "batch", "txs": txs, "args": [signer]}), &mut both)?;
        let (sent, batches, order) = (both.chain.sent, both.chain.batches, both.order);
        ctx.evals += 1;
        let called = |e: &Expected| match e {
            Expected::Program(s) => s.name,
            Expected::Token(m, ..) => *m,
        };
        ctx.log(|| format!("{:?} => {got:?}", expected.iter().map(called).collect::<Vec<_>>()));
        ensure!(batches == 1, "one-batch", "{} transactions went out in {batches} batches", expected.len());
        if refused {
            ctx.label("batch refused");
            ensure!(order.is_empty(), "refused-but-sent", "a refused batch ran {sent:?}");
            match &got {
                Err(e) if e.contains("inability to pay") => {}
                other => return fail("refused-batch", format!("a refused batch gives {other:?}")),
            }
            continue;
        }
        ensure!(order.len() == expected.len(), "messages", "{} messages for {} transactions", order.len(), expected.len());
        let mut failures = vec![];
        let (mut sent, mut seen) = (sent.iter(), coins.seen.clone().into_iter());
        for (i, (e, to_token)) in expected.iter().zip(&order).enumerate() {
            let spec = match e {
                Expected::Program(spec) => spec,
                Expected::Token(method, coin, args, validate) => {
                    ensure!(*to_token, "destination", "transaction {i} ({method}) did not go to a token");
                    let s = seen.next().expect("as many as there were messages");
                    let want = (method.to_string(), *coin, args.clone(), Some(by), gas.to_string());
                    ensure!(s == want, "message", "transaction {i} sent {s:?} instead of {want:?}");
                    match told.run(coin, method, args, Some(by)) {
                        Ok(r) if *validate && r == [0] => failures.push((i, None)),
                        Ok(_) => {}
                        Err(t) => failures.push((i, Some(t))),
                    }
                    ctx.label("token in the batch");
                    continue;
                }
            };
            ensure!(!to_token, "destination", "transaction {i} ({}) went to a token", spec.name);
            let s = sent.next().expect("as many as there were messages");
            ensure!(s.method == spec.method, "method", "transaction {i} ({}) called {}", spec.name, s.method);
            if let Some(a) = &spec.args {
                ensure!(s.args == *a, "arguments", "transaction {i} ({}) sent {} instead of {}", spec.name, hex(&s.args), hex(a));
            }
            ensure!(s.destination == hex(program_id().as_ref()), "destination", "transaction {i} sent to {}", s.destination);
            ensure!(s.source == by && s.value == spec.value && s.gas == gas.to_string(), "message", "transaction {i} ({}) is {s:?}", spec.name);
            let tokens = spec.name.starts_with("deposit") || spec.name.starts_with("withdraw");
            match &s.result {
                Ok(_) => {}
                Err(Refusal::Panic(t)) => failures.push((i, Some(t.clone()))),
                Err(_) if tokens && spec.name != "withdrawProtocolFee" => failures.push((i, None)),
                // a reply that says success
                Err(_) => {}
            }
        }
        if failures.is_empty() {
            ensure!(got == Ok(json!({"responses": expected.len()})), "batch", "a batch of {} that all succeeded gives {got:?}", expected.len());
        } else {
            let told = match &got {
                Ok(v) => v["failed"]["$m"].as_array().cloned(),
                Err(_) => None,
            };
            let Some(told) = told else { return fail("batch-failures", format!("the batch failed at {failures:?}, it gives {got:?}")) };
            let told_at: Vec<u64> = told.iter().filter_map(|e| e[0].as_u64()).collect();
            let at: Vec<u64> = failures.iter().map(|f| f.0 as u64).collect();
            ensure!(told_at == at, "batch-failures", "the batch failed at {at:?}, it says at {told_at:?}: {told:?}");
            let message = got.as_ref().unwrap()["message"].as_str().unwrap_or("").to_string();
            for ((i, text), t) in failures.iter().zip(&told) {
                let said = t[1].as_str().unwrap_or("");
                ensure!(!said.is_empty(), "batch-error", "transaction {i} failed with nothing said");
                if let Some(text) = text {
                    ensure!(said.contains(text.as_str()), "batch-error", "transaction {i} failed with {text:?}, it says {said:?}");
                }
                ensure!(message.contains(said), "batch-message", "the message {message:?} does not tell {said:?}");
            }
            if failures.len() < expected.len() {
                ctx.nontrivial = true;
                ctx.label("some failed");
            }
        }
        h.w.take_events();
    }
    Ok(())
}

// ---- T08 ----

#[derive(Default, Clone)]
struct Token {
    balances: BTreeMap<ActorId, U256>,
    allowances: BTreeMap<(ActorId, ActorId), U256>,
    supply: U256,
    fails: bool,
    name: String,
    symbol: String,
    decimals: u8,
}

#[derive(Clone)]
struct Tokens {
    list: BTreeMap<ActorId, Token>,
    admin: ActorId,
    /// (method, token, arguments, source, gas) of the messages.
    seen: Vec<(String, ActorId, Vec<u8>, Option<ActorId>, String)>,
    deployed: Vec<Value>,
    starts: bool,
}

impl Tokens {
    fn run(&mut self, token: &ActorId, method: &str, args: &[u8], by: Option<ActorId>) -> Result<Vec<u8>, String> {
        let admin = self.admin;
        let Some(t) = self.list.get_mut(token) else { return Err("no such program".into()) };
        let mut a = args;
        macro_rules! args {
            ($t:ty) => {{
                let v = <$t>::decode(&mut a).map_err(|_| "bad arguments".to_string())?;
                if !a.is_empty() {
                    return Err("too many arguments".into());
                }
                v
            }};
        }
        let get = |t: &Token, u: &ActorId| t.balances.get(u).copied().unwrap_or_default();
        let query = by.is_none();
        Ok(match (method, query) {
            ("BalanceOf", true) => get(t, &args!(ActorId)).encode(),
            ("Allowance", true) => {
                let k = args!((ActorId, ActorId));
                t.allowances.get(&k).copied().unwrap_or_default().encode()
            }
            ("TotalSupply", true) => t.supply.encode(),
            ("Name", true) => t.name.encode(),
            ("Symbol", true) => t.symbol.encode(),
            ("Decimals", true) => t.decimals.encode(),
            ("Approve", false) => {
                let (to, v) = args!((ActorId, U256));
                t.allowances.insert((by.unwrap(), to), v);
                true.encode()
            }
            ("Mint", false) => {
                let (to, v) = args!((ActorId, U256));
                if by != Some(admin) {
                    return Err("NotMinter".into());
                }
                t.supply = t.supply.checked_add(v).ok_or("NumericOverflow")?;
                let b = get(t, &to) + v;
                t.balances.insert(to, b);
                true.encode()
            }
            ("Burn", false) => {
                let (from, v) = args!((ActorId, U256));
                if by != Some(admin) {
                    return Err("NotBurner".into());
                }
                let b = get(t, &from).checked_sub(v).ok_or("InsufficientBalance")?;
                t.balances.insert(from, b);
                t.supply -= v;
                true.encode()
            }
            ("SetTransferFail", false) => {
                let v = args!(bool);
                if by != Some(admin) {
                    return Err("NotAdmin".into());
                }
                t.fails = v;
                vec![]
            }
            ("Transfer", false) | ("TransferFrom", false) => {
                let (from, to, v) = if method == "Transfer" {
                    let (to, v) = args!((ActorId, U256));
                    (by.unwrap(), to, v)
                } else {
                    args!((ActorId, ActorId, U256))
                };
                if t.fails {
                    return Ok(false.encode());
                }
                if by != Some(from) {
                    let k = (from, by.unwrap());
                    let left = t.allowances.get(&k).copied().unwrap_or_default().checked_sub(v).ok_or("InsufficientAllowance")?;
                    if get(t, &from) < v {
                        return Err("InsufficientBalance".into());
                    }
                    t.allowances.insert(k, left);
                }
                let b = get(t, &from).checked_sub(v).ok_or("InsufficientBalance")?;
                t.balances.insert(from, b);
                let b = get(t, &to) + v;
                t.balances.insert(to, b);
                true.encode()
            }
            _ => return Err("no such method".into()),
        })
    }
}

impl Asked for Tokens {
    fn asked(&mut self, q: &Value) -> Value {
        let broken = |t: &str| json!({"refused": t, "error": t});
        if q["what"] == json!("upload_program") || q["what"] == json!("create_program") {
            self.deployed.push(q.clone());
            let payload = if self.starts { "New".encode() } else { "panicked with 'InvalidStart'".as_bytes().to_vec() };
            return json!({"payload": hex(&payload), "success": self.starts, "programId": hex(&PROGRAM)});
        }
        let Some(payload) = q["payload"].as_str().and_then(unhex) else { return broken("no payload") };
        let mut s = &payload[..];
        let Ok((service, method)) = <(String, String)>::decode(&mut s) else { return broken("no route") };
        let Some(token) = actor_of(&q["destination"]) else { return broken("no destination") };
        let query = q["what"] == json!("query");
        let by = if query { None } else { actor_of(&q["source"]) };
        if query && q["value"] != json!("0") {
            return broken("the origin cannot pay the value");
        }
        if service != "Vft" || (!query && by.is_none()) {
            return broken("no such service");
        }
        self.seen.push((method.clone(), token, s.to_vec(), by, q["gas"].as_str().unwrap_or("").to_string()));
        match self.run(&token, &method, s, by) {
            Ok(b) => json!({"payload": hex(&[("Vft", method.as_str()).encode(), b].concat()), "success": true}),
            Err(t) if query => json!({"error": t}),
            Err(t) => json!({"payload": hex(format!("panicked with '{t}'").as_bytes()), "success": false}),
        }
    }
}

fn t08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let admin = user(250);
    let gas = src.chance(1, 3).then(|| 1 + src.below(1_000_000_000_000));
    let ids = token_ids(2 + src.usize(2));
    let users: Vec<ActorId> = (0..3).map(|i| user(i)).chain([admin]).collect();
    let mut chain = Tokens { list: BTreeMap::new(), admin, seen: vec![], deployed: vec![], starts: true };
    for (i, t) in ids.iter().enumerate() {
        let token = Token { name: format!("Token {i}"), symbol: format!("T{i}"), decimals: src.below(256) as u8, ..Default::default() };
        chain.list.insert(*t, token);
    }
    let mut with_admin = src.chance(9, 10);
    let mut r = json!({"do": "reset", "program": hex(&PROGRAM), "gas": gas.map(|g| g.to_string())});
    if with_admin {
        r["admin"] = json!({"addressRaw": {"$b": hex(admin.as_ref())}});
    } else {
        with_admin = false;
    }
    request(r, &mut Nobody)?.or_else(|e| fail("client-load", e))?;
    let gas = gas.unwrap_or(750_000_000_000);
    if src.chance(1, 20) {
        return deployments(src, ctx, &mut chain, &admin);
    }
    // kept transactions: (number, what should be sent)
    let mut kept: Vec<(Value, &'static str, ActorId, Vec<u8>, u64)> = vec![];
    let (mut moved, mut refused, mut late) = (false, false, false);
    let mut last = None;
    let (mut subscribed, mut subscriptions) = (vec![], 0);
    for _ in 0..6 + src.below(14) {
        if src.chance(1, 8) {
            at_once(src, ctx, &mut chain, &ids, &users, gas, &mut kept)?;
            last = None;
        }
        let token = *src.pick(&ids);
        let (a, b, by) = (*src.pick(&users), *src.pick(&users), *src.pick(&users));
        let held = chain.list[&token].balances.get(&a).copied().unwrap_or_default();
        let amount = match src.below(6) {
            0 => U256::zero(),
            1 => held,
            2 => held.checked_add(U256::one()).unwrap_or(held),
            3 => U256::MAX,
            _ => scaled_u256(src, 250),
        };
        let any = |src: &mut Src, a: &ActorId| if src.chance(1, 4) { json!({"$b": hex(a.as_ref())}) } else { id(a) };
        let call = |chain: &mut Tokens, name: &str, args: Vec<Value>| -> Result<Answer, Failure> {
            chain.seen.clear();
            request(json!({"do": "call", "on": "token", "name": name, "args": args}), chain)
        };
        let t = id(&token);
        ctx.evals += 1;
        match src.below(17) {
            k @ 0..=5 => {
                let m = &chain.list[&token];
                let (name, method, args, sent, want) = match k {
                    0 | 1 => ("balanceOf", "BalanceOf", vec![any(src, &a)], a.encode(), m.balances.get(&a).copied().unwrap_or_default().js()),
                    2 => {
                        let w = m.allowances.get(&(a, b)).copied().unwrap_or_default().js();
                        ("allowance", "Allowance", vec![any(src, &a), any(src, &b)], (a, b).encode(), w)
                    }
                    3 => ("totalSupply", "TotalSupply", vec![], vec![], m.supply.js()),
                    4 if src.bool() => ("name", "Name", vec![], vec![], json!(m.name)),
                    4 => ("symbol", "Symbol", vec![], vec![], json!(m.symbol)),
                    _ => ("decimals", "Decimals", vec![], vec![], big(m.decimals)),
                };
                let args = [args, vec![t]].concat();
                let got = call(&mut chain, name, args)?;
                ensure!(got == Ok(want.clone()), name, "{name} of {token:?} gives {got:?}, should be {want}");
                ensure!(chain.seen.len() == 1 && chain.seen[0].0 == method && chain.seen[0].1 == token && chain.seen[0].2 == sent && chain.seen[0].3.is_none(), "query", "{name} asked {:?}", chain.seen);
                last = Some(token);
            }
            6 if !kept.is_empty() => {
                let i = src.usize(kept.len());
                let (tx, name, token, sent, gas) = kept.remove(i);
                chain.seen.clear();
                let before = snapshot(&chain);
                let got = request(json!({"do": "send", "tx": tx, "args": [id(&by)]}), &mut chain)?;
                ctx.log(|| format!("{name} kept, now sent: {got:?}"));
                late |= last.is_some() && last != Some(token);
                check_sent(&mut chain, before, name, token, &sent, &by, gas, &got, &mut moved, &mut refused)?;
            }
            16 => token_events(src, ctx, &mut subscribed, &mut subscriptions, &ids, &users, amount)?,
            k => {
                let (name, method, args, sent, needs_admin) = match k {
                    6 | 7 | 8 => ("transfer", "Transfer", vec![any(src, &b), amount.js()], (b, amount).encode(), false),
                    9 | 10 => ("transferFrom", "TransferFrom", vec![any(src, &a), any(src, &b), amount.js()], (a, b, amount).encode(), false),
                    11 => ("approve", "Approve", vec![any(src, &b), amount.js()], (b, amount).encode(), false),
                    12 | 13 => ("mint", "Mint", vec![any(src, &a), amount.js()], (a, amount).encode(), true),
                    14 => ("burn", "Burn", vec![any(src, &a), amount.js()], (a, amount).encode(), true),
                    _ => {
                        let v = src.chance(1, 3);
                        ("setTransferFail", "SetTransferFail", vec![json!(v)], v.encode(), true)
                    }
                };
                ctx.log(|| format!("{name} {args:?} of {token:?} by {by:?}"));
                let own = src.chance(1, 3).then(|| 1 + src.below(1_000_000_000));
                if name != "setTransferFail" && src.chance(1, 2) {
                    let mut args = [args, vec![t]].concat();
                    args.extend(own.map(big));
                    chain.seen.clear();
                    let made = request(json!({"do": "tx", "on": "token", "name": format!("{name}Tx"), "args": args}), &mut chain)?;
                    ensure!(chain.seen.is_empty(), "sent-early", "{name}Tx sent {:?}", chain.seen);
                    match made {
                        Ok(tx) => kept.push((tx, method, token, sent, own.unwrap_or(gas))),
                        Err(e) => return fail("tx", format!("{name}Tx fails with {e}")),
                    }
                } else {
                    let mut args = [args, vec![t]].concat();
                    let mut gas = gas;
                    if name == "setTransferFail" {
                        if let Some(g) = own {
                            args.push(big(g));
                            gas = g;
                        }
                    }
                    if !needs_admin {
                        args.insert(0, id(&by));
                    }
                    let signer = if needs_admin { admin } else { by };
                    let before = snapshot(&chain);
                    let got = call(&mut chain, name, args)?;
                    ctx.log(|| format!("  {got:?}"));
                    if needs_admin && !with_admin {
                        ensure!(got.is_err() && chain.seen.is_empty(), "no-admin", "{name} without an administrator gives {got:?}");
                    } else {
                        check_sent(&mut chain, before, method, token, &sent, &signer, gas, &got, &mut moved, &mut refused)?;
                    }
                }
                last = Some(token);
            }
        }
    }
    ctx.nontrivial = moved && refused && late;
    Ok(())
}

const TOKEN_EVENTS: [&str; 4] = ["Minted", "Burned", "Approval", "Transfer"];

/// Subscriptions to events of tokens hear exactly those of their token and kind.
fn token_events(src: &mut Src, ctx: &mut Ctx, subscribed: &mut Vec<(u64, ActorId, &'static str)>, subscriptions: &mut u64, ids: &[ActorId], users: &[ActorId], amount: U256) -> Res {
    if subscribed.len() > 1 && src.chance(1, 4) {
        let (n, token, kind) = subscribed.remove(src.usize(subscribed.len()));
        ctx.log(|| format!("unsubscribe {n} ({kind} of {token:?})"));
        request(json!({"do": "unsubscribe", "callback": n}), &mut Nobody)?.or_else(|e| fail("unsubscribe", format!("ending a subscription to {kind} fails with {e}")))?;
    } else {
        let (token, kind) = (*src.pick(ids), TOKEN_EVENTS[src.usize(4)]);
        *subscriptions += 1;
        subscribed.push((*subscriptions, token, kind));
        ctx.log(|| format!("subscribe {subscriptions} to {kind} of {token:?}"));
        request(json!({"do": "subscribe", "token": true, "program": id(&token), "event": kind, "callback": subscriptions}), &mut Nobody)?
            .or_else(|e| fail("subscribe", format!("subscribing to {kind} fails with {e}")))?;
    }
    for _ in 0..1 + src.below(4) {
        // mostly what some subscription is after
        let (token, kind) = if src.chance(3, 4) && !subscribed.is_empty() {
            let s = &subscribed[src.usize(subscribed.len())];
            (s.1, s.2)
        } else {
            (*src.pick(ids), TOKEN_EVENTS[src.usize(4)])
        };
        let (a, b) = (*src.pick(users), *src.pick(users));
        let number = |a: &ActorId| U256::from_big_endian(a.as_ref()).to_string();
        let two = matches!(kind, "Approval" | "Transfer");
        let fields = if two { (a, b, amount).encode() } else { (a, amount).encode() };
        let leaves = if two { vec![number(&a), number(&b), amount.to_string()] } else { vec![number(&a), amount.to_string()] };
        let (mut source, mut destination, mut service, mut name) = (token, ActorId::zero(), "Vft", kind);
        match src.below(10) {
            0 => source = *src.pick(users),
            1 => destination = *src.pick(users),
            2 => service = "Service",
            3 => name = "Minter",
            _ => {}
        }
        let real = destination.is_zero() && service == "Vft" && name == kind;
        let event = json!({"source": id(&source), "destination": id(&destination), "payload": hex(&[(service, name).encode(), fields].concat()), "success": true});
        ctx.log(|| format!("emit {event}"));
        let got = request(json!({"do": "emit", "event": event}), &mut Nobody)?;
        let want: Vec<Value> = subscribed.iter().filter(|s| real && s.1 == source && s.2 == kind).map(|s| json!([s.0, leaves])).collect();
        ensure!(got == Ok(json!(want)), "token-event", "{event} is heard as {got:?}, should be {want:?}");
        ctx.evals += 1;
        if !want.is_empty() {
            ctx.label("event of a token heard");
        }
    }
    Ok(())
}

/// Several calls, begun together: each reaches its own token.
fn at_once(src: &mut Src, ctx: &mut Ctx, chain: &mut Tokens, ids: &[ActorId], users: &[ActorId], gas: u64, kept: &mut Vec<(Value, &'static str, ActorId, Vec<u8>, u64)>) -> Res {
    let (mut calls, mut want) = (vec![], vec![]);
    for _ in 0..2 + src.below(3) {
        let (token, a, b) = (*src.pick(ids), *src.pick(users), *src.pick(users));
        let m = &chain.list[&token];
        let amount = scaled_u256(src, 100);
        let (name, args, w, tx): (&str, Vec<Value>, Value, Option<(&'static str, Vec<u8>)>) = match src.below(7) {
            0 | 1 => ("balanceOf", vec![id(&a)], m.balances.get(&a).copied().unwrap_or_default().js(), None),
            2 => ("allowance", vec![id(&a), id(&b)], m.allowances.get(&(a, b)).copied().unwrap_or_default().js(), None),
            3 => ("symbol", vec![], json!(m.symbol), None),
            4 => ("decimals", vec![], big(m.decimals), None),
            5 => ("transferTx", vec![id(&b), amount.js()], Value::Null, Some(("Transfer", (b, amount).encode()))),
            _ => ("approveTx", vec![id(&b), amount.js()], Value::Null, Some(("Approve", (b, amount).encode()))),
        };
        let args = [args, vec![id(&token)]].concat();
        calls.push(json!({"do": if tx.is_some() { "tx" } else { "call" }, "on": "token", "name": name, "args": args}));
        want.push((name, token, w, tx));
    }
    ctx.log(|| format!("at once: {calls:?}"));
    let got = request(json!({"do": "all", "calls": calls}), chain)?;
    ctx.evals += 1;
    let Some(list) = got.as_ref().ok().and_then(|v| v.as_array()) else { return fail("at-once", format!("{calls:?} at once give {got:?}")) };
    for ((name, token, w, tx), g) in want.into_iter().zip(list) {
        match tx {
            Some((method, sent)) => kept.push((g.clone(), method, token, sent, gas)),
            None => ensure!(*g == w, "at-once", "{name} of {token:?} with other calls at once gives {g}, should be {w}"),
        }
    }
    Ok(())
}

type Snapshot = BTreeMap<ActorId, (BTreeMap<ActorId, U256>, BTreeMap<(ActorId, ActorId), U256>, U256, bool)>;
fn snapshot(c: &Tokens) -> Snapshot {
    c.list.iter().map(|(k, t)| (*k, (t.balances.clone(), t.allowances.clone(), t.supply, t.fails))).collect()
}

#[allow(clippy::too_many_arguments)]
fn check_sent(chain: &mut Tokens, before: Snapshot, method: &str, token: ActorId, args: &[u8], by: &ActorId, gas: u64, got: &Answer, moved: &mut bool, refused: &mut bool) -> Res {
    let want = (method.to_string(), token, args.to_vec(), Some(*by), gas.to_string());
    ensure!(chain.seen == vec![want.clone()], "message", "sent {:?} instead of {want:?}", chain.seen);
    // what the token does with it
    let after = snapshot(chain);
    for (k, s) in before {
        let t = chain.list.get_mut(&k).unwrap();
        (t.balances, t.allowances, t.supply, t.fails) = s;
    }
    let outcome = chain.run(&token, method, args, Some(*by));
    ensure!(snapshot(chain) == after, "effect", "the message did something else");
    match (&outcome, got) {
        (Ok(b), Ok(v)) => {
            let w = if b.is_empty() { Value::Null } else { json!(b[0] == 1) };
            ensure!(*v == w, "answer", "{method} answered {v}, the token {w}");
            *moved |= method.starts_with("Transfer") && w == json!(true);
        }
        (Err(t), Err(e)) => {
            ensure!(e.contains(t.as_str()), "error-text", "{method} failed with {e:?}, the token with {t:?}");
            *refused = true;
        }
        (o, g) => return fail("outcome", format!("{method} gives {g:?}, the token {o:?}")),
    }
    Ok(())
}

fn deployments(src: &mut Src, ctx: &mut Ctx, chain: &mut Tokens, by: &ActorId) -> Res {
    let file = |name: &str| std::fs::read(format!("/repo/sdk/contracts/{name}/{name}.opt.wasm"));
    let gas = src.chance(1, 2).then(|| 1 + src.below(1_000_000_000));
    let deployer = json!({"addressRaw": {"$b": hex(by.as_ref())}});
    let own = src.bool();
    let (what, args, want, code) = if own {
        let fee = src.skewed(1_000_000_000_000);
        ("deploy", vec![big(fee)], ("New", *by, fee).encode(), "invariant")
    } else {
        let (name, symbol, decimals) = (format!("N{}", src.below(1000)), "é".repeat(src.usize(5)), src.below(256) as u8);
        ("deployToken", vec![json!(name), json!(symbol), big(decimals)], ("New", name, symbol, decimals).encode(), "extended_vft")
    };
    let Ok(code) = file(code) else {
        ctx.label("no program to deploy");
        return Ok(());
    };
    chain.starts = src.chance(3, 4);
    let mut args = [vec![deployer], args].concat();
    args.extend(gas.map(big));
    let got = request(json!({"do": what, "args": args}), chain)?;
    ctx.label(if own { "deploys" } else { "deploys a token" });
    if chain.starts {
        ensure!(got == Ok(json!(hex(&PROGRAM))), "deploy", "{what} gives {got:?}");
    } else {
        ensure!(matches!(&got, Err(e) if e.contains("InvalidStart")), "deploy-refused", "{what} of a program that does not start gives {got:?}");
    }
    ensure!(chain.deployed.len() == 1, "deploy", "{what} deployed {} programs", chain.deployed.len());
    let d = &chain.deployed[0];
    ensure!(d["what"] == json!("upload_program"), "deploy", "{what} sent {}", d["what"]);
    ensure!(d["payload"] == json!(hex(&want)), "deploy-payload", "{what} sent {} instead of {}", d["payload"], hex(&want));
    ensure!(d["code"] == json!(hex(&code[..64])) && d["codeLength"] == json!(code.len()), "deploy-code", "{what} deployed another program");
    ensure!(d["source"] == json!(hex(by.as_ref())), "deploy-signer", "{what} was sent by {}", d["source"]);
    ensure!(d["gas"] == json!(gas.unwrap_or(750_000_000_000).to_string()), "deploy-gas", "{what} was sent with gas {}", d["gas"]);
    Ok(())
}

fn t10(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.below(20) {
        0..=9 => connect(src, ctx),
        10..=18 => heads(src, ctx),
        _ => {
            let ms = src.below(8);
            let got = request(json!({"do": "delay", "args": [ms]}), &mut Nobody)?;
            ctx.log(|| format!("a delay of {ms} ms: {got:?}"));
            // a timer of Node.js may be one millisecond early
            ensure!(matches!(&got, Ok(g) if g["passed"].as_f64().is_some_and(|p| p + 1.01 >= ms as f64)), "delay", "a delay of {ms} ms gives {got:?}");
            ctx.label("delay");
            Ok(())
        }
    }
}

fn connect(src: &mut Src, ctx: &mut Ctx) -> Res {
    const NETWORKS: [(&str, &str); 3] = [("Local", "ws://127.0.0.1:9944"), ("Testnet", "wss://testnet.vara.network"), ("Mainnet", "wss://rpc.vara.network")];
    let network = match src.below(8) {
        k @ 0..=5 => json!(NETWORKS[k as usize % 3].0),
        6 => json!(["", "local", "Mainnet ", "Testnet2", "LOCAL", "toString", "undefined", "0"][src.usize(8)]),
        _ => [Value::Null, json!({"$u": 1}), json!(src.below(3)), json!(true)][src.usize(4)].clone(),
    };
    let address = NETWORKS.iter().find(|n| json!(n.0) == network).map(|n| n.1);
    let fails = [None, None, Some("create"), Some("chain"), Some("nodeName"), Some("nodeVersion")][src.usize(6)];
    let got = request(json!({"do": "connect", "args": [network], "fails": fails}), &mut Nobody)?;
    ctx.log(|| format!("{network}, fails {fails:?}: {got:?}"));
    let Ok(got) = got else { return fail("connect", format!("{network} gives {got:?}")) };
    let Some(address) = address else {
        ensure!(got["asked"] == json!([]), "unknown-network", "for {network} it connects to {}", got["asked"]);
        ensure!(got["error"].is_string(), "unknown-network", "{network} is not refused: {got}");
        ctx.label("unknown network");
        return Ok(());
    };
    let asked = got["asked"].as_array().cloned().unwrap_or_default();
    ensure!(asked.len() == 1 && asked[0]["providerAddress"] == json!(address), "address", "for {network} it connects to {}, should be {address}", got["asked"]);
    if let Some(what) = fails {
        ensure!(got["error"].as_str().is_some_and(|e| e.contains(what)), "failing-node", "a node that fails ({what}) gives {got}");
        ctx.label("failing node");
        ctx.nontrivial = what != "create";
    } else {
        ensure!(got["same"] == json!(true), "connection", "{network} gives something else than its connection: {got}");
        let text = got["told"].to_string();
        ensure!(["chain", "nodeName", "nodeVersion"].iter().all(|w| text.contains(&format!("the {w}"))), "told", "{text} does not tell of the node");
        ctx.label("connected");
    }
    Ok(())
}

fn heads(src: &mut Src, ctx: &mut Ctx) -> Res {
    reset(None)?;
    let many = src.usize(10);
    let until = src.usize(many + 3);
    let heads: Vec<(u64, String)> = (0..many).map(|_| (src.skewed(1 << 32) as u64, hex(&std::array::from_fn::<u8, 32, _>(|_| src.below(256) as u8)))).collect();
    let got = request(json!({"do": "heads", "heads": heads, "until": until}), &mut Nobody)?;
    ctx.log(|| format!("{heads:?}, ended at {until}: {got:?}"));
    let Ok(got) = got else { return fail("heads", format!("{got:?}")) };
    for (i, (number, hash)) in heads.iter().enumerate() {
        let told = &got["told"][i];
        if i >= until {
            ensure!(*told == json!([]), "after-the-end", "block {i} is told after the end at {until}: {told}");
            continue;
        }
        let text = told.to_string();
        ensure!(text.contains(hash.as_str()) && text.replace(hash.as_str(), "").contains(&number.to_string()), "block", "{told} should tell of block {number}, {hash}");
    }
    ensure!(got["left"] == json!(0), "left", "{} subscriptions left", got["left"]);
    ctx.nontrivial = until > 0 && until < many;
    ctx.label("heads");
    Ok(())
}
