//! The TypeScript client, under Node, with the program of a [`World`] behind it.
//!
//! The client runs with stand-ins for the packages that talk to a node (see client/): what it sends
//! comes here, runs in the real program, and the answer goes back as a node would report it.

use crate::engine::{fail, Failure};
use crate::world::{Ended, Refusal, TokenDoes, World, PROGRAM};
use contracts::{FeeTier, LiquidityTick, Pool, PoolKey, Position, PositionTick, Tick};
use io::{CalculateSwapResult, InvariantEvent, QuoteResult};
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};

const BUNDLE: &str = "/verif/target/client/bundle.mjs";
/// Processor seconds after which one call counts as not terminating (calls take milliseconds).
const CALL_CPU_LIMIT: u64 = 20;

struct Node {
    child: Child,
    read: Vec<u8>,
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn kill(pid: i32, signal: i32) -> i32;
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Node {
    fn start() -> Node {
        let mut c = Command::new("node");
        c.arg("--max-old-space-size=1024")
            .arg("--no-warnings")
            .arg(std::env::var("HARNESS_CLIENT").unwrap_or(BUNDLE.into()))
            .env_remove("NODE_OPTIONS")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped());
        if std::env::var_os("HARNESS_PANICS").is_none() {
            c.stderr(Stdio::null());
        }
        // the library reserves more address space than this process may have
        unsafe {
            c.pre_exec(|| {
                crate::runner::os::free_memory();
                Ok(())
            });
        }
        Node { child: c.spawn().expect("node"), read: vec![] }
    }

    fn cpu_seconds(&self) -> u64 {
        let Ok(t) = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())) else { return 0 };
        let Some(rest) = t.rsplit(')').next() else { return 0 };
        let f: Vec<&str> = rest.split_whitespace().collect();
        let ticks = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        (ticks(11) + ticks(12)) / 100
    }

    fn say(&mut self, v: &Value) -> Result<(), Failure> {
        let mut line = v.to_string().into_bytes();
        line.push(b'\n');
        // a dead client is noticed by the next read
        let _ = self.child.stdin.as_mut().unwrap().write_all(&line);
        Ok(())
    }

    fn hear(&mut self, started: u64) -> Result<Value, Failure> {
        loop {
            if let Some(i) = self.read.iter().position(|b| *b == b'\n') {
                let line: Vec<u8> = self.read.drain(..=i).collect();
                match serde_json::from_slice::<Value>(&line) {
                    Ok(v) if v.is_object() => return Ok(v),
                    // something it tells a reader
                    _ => continue,
                }
            }
            let out = self.child.stdout.as_mut().unwrap();
            let mut p = PollFd { fd: out.as_raw_fd(), events: 1, revents: 0 };
            let ready = unsafe { poll(&mut p, 1, 1000) };
            if ready > 0 {
                let mut b = [0u8; 1 << 16];
                let k = out.read(&mut b).unwrap_or(0);
                if k == 0 {
                    let s = self.child.wait().expect("wait");
                    if s.signal() == Some(9) {
                        // not ours: the machine is short of memory
                        unsafe { kill(std::process::id() as i32, 9) };
                    }
                    return fail("client-died", format!("the client ended: {s}"));
                }
                self.read.extend(&b[..k]);
            } else if self.cpu_seconds().saturating_sub(started) > CALL_CPU_LIMIT {
                return fail("does-not-terminate", format!("one call of the client used more than {CALL_CPU_LIMIT} s of processor time"));
            }
        }
    }
}

/// What the client returned, or the text of what it threw.
pub type Answer = Result<Value, String>;

/// Who answers when the client asks the chain.
pub trait Asked {
    fn asked(&mut self, question: &Value) -> Value;
}

/// Nobody: the client should not ask.
pub struct Nobody;
impl Asked for Nobody {
    fn asked(&mut self, _: &Value) -> Value {
        json!({"refused": "nothing should be asked here", "error": "nothing should be asked here"})
    }
}

impl<F: FnMut(&Value) -> Value> Asked for F {
    fn asked(&mut self, question: &Value) -> Value {
        self(question)
    }
}

pub fn request(r: Value, chain: &mut dyn Asked) -> Result<Answer, Failure> {
    NODE.with(|cell| {
        let mut slot = cell.borrow_mut();
        if slot.is_none() {
            *slot = Some(Node::start());
        }
        let out = exchange(slot.as_mut().unwrap(), r, chain);
        if out.is_err() {
            *slot = None;
        }
        out
    })
}

fn exchange(node: &mut Node, r: Value, chain: &mut dyn Asked) -> Result<Answer, Failure> {
    let started = node.cpu_seconds();
    node.say(&r)?;
    loop {
        let mut v = node.hear(started)?;
        if v.get("ask").is_some() {
            let a = chain.asked(&v["q"]);
            node.say(&json!({"answer": v["ask"], "a": a}))?;
        } else if let Some(e) = v["error"].as_str() {
            if let Some(e) = e.strip_prefix("harness: ") {
                // a name the harness relies on is gone
                return fail("client-interface", e.to_string());
            }
            return Ok(Err(e.to_string()));
        } else if v.get("stuck").is_some() {
            return fail("does-not-end", "a call of the client waits although nothing is left that could wake it".to_string());
        } else {
            return Ok(Ok(v["value"].take()));
        }
    }
}

/// A function of the client's library (`lib`), of the compiled library itself (`wasm`) or of the
/// conversion between them (`serializer`).
pub fn function(kind: &str, name: &str, args: Vec<Value>) -> Result<Answer, Failure> {
    request(json!({"do": kind, "name": name, "args": args}), &mut Nobody)
}
pub fn lib(name: &str, args: Vec<Value>) -> Result<Answer, Failure> {
    function("lib", name, args)
}

pub fn reset(gas: Option<u64>) -> Result<(), Failure> {
    match request(json!({"do": "reset", "program": hex(&PROGRAM), "gas": gas.map(|g| g.to_string())}), &mut Nobody)? {
        Ok(_) => Ok(()),
        Err(e) => fail("client-load", e),
    }
}

// ---- values as the client has them ----

pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x")?;
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
pub fn id(a: &ActorId) -> Value {
    json!(hex(a.as_ref()))
}
pub fn undefined() -> Value {
    json!({"$u": 1})
}

/// As the client represents a value.
pub trait Js {
    fn js(&self) -> Value;
}
/// An integer: the client has all of them as `bigint`s.
pub fn big(v: impl ToString) -> Value {
    json!({"$n": v.to_string()})
}
macro_rules! integers {
    ($($t:ty),*) => { $(impl Js for $t { fn js(&self) -> Value { big(self) } })* };
}
integers!(u16, u32, u64, u128, i32, i64, sails_rs::U256, num_bigint::BigUint, num_bigint::BigInt);
impl Js for bool {
    fn js(&self) -> Value {
        json!(self)
    }
}
impl Js for ActorId {
    fn js(&self) -> Value {
        id(self)
    }
}
impl Js for () {
    fn js(&self) -> Value {
        Value::Null
    }
}
impl<A: Js, B: Js> Js for (A, B) {
    fn js(&self) -> Value {
        json!([self.0.js(), self.1.js()])
    }
}
impl<T: Js> Js for Vec<T> {
    fn js(&self) -> Value {
        Value::Array(self.iter().map(|x| x.js()).collect())
    }
}
macro_rules! wrapped {
    ($($t:path),*) => { $(impl Js for $t { fn js(&self) -> Value { big(self.0) } })* };
}
wrapped!(
    math::percentage::Percentage,
    math::liquidity::Liquidity,
    math::sqrt_price::SqrtPrice,
    math::token_amount::TokenAmount,
    math::fee_growth::FeeGrowth
);

fn camel(s: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}
macro_rules! records {
    ($($t:ty { $($f:ident),* })*) => { $(impl Js for $t {
        fn js(&self) -> Value {
            let mut m = Map::new();
            $(m.insert(camel(stringify!($f)), self.$f.js());)*
            Value::Object(m)
        }
    })* };
}
records! {
    FeeTier { fee, tick_spacing }
    PoolKey { token_x, token_y, fee_tier }
    Position { pool_key, liquidity, lower_tick_index, upper_tick_index, fee_growth_inside_x, fee_growth_inside_y, last_block_number, tokens_owed_x, tokens_owed_y }
    Pool { liquidity, sqrt_price, current_tick_index, fee_growth_global_x, fee_growth_global_y, fee_protocol_token_x, fee_protocol_token_y, start_timestamp, last_timestamp, fee_receiver }
    Tick { index, sign, liquidity_change, liquidity_gross, sqrt_price, fee_growth_outside_x, fee_growth_outside_y, seconds_outside }
    LiquidityTick { index, liquidity_change, sign }
    PositionTick { index, fee_growth_outside_x, fee_growth_outside_y, seconds_outside }
    CalculateSwapResult { amount_in, amount_out, start_sqrt_price, target_sqrt_price, fee, pool, ticks }
    QuoteResult { amount_in, amount_out, target_sqrt_price, ticks }
    io::SwapHop { pool_key, x_to_y }
}

pub fn event_name(e: &InvariantEvent) -> &'static str {
    match e {
        InvariantEvent::PositionCreatedEvent { .. } => "PositionCreatedEvent",
        InvariantEvent::PositionRemovedEvent { .. } => "PositionRemovedEvent",
        InvariantEvent::CrossTickEvent { .. } => "CrossTickEvent",
        InvariantEvent::SwapEvent { .. } => "SwapEvent",
    }
}

/// The message that announces an event.
pub fn event_payload(e: &InvariantEvent) -> Vec<u8> {
    // the encoding of the event without the byte of its kind
    [("Service", event_name(e)).encode(), e.encode()[1..].to_vec()].concat()
}

impl Js for InvariantEvent {
    fn js(&self) -> Value {
        use InvariantEvent::*;
        match self {
            PositionCreatedEvent { timestamp, address, pool_key, liquidity_delta, lower_tick, upper_tick, current_sqrt_price } => json!({
                "timestamp": timestamp.js(), "address": address.js(), "poolKey": pool_key.js(), "liquidityDelta": liquidity_delta.js(),
                "lowerTick": lower_tick.js(), "upperTick": upper_tick.js(), "sqrtPrice": current_sqrt_price.js(),
            }),
            PositionRemovedEvent { timestamp, address, pool_key, liquidity, lower_tick_index, upper_tick_index, sqrt_price } => json!({
                "timestamp": timestamp.js(), "address": address.js(), "poolKey": pool_key.js(), "liquidityDelta": liquidity.js(),
                "lowerTick": lower_tick_index.js(), "upperTick": upper_tick_index.js(), "sqrtPrice": sqrt_price.js(),
            }),
            CrossTickEvent { timestamp, address, pool_key, indexes } => json!({
                "timestamp": timestamp.js(), "address": address.js(), "poolKey": pool_key.js(), "indexes": indexes.js(),
            }),
            SwapEvent { timestamp, address, pool_key, amount_in, amount_out, fee, start_sqrt_price, target_sqrt_price, x_to_y } => json!({
                "timestamp": timestamp.js(), "address": address.js(), "poolKey": pool_key.js(), "amountIn": amount_in.js(),
                "amountOut": amount_out.js(), "fee": fee.js(), "startSqrtPrice": start_sqrt_price.js(),
                "targetSqrtPrice": target_sqrt_price.js(), "xToY": x_to_y.js(),
            }),
        }
    }
}

/// What a subscription to the event hears, in the order of its fields, without their names: numbers and
/// addresses as decimal numbers.
pub fn event_leaves(e: &InvariantEvent) -> Vec<String> {
    use InvariantEvent::*;
    let address = |a: &ActorId| U256::from_big_endian(a.as_ref()).to_string();
    let key = |k: &PoolKey| vec![address(&k.token_x), address(&k.token_y), k.fee_tier.fee.0.to_string(), k.fee_tier.tick_spacing.to_string()];
    let (time, who, pool, rest) = match e {
        PositionCreatedEvent { timestamp, address, pool_key, liquidity_delta, lower_tick, upper_tick, current_sqrt_price } => {
            (timestamp, address, pool_key, vec![liquidity_delta.0.to_string(), lower_tick.to_string(), upper_tick.to_string(), current_sqrt_price.0.to_string()])
        }
        PositionRemovedEvent { timestamp, address, pool_key, liquidity, lower_tick_index, upper_tick_index, sqrt_price } => {
            (timestamp, address, pool_key, vec![liquidity.0.to_string(), lower_tick_index.to_string(), upper_tick_index.to_string(), sqrt_price.0.to_string()])
        }
        CrossTickEvent { timestamp, address, pool_key, indexes } => (timestamp, address, pool_key, indexes.iter().map(|i| i.to_string()).collect()),
        SwapEvent { timestamp, address, pool_key, amount_in, amount_out, fee, start_sqrt_price, target_sqrt_price, x_to_y } => (
            timestamp,
            address,
            pool_key,
            vec![amount_in.0.to_string(), amount_out.0.to_string(), fee.0.to_string(), start_sqrt_price.0.to_string(), target_sqrt_price.0.to_string(), x_to_y.to_string()],
        ),
    };
    [vec![time.to_string(), address(who)], key(pool), rest].concat()
}

/// The number of a `bigint`, or of an integral `number` where the interface has those.
pub fn number(v: &Value) -> Option<num_bigint::BigInt> {
    match v {
        Value::Object(m) => m.get("$n")?.as_str()?.parse().ok(),
        Value::Number(n) if n.is_i64() || n.is_u64() => n.to_string().parse().ok(),
        _ => None,
    }
}

/// The value with all whole numbers in one notation.
pub fn plain(v: &Value) -> Value {
    if let Some(n) = number(v) {
        return json!(n.to_string());
    }
    match v {
        Value::Array(a) => Value::Array(a.iter().map(plain).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
        _ => v.clone(),
    }
}

// ---- the chain behind the client ----

#[derive(Clone, Debug)]
pub struct Sent {
    pub method: String,
    pub args: Vec<u8>,
    pub source: ActorId,
    pub destination: String,
    pub value: u128,
    pub gas: String,
    pub result: Result<Vec<u8>, Refusal>,
}

/// Runs what the client sends in the program of a world.
pub struct Chain<'a> {
    pub w: &'a mut World,
    /// What the tokens do with the coming transfer requests (then they obey).
    pub tokens: Vec<TokenDoes>,
    pub sent: Vec<Sent>,
    pub queries: u64,
    pub batches: u64,
    /// Why the chain refuses the next batch.
    pub refuse_batch: Option<String>,
}

fn parts(payload: &[u8]) -> Option<(String, Vec<u8>)> {
    let mut s = payload;
    let (service, method) = <(String, String)>::decode(&mut s).ok()?;
    (service == "Service").then(|| (method, s.to_vec()))
}

pub fn actor_of(hex: &Value) -> Option<ActorId> {
    let b: [u8; 32] = unhex(hex.as_str()?)?.try_into().ok()?;
    Some(ActorId::from(b))
}

impl<'a> Chain<'a> {
    pub fn new(w: &'a mut World) -> Self {
        Chain { w, tokens: vec![], sent: vec![], queries: 0, batches: 0, refuse_batch: None }
    }

    fn run(&mut self, source: ActorId, method: &str, args: Vec<u8>, value: u128) -> Result<Vec<u8>, Refusal> {
        match self.w.send(source, method, args, value) {
            Ended::Done(r) => r,
            Ended::Waiting(id) => loop {
                if let Some(i) = self.w.gone.iter().position(|g| g.message == id) {
                    return self.w.gone.remove(i).result;
                }
                match self.w.in_flight.iter().position(|t| t.parent == id) {
                    Some(i) => {
                        let does = if self.tokens.is_empty() { TokenDoes::Obey } else { self.tokens.remove(0) };
                        self.w.deliver(i, does);
                    }
                    // nothing will ever wake it but time
                    None => self.w.advance(200, 600_000),
                }
            },
        }
    }
}

/// The bytes of a reply, and whether its code says success.
pub fn reply_of(method: &str, r: &Result<Vec<u8>, Refusal>) -> (Vec<u8>, bool) {
    match r {
        Ok(b) => ([("Service", method).encode(), b.clone()].concat(), true),
        Err(Refusal::Panic(t)) => (format!("Panic occurred: panicked with '{t}'").into_bytes(), false),
        // the number of the error, in the place of the reply
        Err(Refusal::LeftWith(_)) => (vec![33], true),
        Err(Refusal::BadReply(_)) => (vec![], true),
    }
}

impl Asked for Chain<'_> {
    fn asked(&mut self, q: &Value) -> Value {
        let broken = |t: &str| json!({"refused": t, "error": t});
        match q["what"].as_str() {
            Some("query") => {
                self.queries += 1;
                let Some(payload) = q["payload"].as_str().and_then(unhex) else { return broken("no payload") };
                let Some((method, args)) = parts(&payload) else { return broken("no such service") };
                if q["destination"] != json!(hex(&PROGRAM)) {
                    return broken("no such program");
                }
                // a node refuses a query that pays what its origin does not have
                if q["value"] != json!("0") {
                    return broken("the origin cannot pay the value");
                }
                // a query is a message whose effects nobody keeps
                match self.w.send(ActorId::from([0x51; 32]), &method, args, 0) {
                    Ended::Done(r) => {
                        let (payload, success) = reply_of(&method, &r);
                        if success {
                            json!({"payload": hex(&payload)})
                        } else {
                            json!({"error": String::from_utf8_lossy(&payload)})
                        }
                    }
                    Ended::Waiting(_) => broken("a query that waits"),
                }
            }
            Some("send_message") => {
                let Some(payload) = q["payload"].as_str().and_then(unhex) else { return broken("no payload") };
                let Some(source) = actor_of(&q["source"]) else { return broken("no account") };
                let value: u128 = q["value"].as_str().and_then(|v| v.parse().ok()).unwrap_or(u128::MAX);
                let gas = q["gas"].as_str().unwrap_or("none").to_string();
                let destination = q["destination"].as_str().unwrap_or("").to_string();
                let Some((method, args)) = parts(&payload) else {
                    self.sent.push(Sent { method: format!("{payload:02x?}"), args: vec![], source, destination, value, gas, result: Ok(vec![]) });
                    return broken("no such service");
                };
                let result = self.run(source, &method, args.clone(), value);
                let (payload, success) = reply_of(&method, &result);
                self.sent.push(Sent { method, args, source, destination, value, gas, result });
                json!({"payload": hex(&payload), "success": success})
            }
            Some("batch") => {
                self.batches += 1;
                match self.refuse_batch.take() {
                    Some(t) => json!({"refused": t}),
                    None => json!({}),
                }
            }
            _ => broken("unexpected question"),
        }
    }
}

/// Texts as they compare: the name of an error without its case and prefix.
pub fn same_error(thrown: &str, name: &str) -> bool {
    let t = thrown.to_ascii_lowercase().replace("invarianterror: ", "");
    t == name.to_ascii_lowercase()
}
