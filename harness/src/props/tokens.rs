//! Deposits and withdrawals of tokens and of the native currency, under any behaviour of the token
//! contracts, any interleaving and any delay of their replies.

use crate::engine::*;
use crate::ensure;
use crate::world::*;
use contracts::{FeeTier, PoolKey};
use io::CalculateSwapResult;
use math::liquidity::Liquidity;
use math::percentage::Percentage;
use math::sqrt_price::SqrtPrice;
use math::token_amount::TokenAmount;
use math::{MAX_SQRT_PRICE, MIN_SQRT_PRICE};
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use std::collections::{BTreeMap, BTreeSet};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            run: c12,
            quick: 300_000,
            thorough: 9_000_000,
            rule: "a case is a generated history of single and pair deposits and withdrawals by several users of which many are in flight at a time, with token contracts that obey, decline, fail with any error reply, answer nonsense or answer after the caller's wait has ended, refused sends and little gas; non-trivial: a transfer failed or was late while another request was in flight, and a withdrawal was restored or a deposit was credited",
            assumptions: &[
                "a node rolls back a message that panics, runs the reply hook of a reply before it wakes the waiting message, and delivers at most one reply per message",
                "a reply of a token contract outside its interface has no specified effect on the balance of that user in that token",
                "no token has a total supply above 2^256-1",
            ],
            exhaustive: None,
        },
        Property {
            id: "C13",
            run: c13,
            quick: 250_000,
            thorough: 7_500_000,
            rule: "a case is a generated history of deposits and withdrawals of the native currency by several users, between trades against it in a pool and deposits of tokens; non-trivial: a partial withdrawal paid, one was refused for too little balance, and a trade or a second deposit changed the balance between",
            assumptions: &["a node attaches the value of a message before it runs and returns it if the message fails"],
            exhaustive: None,
        },
    ]
}

const VARA: ActorId = ActorId::zero();

#[derive(Clone, Debug, PartialEq)]
enum LegSt {
    Open,
    Done,
    Failed,
    /// A success reply that is not in the interface and says nothing.
    Unknown,
    /// A success reply that is just a text: no specified effect.
    Odd,
}

#[derive(Clone, Debug)]
struct Leg {
    token: ActorId,
    amount: U256,
    message: Id,
    st: LegSt,
}

struct Req {
    id: Id,
    user: ActorId,
    deposit: bool,
    pair: bool,
    answer: Vec<u8>,
    legs: Vec<Leg>,
    height: u32,
    ended: bool,
}

struct M {
    w: World,
    users: Vec<ActorId>,
    tokens: Vec<ActorId>,
    bal: BTreeMap<(ActorId, ActorId), U256>,
    reqs: Vec<Req>,
    /// Tokens that answered something outside their interface.
    liars: BTreeSet<ActorId>,
    supply: BTreeMap<ActorId, U256>,
    restored: bool,
    credited: bool,
    trouble: bool,
    late: bool,
}

impl M {
    fn bal(&self, u: ActorId, t: ActorId) -> U256 {
        self.bal.get(&(u, t)).copied().unwrap_or_default()
    }
    fn set(&mut self, u: ActorId, t: ActorId, v: U256) {
        if v.is_zero() {
            self.bal.remove(&(u, t));
        } else {
            self.bal.insert((u, t), v);
        }
    }
    fn read(&self) -> BTreeMap<(ActorId, ActorId), U256> {
        self.w.block();
        let s = self.w.program().service();
        let mut out = BTreeMap::new();
        for u in &self.users {
            for (t, a) in s.get_user_balances(*u) {
                if !a.0.is_zero() {
                    out.insert((*u, t), a.0);
                }
            }
        }
        out
    }
    fn check_balances(&self, what: &str) -> Res {
        let real = self.read();
        if real != self.bal {
            let keys: BTreeSet<_> = real.keys().chain(self.bal.keys()).collect();
            let diff: Vec<String> = keys
                .into_iter()
                .filter(|k| real.get(k) != self.bal.get(k))
                .map(|k| format!("user {} token {}: {:?} instead of {:?}", short(&k.0), short(&k.1), real.get(k), self.bal.get(k)))
                .collect();
            return fail("balance", format!("after {what}: {}", diff.join("; ")));
        }
        Ok(())
    }
}

fn amount(src: &mut Src, bal: U256) -> U256 {
    match src.below(8) {
        0 => U256::from(1 + src.below(10)),
        1 => U256::zero(),
        2 => bal,
        3 => bal.saturating_add(U256::one()),
        4 => bal / 2,
        5 => bal.saturating_sub(U256::one()),
        6 => U256::from(src.skewed(u128::MAX)),
        _ => U256::from(src.skewed(1_000_000)),
    }
}

fn deposit_amount(src: &mut Src) -> U256 {
    match src.below(12) {
        0 => U256::zero(),
        1 => U256::from(src.skewed(u128::MAX)),
        2 => U256([src.limb(), src.limb(), src.limb(), src.limb() >> 2]),
        3 => U256::MAX,
        _ => U256::from(1 + src.below(1000)),
    }
}

fn setup(src: &mut Src) -> M {
    let w = World::new(0);
    let nu = 1 + src.usize(3);
    let nt = 1 + src.usize(3);
    let users: Vec<ActorId> = (0..nu as u8).map(user).collect();
    let mut tokens = vec![];
    for i in 0..nt as u8 {
        let mut b = [0u8; 32];
        b[31] = i + 1;
        b[0] = i % 2;
        tokens.push(actor(b));
    }
    M {
        w,
        users,
        tokens,
        bal: BTreeMap::new(),
        reqs: vec![],
        liars: BTreeSet::new(),
        supply: BTreeMap::new(),
        restored: false,
        credited: false,
        trouble: false,
        late: false,
    }
}

fn expect_refused(got: &Ended, allowed: &[&str], what: &str) -> Res {
    match got {
        Ended::Done(Err(Refusal::Panic(t))) => {
            let name = t.strip_prefix("InvariantError: ").unwrap_or("");
            ensure!(allowed.contains(&name), "refusal", "{what} was refused with {t:?}, expected one of {allowed:?}");
            Ok(())
        }
        other => fail("not-refused", format!("{what} should be refused ({allowed:?}), got {other:?}")),
    }
}

/// One request, and what must come of it at once.
fn request(m: &mut M, src: &mut Src, ctx: &mut Ctx) -> Res {
    let u = m.users[src.usize(m.users.len())];
    let deposit = src.bool();
    let pair = src.bool();
    let pick = |m: &M, src: &mut Src| if src.chance(1, 16) { VARA } else { m.tokens[src.usize(m.tokens.len())] };
    let a = pick(m, src);
    let b = if pair {
        if src.chance(1, 16) {
            a
        } else {
            // another token if there is one
            let i = m.tokens.iter().position(|t| *t == a).unwrap_or(0);
            if m.tokens.len() > 1 && !src.chance(1, 16) {
                m.tokens[(i + 1 + src.usize(m.tokens.len() - 1)) % m.tokens.len()]
            } else {
                pick(m, src)
            }
        }
    } else {
        a
    };
    let low_gas = src.chance(1, 24);
    let refuse_send = src.chance(1, 24);
    let mut reasons: Vec<&str> = vec![];
    let mut legs: Vec<(ActorId, U256)> = vec![];
    let toks = if pair { vec![a, b] } else { vec![a] };
    let (method, args, answer): (&str, Vec<u8>, Vec<u8>);
    let mut debits: Vec<(ActorId, U256)> = vec![];
    if deposit {
        let amounts: Vec<U256> = toks
            .iter()
            .map(|t| {
                let v = deposit_amount(src);
                // supply: what exists of a token fits 256 bits
                let s = m.supply.entry(*t).or_default();
                let v = v.min(U256::MAX - *s);
                // users own what they deposit, or not
                let short_of = src.chance(1, 10);
                let have = m.w.held(t, &u);
                if !short_of && have < v {
                    let d = v - have;
                    *s += d;
                    m.w.mint(*t, u, d);
                }
                v
            })
            .collect();
        for (t, v) in toks.iter().zip(&amounts) {
            if m.bal(u, *t).checked_add(*v).is_none() {
                reasons.push("FailedToChangeTokenBalance");
            }
            if !v.is_zero() || !pair {
                legs.push((*t, *v));
            }
        }
        if pair {
            method = "DepositTokenPair";
            args = ((a, TokenAmount(amounts[0])), (b, TokenAmount(amounts[1]))).encode();
            answer = (TokenAmount(amounts[0]), TokenAmount(amounts[1])).encode();
        } else {
            method = "DepositSingleToken";
            args = (a, TokenAmount(amounts[0])).encode();
            answer = TokenAmount(amounts[0]).encode();
            if amounts[0].is_zero() {
                reasons.push("TransferError");
            }
        }
    } else {
        let wants: Vec<Option<U256>> = toks
            .iter()
            .map(|t| if src.chance(1, 4) { None } else { Some(amount(src, m.bal(u, *t))) })
            .collect();
        let mut paid = vec![];
        for (t, v) in toks.iter().zip(&wants) {
            let have = m.bal(u, *t);
            let v = match v {
                None => have,
                Some(v) => {
                    if *v > have {
                        reasons.push(if have.is_zero() { "NoBalanceForTheToken" } else { "FailedToChangeTokenBalance" });
                    }
                    if v.is_zero() && !pair {
                        reasons.push("AmountIsZero");
                    }
                    *v
                }
            };
            paid.push(v);
            if !v.is_zero() {
                legs.push((*t, v));
                debits.push((*t, v));
            }
        }
        let w: Vec<Option<TokenAmount>> = wants.iter().map(|v| v.map(TokenAmount)).collect();
        if pair {
            method = "WithdrawTokenPair";
            args = ((a, w[0]), (b, w[1])).encode();
            answer = (TokenAmount(paid[0]), TokenAmount(paid[1])).encode();
        } else {
            method = "WithdrawSingleToken";
            args = (a, w[0]).encode();
            answer = TokenAmount(paid[0]).encode();
        }
    }
    if pair && a == b {
        reasons.push("TokensAreSame");
    }
    if legs.iter().any(|(t, _)| *t == VARA) {
        reasons.push(if deposit { "InvalidVaraDepositAttempt" } else { "InvalidVaraWithdrawAttempt" });
    }
    let what = format!(
        "{} of {}: {}",
        method,
        short(&u),
        legs.iter().map(|(t, v)| format!("{v} of {}", short(t))).collect::<Vec<_>>().join(" and ")
    );
    let before = m.w.in_flight.len();
    let normal_gas = m.w.gas;
    if low_gas {
        m.w.gas = src.skewed(200_000_000_000) as u64;
    }
    if refuse_send && !legs.is_empty() {
        m.w.fail_send = Some(src.usize(legs.len()));
    }
    let send_refused = m.w.fail_send.is_some();
    let gas = m.w.gas;
    let got = m.w.send(u, method, args, 0);
    m.w.gas = normal_gas;
    m.w.fail_send = None;
    ctx.log(|| format!("{what}{}{} -> {got:?}", if low_gas { format!(" (gas {gas})") } else { "".into() }, if send_refused { " (a send fails)" } else { "" }));
    if legs.is_empty() && reasons.is_empty() {
        ensure!(got == Ended::Done(Ok(answer.clone())), "nothing-to-move", "{what}: nothing to move, got {got:?}");
        ensure!(m.w.in_flight.len() == before, "spurious-transfer", "{what} asked for a transfer");
        ctx.label("nothing to move");
        return m.check_balances(&what);
    }
    if send_refused {
        reasons.push("TransferError");
    }
    if low_gas && matches!(&got, Ended::Done(Err(e)) if e.error() == Some("NotEnoughGasToExecute")) {
        // how much it needs is the program's choice, but then nothing has happened
        ctx.label("too little gas");
        ensure!(m.w.in_flight.len() == before, "spurious-transfer", "{what}: refused, yet a transfer was asked for");
        return m.check_balances(&what);
    }
    if !reasons.is_empty() {
        expect_refused(&got, &reasons, &what)?;
        ensure!(m.w.in_flight.len() == before, "spurious-transfer", "{what}: refused, yet a transfer was asked for");
        ctx.label("request refused");
        return m.check_balances(&what);
    }
    let Ended::Waiting(id) = got else {
        return fail("request", format!("{what}: should wait for the transfers, got {got:?}"));
    };
    let sent = &m.w.in_flight[before..];
    ensure!(sent.len() == legs.len(), "transfers", "{what}: {} transfers asked for: {sent:?}", sent.len());
    let me = program_id();
    let (from, to) = if deposit { (u, me) } else { (me, u) };
    let mut req_legs = vec![];
    for (t, v) in &legs {
        let hit: Vec<&InFlight> = sent.iter().filter(|s| s.token == *t).collect();
        ensure!(
            hit.len() == 1 && hit[0].from == from && hit[0].to == to && hit[0].amount == *v,
            "transfers",
            "{what}: asked for {sent:?}"
        );
        req_legs.push(Leg { token: *t, amount: *v, message: hit[0].message, st: LegSt::Open });
    }
    if low_gas {
        let need: u64 = sent.iter().map(|s| s.gas.unwrap_or(0).saturating_add(s.reply_deposit)).sum();
        ensure!(gas >= need, "gas", "{what}: went on with {gas} gas, its messages need {need}");
    }
    for (t, v) in debits {
        let left = m.bal(u, t) - v;
        m.set(u, t, left);
    }
    m.reqs.push(Req { id, user: u, deposit, pair, answer, legs: req_legs, height: m.w.height, ended: false });
    ctx.label(match (deposit, pair) {
        (true, false) => "deposit",
        (true, true) => "pair deposit",
        (false, false) => "withdrawal",
        (false, true) => "pair withdrawal",
    });
    m.check_balances(&what)
}

fn error_code(src: &mut Src) -> [u8; 4] {
    // ReplyCode::Error(reason)
    match src.below(8) {
        0 => [1, 0, 0, 0], // execution: ran out of gas
        1 => [1, 0, 1, 0], // execution: memory overflow / userspace panic, by version
        2 => [1, 0, 2, 0],
        3 => [1, 0, 3, 0],
        4 => [1, 2, 0, 0],
        5 => [1, 3, 0, 0],
        6 => [1, 0, 4, 0],
        _ => [1, 1, 0, 0],
    }
}

fn error_text(src: &mut Src) -> Vec<u8> {
    match src.below(10) {
        0 => b"panicked with 'InsufficientBalance'".to_vec(),
        1 => vec![],
        2 => b"Insufficient balance".to_vec(),
        3 => b"InsufficientAllowance".to_vec(),
        4 => b"The token is paused".to_vec(),
        5 => "Some text".to_string().encode(),
        6 => ("Vft", "TransferFrom", false).encode(),
        7 => ("Vft", "TransferFrom", true).encode(),
        _ => {
            let k = src.below(40) as usize;
            (0..k).map(|_| src.below(256) as u8).collect()
        }
    }
}

fn nonsense(src: &mut Src) -> Vec<u8> {
    match src.below(7) {
        0 => vec![],
        1 => ("Vft", "Transfer", true).encode(),
        2 => ("VFT", "TransferFrom", false).encode(),
        3 => ("Service", "TransferFrom", true).encode(),
        4 => vec![0xff; 1 + src.below(8) as usize],
        5 => "a text".to_string().encode(),
        _ => {
            let k = src.below(24) as usize;
            (0..k).map(|_| src.below(256) as u8).collect()
        }
    }
}

fn deliver(m: &mut M, src: &mut Src, ctx: &mut Ctx, honest: bool) -> Res {
    if m.w.in_flight.is_empty() {
        return Ok(());
    }
    let i = if honest { 0 } else { src.usize(m.w.in_flight.len()) };
    let t = m.w.in_flight[i].clone();
    let (ri, li) = m
        .reqs
        .iter()
        .enumerate()
        .find_map(|(ri, r)| r.legs.iter().position(|l| l.message == t.message).map(|li| (ri, li)))
        .expect("leg");
    let does = if honest {
        TokenDoes::Obey
    } else {
        match src.weighted(&[6, 3, 4, 2]) {
            0 => TokenDoes::Obey,
            1 => TokenDoes::Decline,
            2 => {
                let code = error_code(src);
                TokenDoes::Fail(error_text(src), code)
            }
            _ => {
                let text = nonsense(src);
                if src.bool() {
                    TokenDoes::Garble(text)
                } else {
                    TokenDoes::GarbleOnly(text)
                }
            }
        }
    };
    let others = m.reqs.iter().filter(|r| !r.ended).count() > 1;
    let late = m.reqs[ri].ended;
    let moved = m.w.deliver(i, does.clone());
    let st = match &does {
        TokenDoes::Obey if moved => LegSt::Done,
        TokenDoes::Obey | TokenDoes::Decline | TokenDoes::Fail(..) => LegSt::Failed,
        TokenDoes::Garble(p) | TokenDoes::GarbleOnly(p) => {
            let mut s = &p[..];
            match <(String, String, bool)>::decode(&mut s) {
                Ok((a, b, _)) if a == "Vft" && b == "TransferFrom" => LegSt::Odd,
                Ok(_) => LegSt::Unknown,
                Err(_) if String::decode(&mut &p[..]).is_ok() => LegSt::Odd,
                Err(_) => LegSt::Unknown,
            }
        }
    };
    let r = &mut m.reqs[ri];
    r.legs[li].st = st.clone();
    let (u, deposit, amount) = (r.user, r.deposit, r.legs[li].amount);
    let what = format!(
        "the reply to the {} of {amount} of {} for {} ({does:?}, moved {moved}{})",
        if deposit { "deposit" } else { "withdrawal" },
        short(&t.token),
        short(&u),
        if late { ", late" } else { "" }
    );
    ctx.log(|| what.clone());
    if st != LegSt::Done || late {
        m.trouble |= others;
    }
    m.late |= late;
    ctx.label(match st {
        LegSt::Done => "transfer done",
        LegSt::Failed => "transfer failed",
        LegSt::Unknown => "nonsense reply",
        _ => "text reply",
    });
    if late {
        ctx.label("late reply");
    }
    let old = m.bal(u, t.token);
    match (&st, deposit) {
        (LegSt::Done, true) | (LegSt::Failed, false) => {
            // the supply bound keeps this in range
            match old.checked_add(amount) {
                Some(v) => m.set(u, t.token, v),
                None => {
                    ctx.label("balance cannot take it");
                    m.liars.insert(t.token);
                }
            }
            if deposit {
                m.credited = true;
            } else {
                m.restored = true;
            }
        }
        (LegSt::Odd, _) => {
            m.liars.insert(t.token);
            // no specified effect: adopt it, if it is one of the two
            let real = m.read().get(&(u, t.token)).copied().unwrap_or_default();
            if old.checked_add(amount) == Some(real) {
                m.set(u, t.token, real);
            }
        }
        (LegSt::Unknown, _) => {
            m.liars.insert(t.token);
        }
        _ => {}
    }
    m.check_balances(&what)?;
    ended(m, ri, &what, ctx)
}

/// Whether the request ended when it should have, and with what.
fn ended(m: &mut M, ri: usize, what: &str, ctx: &mut Ctx) -> Res {
    let r = &mut m.reqs[ri];
    let at = m.w.gone.iter().position(|g| g.message == r.id);
    if r.ended {
        ensure!(at.is_none(), "ended-twice", "{what}: a request ended twice");
        return Ok(());
    }
    let open = r.legs.iter().any(|l| l.st == LegSt::Open);
    let Some(at) = at else {
        ensure!(open, "not-ended", "{what}: every transfer has been answered, yet the request waits");
        ensure!(m.w.height - r.height < 5000, "waits-for-ever", "{what}: waits for {} blocks", m.w.height - r.height);
        return Ok(());
    };
    let g = m.w.gone.remove(at).result;
    r.ended = true;
    ctx.log(|| format!("  the request of {} ends: {g:?}", short(&r.user)));
    if open {
        ensure!(m.w.height - r.height >= 50, "ended-early", "{what}: the request ended with a transfer unanswered: {g:?}");
    }
    let failed = r.legs.iter().filter(|l| l.st == LegSt::Failed).count();
    let odd = r.legs.iter().any(|l| l.st == LegSt::Odd);
    let unknown = r.legs.iter().any(|l| matches!(l.st, LegSt::Unknown | LegSt::Open));
    let err = |e: &str| Err(Refusal::Panic(format!("InvariantError: {e}")));
    let want: Option<Result<Vec<u8>, Refusal>> = if odd {
        ensure!(g.is_err(), "result", "{what}: the request ended with {g:?}");
        None
    } else if unknown {
        Some(Err(Refusal::LeftWith("InvariantError: ReplyHandlingFailed".into())))
    } else if failed == 0 {
        Some(Ok(r.answer.clone()))
    } else if !r.deposit || (r.pair && r.legs.len() == 2 && failed == 1) {
        Some(err("RecoverableTransferError"))
    } else {
        Some(err("UnrecoverableTransferError"))
    };
    if let Some(want) = want {
        ensure!(g == want, "result", "{what}: the request ended with {g:?} instead of {want:?}");
    }
    ctx.label(if g.is_ok() { "request done" } else { "request ended with an error" });
    Ok(())
}

fn advance(m: &mut M, src: &mut Src, ctx: &mut Ctx) -> Res {
    let blocks = *src.pick(&[1u32, 5, 30, 99, 100, 101, 1000]);
    m.w.advance(blocks, blocks as u64 * 3000);
    let what = format!("{blocks} blocks");
    ctx.log(|| what.clone());
    m.check_balances(&what)?;
    for ri in 0..m.reqs.len() {
        if !m.reqs[ri].ended {
            ended(m, ri, &what, ctx)?;
        }
    }
    Ok(())
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = setup(src);
    let steps = 4 + src.below(24);
    for _ in 0..steps {
        match src.weighted(&[8, 8, 1, 1]) {
            0 => request(&mut m, src, ctx)?,
            1 => deliver(&mut m, src, ctx, false)?,
            2 => advance(&mut m, src, ctx)?,
            _ => {
                // an honest deposit to have something to withdraw
                let u = m.users[src.usize(m.users.len())];
                let t = m.tokens[src.usize(m.tokens.len())];
                let v = U256::from(1 + src.below(100_000));
                let s = m.supply.entry(t).or_default();
                if let (Some(s2), Some(nb)) = (s.checked_add(v), m.bal.get(&(u, t)).copied().unwrap_or_default().checked_add(v)) {
                    *s = s2;
                    let r = m.w.deposit(u, t, v);
                    ctx.log(|| format!("{} deposits {v} of {}: {r:?}", short(&u), short(&t)));
                    ensure!(r.is_ok(), "result", "an honest deposit failed: {r:?}");
                    m.set(u, t, nb);
                    m.check_balances("an honest deposit")?;
                }
            }
        }
    }
    // the rest is answered by honest tokens
    while !m.w.in_flight.is_empty() {
        deliver(&mut m, src, ctx, true)?;
    }
    ensure!(m.w.waiting() == 0, "not-ended", "requests wait though every transfer has been answered");
    // and everybody gets exactly what is theirs
    for u in m.users.clone() {
        for t in m.tokens.clone() {
            if m.liars.contains(&t) {
                continue;
            }
            let have = m.bal(u, t);
            let held = m.w.held(&t, &u);
            let r = m.w.withdraw(u, t, None);
            ensure!(r == Ok(have), "final-withdrawal", "{} withdraws all of {}: {r:?}, has {have}", short(&u), short(&t));
            let got = m.w.held(&t, &u) - held;
            ensure!(got == have, "final-withdrawal", "{} withdraws all of {}: received {got}, has {have}", short(&u), short(&t));
        }
    }
    for t in &m.tokens {
        if !m.liars.contains(t) {
            let left = m.w.held(t, &program_id());
            ensure!(left.is_zero(), "left-over", "{left} of {} belong to nobody", short(t));
        }
    }
    ctx.nontrivial = m.trouble && (m.restored || m.credited);
    Ok(())
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = setup(src);
    let other = m.tokens[0];
    let users = m.users.clone();
    // a pool of the native currency against a token
    let tier = FeeTier { fee: Percentage(10_000_000_000), tick_spacing: 10 };
    let key = PoolKey::new(VARA, other, tier).expect("key");
    let mut pool = false;
    let mut total: u128 = 0;
    let (mut paid, mut refused, mut changed) = (false, false, 0);
    let steps = 3 + src.below(20);
    for _ in 0..steps {
        let u = users[src.usize(users.len())];
        let what;
        let before = m.read();
        let held = m.w.vara_held;
        let was_paid = m.w.vara_paid.clone();
        match src.weighted(&[6, 8, 2, if pool { 4 } else { 0 }, 1]) {
            0 => {
                let v = match src.below(6) {
                    0 => 0,
                    1 => src.skewed(u128::MAX - total),
                    _ => (1 + src.below(1_000_000)) as u128,
                }
                .min(u128::MAX - total);
                total += v;
                what = format!("{} deposits {v}", short(&u));
                let r = m.w.call_with_value::<TokenAmount>(u, "DepositVara", (), v);
                ctx.log(|| format!("{what}: {r:?}"));
                ensure!(r == Ok(TokenAmount(v.into())), "deposit", "{what}: {r:?}");
                ensure!(m.w.vara_held == held + v, "deposit", "{what}: the program holds {}", m.w.vara_held);
                let nb = m.bal(u, VARA) + v;
                m.set(u, VARA, nb);
                m.check_balances(&what)?;
                changed += (before.contains_key(&(u, VARA)) && v > 0) as u32;
                ctx.label("deposit");
            }
            1 => {
                let have = m.bal(u, VARA);
                let want = if src.chance(1, 4) { None } else { Some(amount(src, have)) };
                what = format!("{} withdraws {want:?} of {have}", short(&u));
                let r = m.w.call::<TokenAmount>(u, "WithdrawVara", want.map(TokenAmount));
                ctx.log(|| format!("{what}: {r:?}"));
                let v = want.unwrap_or(have);
                let ok = if want == Some(U256::zero()) {
                    ensure!(matches!(&r, Err(e) if e.error() == Some("AmountIsZero")), "zero", "{what}: {r:?}");
                    false
                } else if v > have {
                    let name = if have.is_zero() { "NoBalanceForTheToken" } else { "FailedToChangeTokenBalance" };
                    ensure!(matches!(&r, Err(e) if e.error() == Some(name)), "too-much", "{what}: {r:?}");
                    refused = true;
                    ctx.label("withdrawal refused");
                    false
                } else {
                    ensure!(r == Ok(TokenAmount(v)), "withdrawal", "{what}: {r:?}");
                    true
                };
                let v = if ok { v.as_u128() } else { 0 };
                ensure!(m.w.vara_held == held - v, "withdrawal", "{what}: the program held {held}, holds {}", m.w.vara_held);
                let mut want_paid = was_paid.clone();
                if v > 0 {
                    *want_paid.entry(u).or_default() += v;
                    total -= v;
                }
                ensure!(m.w.vara_paid == want_paid, "withdrawal", "{what}: paid {:?}, before {was_paid:?}", m.w.vara_paid);
                let left = have - v;
                m.set(u, VARA, left);
                m.check_balances(&what)?;
                if v > 0 {
                    paid |= !left.is_zero();
                    ctx.label("withdrawal");
                }
            }
            2 => {
                // trades: the native currency changes owner inside the program only
                if !pool {
                    let admin = m.w.admin;
                    m.w.call::<FeeTier>(admin, "AddFeeTier", tier).map_err(|e| Failure { signature: "setup".into(), message: format!("{e:?}") })?;
                    m.w.call::<()>(u, "CreatePool", (VARA, other, tier, SqrtPrice(1_000_000_000_000_000_000_000_000), 0i32))
                        .map_err(|e| Failure { signature: "setup".into(), message: format!("{e:?}") })?;
                    pool = true;
                }
                let d = U256::from(1_000_000_000u64);
                let s = m.supply.entry(other).or_default();
                if s.checked_add(d).is_some() && m.bal.get(&(u, other)).copied().unwrap_or_default().checked_add(d).is_some() {
                    *s += d;
                    let _ = m.w.deposit(u, other, d);
                }
                let liq = 1_000_000_000 / (1 + src.below(100));
                let r = m.w.call::<contracts::Position>(
                    u,
                    "CreatePosition",
                    (key, -100i32, 100i32, Liquidity(U256::from(liq) * 1000), SqrtPrice(MIN_SQRT_PRICE), SqrtPrice(MAX_SQRT_PRICE)),
                );
                what = format!("{} opens a position: {}", short(&u), r.is_ok());
                ctx.log(|| what.clone());
                m.bal = m.read();
                changed += r.is_ok() as u32;
                ctx.label("position");
            }
            3 => {
                if m.bal(u, VARA) < U256::from(50_000) && total < u128::MAX / 2 {
                    total += 50_000;
                    let _ = m.w.call_with_value::<TokenAmount>(u, "DepositVara", (), 50_000);
                }
                let x_to_y = src.bool();
                let limit = if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE };
                let r = m.w.call::<CalculateSwapResult>(
                    u,
                    "Swap",
                    (key, x_to_y, TokenAmount(U256::from(1 + src.skewed(20_000))), src.bool(), SqrtPrice(limit)),
                );
                what = format!("{} swaps: {}", short(&u), r.is_ok());
                ctx.log(|| what.clone());
                m.bal = m.read();
                changed += r.is_ok() as u32;
                if r.is_ok() {
                    ctx.label("swap");
                }
            }
            _ => {
                // the token entry points do not move the native currency
                what = format!("{} uses the token entry points", short(&u));
                let have = m.bal(u, VARA);
                let v = TokenAmount(amount(src, have));
                let r = match src.below(4) {
                    0 => m.w.send(u, "WithdrawSingleToken", (VARA, Some(v)).encode(), 0),
                    1 => m.w.send(u, "DepositSingleToken", (VARA, v).encode(), 0),
                    2 => m.w.send(u, "WithdrawTokenPair", ((VARA, Some(v)), (other, None::<TokenAmount>)).encode(), 0),
                    _ => m.w.send(u, "DepositTokenPair", ((VARA, v), (other, TokenAmount(U256::zero()))).encode(), 0),
                };
                ctx.log(|| format!("{what} ({v:?}): {r:?}"));
                match r {
                    Ended::Waiting(_) => {
                        // the other token of the pair: only if the native amount is zero
                        ensure!(v.0.is_zero(), "token-entry", "{what}: accepted {v:?}");
                        m.w.deliver(0, TokenDoes::Obey);
                        m.w.gone.clear();
                        m.set(u, other, U256::zero());
                    }
                    Ended::Done(Ok(_)) => ensure!(v.0.is_zero(), "token-entry", "{what}: accepted {v:?}"),
                    Ended::Done(Err(_)) => {}
                }
                m.check_balances(&what)?;
                ensure!(m.w.vara_held == held && m.w.vara_paid == was_paid, "token-entry", "{what}: native currency moved");
                ctx.label("token entry points");
            }
        }
        // what users may withdraw is there; without a pool it is all there is
        let owed: U256 = m.bal.iter().filter(|((_, t), _)| *t == VARA).fold(U256::zero(), |a, (_, v)| a + *v);
        ensure!(owed <= U256::from(m.w.vara_held), "solvency", "after {what}: users own {owed}, the program holds {}", m.w.vara_held);
        if !pool {
            ensure!(owed == U256::from(m.w.vara_held), "solvency", "after {what}: users own {owed}, the program holds {}", m.w.vara_held);
        }
    }
    for u in &users {
        let have = m.bal(*u, VARA);
        let r = m.w.call::<TokenAmount>(*u, "WithdrawVara", None::<TokenAmount>);
        ensure!(r == Ok(TokenAmount(have)), "final-withdrawal", "{} withdraws all: {r:?}, has {have}", short(u));
    }
    let left = m.read().keys().filter(|k| k.1 == VARA).count();
    ensure!(left == 0, "final-withdrawal", "balances are left after everything is withdrawn");
    ctx.nontrivial = paid && refused && changed > 0;
    Ok(())
}
