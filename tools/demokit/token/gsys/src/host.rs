//! The in-process host: what a node provides to the message it executes.
//! A harness fills [`Host`] in, runs one entry point of the program, and reads the effects.

use crate::Hash;
use std::cell::RefCell;

/// How a message ended other than by returning: the payload of the unwinding.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Exit {
    /// `gr_wait`, `gr_wait_for`, `gr_wait_up_to`: the effects are committed, the message is kept.
    Wait(Option<u32>),
    /// `gr_leave`: the effects are committed, the message is done.
    Leave,
}

/// A message sent during the execution.
#[derive(Debug, Clone)]
pub struct Sent {
    pub id: Hash,
    pub to: Hash,
    pub payload: Vec<u8>,
    pub value: u128,
    pub gas: Option<u64>,
    pub reply_deposit: u64,
}

#[derive(Debug, Default)]
pub struct Host {
    // the block
    pub timestamp: u64,
    pub height: u32,
    // the message
    pub program: Hash,
    pub id: Hash,
    pub source: Hash,
    pub value: u128,
    pub payload: Vec<u8>,
    pub gas: u64,
    pub reply_to: Option<Hash>,
    pub reply_code: [u8; 4],
    pub signal_from: Option<Hash>,
    /// Refuse the n-th message the execution sends (counted from 0).
    pub fail_send: Option<usize>,
    // the effects
    pub sent: Vec<Sent>,
    pub replies: Vec<(Vec<u8>, u128)>,
    pub woken: Vec<Hash>,
    // counters
    pub next_id: u64,
    pub send_attempts: usize,
    pub pending_reply: Vec<u8>,
}

thread_local! {
    static HOST: RefCell<Host> = RefCell::new(Host::default());
}

pub fn with<R>(f: impl FnOnce(&mut Host) -> R) -> R {
    HOST.with(|h| f(&mut h.borrow_mut()))
}

impl Host {
    /// Ids in the order of sending, like those of a node never used twice.
    pub fn fresh_id(&mut self) -> Hash {
        self.next_id += 1;
        let mut id = [0xA5; 32];
        id[..8].copy_from_slice(&self.next_id.to_le_bytes());
        id
    }

    /// Forget the effects of the last execution.
    pub fn clear_effects(&mut self) {
        self.sent.clear();
        self.replies.clear();
        self.woken.clear();
        self.pending_reply.clear();
        self.send_attempts = 0;
    }
}

fn exit(e: Exit) -> ! {
    std::panic::resume_unwind(Box::new(e))
}

/// An error code of `gr_send*` / `gr_reply*` (`ExtError::Message(NotEnoughGas)` and the like).
const REFUSED: u32 = 308;

#[allow(clippy::missing_safety_doc, clippy::too_many_arguments)]
pub mod calls {
    use super::*;
    use crate::*;

    macro_rules! absent {
        ($($name:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => {
            $(pub unsafe fn $name($($a: $t),*) $(-> $r)? {
                $(let _ = $a;)*
                unimplemented!(concat!(stringify!($name), ": this host does not provide it"))
            })*
        };
    }

    unsafe fn bytes(p: *const u8, len: u32) -> Vec<u8> {
        if len == 0 {
            vec![]
        } else {
            std::slice::from_raw_parts(p, len as usize).to_vec()
        }
    }

    pub unsafe fn gr_block_height(height: *mut u32) {
        height.write_unaligned(with(|h| h.height))
    }
    pub unsafe fn gr_block_timestamp(t: *mut u64) {
        t.write_unaligned(with(|h| h.timestamp))
    }
    pub unsafe fn gr_gas_available(gas: *mut u64) {
        gas.write_unaligned(with(|h| h.gas))
    }
    pub unsafe fn gr_message_id(id: *mut Hash) {
        id.write_unaligned(with(|h| h.id))
    }
    pub unsafe fn gr_program_id(id: *mut Hash) {
        id.write_unaligned(with(|h| h.program))
    }
    pub unsafe fn gr_source(id: *mut Hash) {
        id.write_unaligned(with(|h| h.source))
    }
    pub unsafe fn gr_value(v: *mut u128) {
        v.write_unaligned(with(|h| h.value))
    }
    pub unsafe fn gr_size(len: *mut u32) {
        len.write_unaligned(with(|h| h.payload.len() as u32))
    }
    pub unsafe fn gr_read(at: u32, len: u32, buffer: *mut u8, err: *mut u32) {
        let code = with(|h| {
            let (at, len) = (at as usize, len as usize);
            match h.payload.get(at..at + len) {
                Some(b) => {
                    std::ptr::copy_nonoverlapping(b.as_ptr(), buffer, len);
                    0
                }
                None => 1,
            }
        });
        err.write_unaligned(code)
    }
    pub unsafe fn gr_debug(_payload: *const u8, _len: u32) {}
    pub unsafe fn gr_panic(payload: *const u8, len: u32) -> ! {
        let text = String::from_utf8_lossy(&bytes(payload, len)).into_owned();
        std::panic::resume_unwind(Box::new(text))
    }
    pub unsafe fn gr_oom_panic() -> ! {
        std::panic::resume_unwind(Box::new(String::from("oom")))
    }
    pub unsafe fn gr_leave() -> ! {
        exit(Exit::Leave)
    }
    pub unsafe fn gr_wait() -> ! {
        exit(Exit::Wait(None))
    }
    pub unsafe fn gr_wait_for(duration: u32) -> ! {
        exit(Exit::Wait(Some(duration)))
    }
    pub unsafe fn gr_wait_up_to(duration: u32) -> ! {
        exit(Exit::Wait(Some(duration)))
    }
    pub unsafe fn gr_wake(id: *const Hash, _delay: u32, err: *mut u32) {
        let id = id.read_unaligned();
        with(|h| h.woken.push(id));
        err.write_unaligned(0)
    }
    pub unsafe fn gr_system_reserve_gas(_gas: u64, err: *mut u32) {
        err.write_unaligned(0)
    }
    pub unsafe fn gr_reply_to(out: *mut ErrorWithHash) {
        out.write_unaligned(with(|h| match h.reply_to {
            Some(hash) => ErrorWithHash { error_code: 0, hash },
            None => ErrorWithHash { error_code: 1, hash: [0; 32] },
        }))
    }
    pub unsafe fn gr_reply_code(out: *mut ErrorWithReplyCode) {
        out.write_unaligned(with(|h| ErrorWithReplyCode {
            error_code: h.reply_to.is_none() as u32,
            reply_code: h.reply_code,
        }))
    }
    pub unsafe fn gr_signal_from(out: *mut ErrorWithHash) {
        out.write_unaligned(with(|h| match h.signal_from {
            Some(hash) => ErrorWithHash { error_code: 0, hash },
            None => ErrorWithHash { error_code: 1, hash: [0; 32] },
        }))
    }

    fn send(to: Hash, value: u128, payload: Vec<u8>, gas: Option<u64>) -> ErrorWithHash {
        with(|h| {
            let n = h.send_attempts;
            h.send_attempts += 1;
            if h.fail_send == Some(n) {
                return ErrorWithHash { error_code: REFUSED, hash: [0; 32] };
            }
            let id = h.fresh_id();
            h.sent.push(Sent { id, to, payload, value, gas, reply_deposit: 0 });
            ErrorWithHash { error_code: 0, hash: id }
        })
    }
    pub unsafe fn gr_send_wgas(
        pid_value: *const HashWithValue,
        payload: *const u8,
        len: u32,
        gas_limit: u64,
        _delay: u32,
        out: *mut ErrorWithHash,
    ) {
        let p = pid_value.read_unaligned();
        out.write_unaligned(send(p.hash, p.value, bytes(payload, len), Some(gas_limit)))
    }
    pub unsafe fn gr_send(
        pid_value: *const HashWithValue,
        payload: *const u8,
        len: u32,
        _delay: u32,
        out: *mut ErrorWithHash,
    ) {
        let p = pid_value.read_unaligned();
        out.write_unaligned(send(p.hash, p.value, bytes(payload, len), None))
    }
    pub unsafe fn gr_reply_deposit(id: *const Hash, gas: u64, err: *mut u32) {
        let id = id.read_unaligned();
        let code = with(|h| match h.sent.iter_mut().find(|m| m.id == id) {
            Some(m) => {
                m.reply_deposit = gas;
                0
            }
            None => 1,
        });
        err.write_unaligned(code)
    }

    fn commit_reply(payload: Vec<u8>, value: u128) -> ErrorWithHash {
        with(|h| {
            if !h.replies.is_empty() {
                return ErrorWithHash { error_code: 310, hash: [0; 32] };
            }
            h.replies.push((payload, value));
            let id = h.fresh_id();
            ErrorWithHash { error_code: 0, hash: id }
        })
    }
    unsafe fn opt_value(value: *const u128) -> u128 {
        if value.is_null() || value as usize == u32::MAX as usize || value as usize == usize::MAX {
            0
        } else {
            value.read_unaligned()
        }
    }
    pub unsafe fn gr_reply(payload: *const u8, len: u32, value: *const u128, out: *mut ErrorWithHash) {
        out.write_unaligned(commit_reply(bytes(payload, len), opt_value(value)))
    }
    pub unsafe fn gr_reply_wgas(
        payload: *const u8,
        len: u32,
        _gas: u64,
        value: *const u128,
        out: *mut ErrorWithHash,
    ) {
        out.write_unaligned(commit_reply(bytes(payload, len), opt_value(value)))
    }
    pub unsafe fn gr_reply_push(payload: *const u8, len: u32, err: *mut u32) {
        let b = bytes(payload, len);
        with(|h| h.pending_reply.extend(b));
        err.write_unaligned(0)
    }
    pub unsafe fn gr_reply_commit(value: *const u128, out: *mut ErrorWithHash) {
        let b = with(|h| std::mem::take(&mut h.pending_reply));
        out.write_unaligned(commit_reply(b, opt_value(value)))
    }

    absent! {
        gr_env_vars(version: u32, vars: *mut u8);
        gr_create_program_wgas(a: *const HashWithValue, b: *const u8, c: u32, d: *const u8, e: u32, f: u64, g: u32, h: *mut ErrorWithTwoHashes);
        gr_create_program(a: *const HashWithValue, b: *const u8, c: u32, d: *const u8, e: u32, f: u32, g: *mut ErrorWithTwoHashes);
        gr_signal_code(a: *mut ErrorWithSignalCode);
        gr_exit(a: *const Hash) -> !;
        gr_random(a: *const Hash, b: *mut BlockNumberWithHash);
        gr_reply_commit_wgas(a: u64, b: *const u128, c: *mut ErrorWithHash);
        gr_reply_push_input(a: u32, b: u32, c: *mut u32);
        gr_reply_input_wgas(a: u32, b: u32, c: u64, d: *const u128, e: *mut ErrorWithHash);
        gr_reply_input(a: u32, b: u32, c: *const u128, d: *mut ErrorWithHash);
        gr_reservation_reply_commit(a: *const HashWithValue, b: *mut ErrorWithHash);
        gr_reservation_reply(a: *const HashWithValue, b: *const u8, c: u32, d: *mut ErrorWithHash);
        gr_reservation_send_commit(a: u32, b: *const TwoHashesWithValue, c: u32, d: *mut ErrorWithHash);
        gr_reservation_send(a: *const TwoHashesWithValue, b: *const u8, c: u32, d: u32, e: *mut ErrorWithHash);
        gr_reserve_gas(a: u64, b: u32, c: *mut ErrorWithHash);
        gr_send_commit_wgas(a: u32, b: *const HashWithValue, c: u64, d: u32, e: *mut ErrorWithHash);
        gr_send_commit(a: u32, b: *const HashWithValue, c: u32, d: *mut ErrorWithHash);
        gr_send_init(a: *mut ErrorWithHandle);
        gr_send_push(a: u32, b: *const u8, c: u32, d: *mut u32);
        gr_send_push_input(a: u32, b: u32, c: u32, d: *mut u32);
        gr_send_input_wgas(a: *const HashWithValue, b: u32, c: u32, d: u64, e: u32, f: *mut ErrorWithHash);
        gr_send_input(a: *const HashWithValue, b: u32, c: u32, d: u32, e: *mut ErrorWithHash);
        gr_unreserve_gas(a: *const Hash, b: *mut ErrorWithGas);
        gr_value_available(a: *mut u128);
    }
}
