//! The token program, one message at a time.
use gsys::host;
pub use parity_scale_codec::{Decode, Encode};
pub use sails_rs::{ActorId, U256};
use std::panic::{catch_unwind, AssertUnwindSafe};

static mut PROGRAM: Option<&'static token_app::Program> = None;

pub fn id(n: u8) -> ActorId {
    [n; 32].into()
}

fn context(by: ActorId, payload: Vec<u8>) {
    host::with(|h| {
        let next_id = h.next_id;
        *h = host::Host { program: [0xBB; 32], next_id, source: by.into(), payload, gas: u64::MAX / 4, timestamp: 1_000_000, height: 1, ..Default::default() };
        h.id = h.fresh_id();
    });
}

pub fn deploy(by: u8) {
    std::panic::set_hook(Box::new(|i| {
        // refusals of the program are panics that are caught; only the checks here speak
        if i.location().is_some_and(|l| l.file() == "src/main.rs") {
            eprintln!("{i}");
        }
    }));
    context(id(by), vec![]);
    let p = token_app::Program::new("Name".into(), "SYM".into(), 12);
    unsafe { PROGRAM = Some(Box::leak(Box::new(p))) };
}

/// The decoded reply, or nothing if the message is refused.
pub fn send<R: Decode>(by: u8, method: &str, args: impl Encode) -> Option<R> {
    context(id(by), [method.encode(), args.encode()].concat());
    let r = catch_unwind(AssertUnwindSafe(|| {
        gstd::message_loop(async move {
            let body = gstd::msg::load_bytes().expect("payload");
            let mut vft = unsafe { PROGRAM }.expect("deployed").vft();
            let out = vft.handle(&body).await;
            gstd::msg::reply_bytes(out, 0).expect("reply");
        });
    }));
    let replies = host::with(|h| std::mem::take(&mut h.replies));
    match r {
        Ok(()) => {
            let out = replies.into_iter().next().expect("a reply").0;
            Some(R::decode(&mut &out[method.encode().len()..]).expect("the type of the reply"))
        }
        Err(_) => {
            let id = host::with(|h| h.id);
            host::with(|h| h.signal_from = Some(id));
            let _ = catch_unwind(AssertUnwindSafe(gstd::handle_signal));
            host::with(|h| h.clear_effects());
            None
        }
    }
}
