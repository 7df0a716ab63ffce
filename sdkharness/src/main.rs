//! Checks of the SDK's library (`sdk/src/wasm`), with the engine and the oracles of the program's checks.

#![allow(dead_code)]

#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/refamm.rs"]
mod refamm;
#[path = "../../harness/src/refmath.rs"]
mod refmath;
#[path = "../../harness/src/runner.rs"]
mod runner;
mod sut;
mod props;

pub use decimal::U256;

fn all_properties() -> Vec<engine::Property> {
    props::all()
}

fn panic_extra(_: &(dyn std::any::Any + Send)) -> Option<String> {
    None
}

fn main() {
    runner::main()
}
