//! Checks of the program and of its libraries.

#![allow(dead_code)]

extern crate alloc;

mod client;
mod engine;
mod hist;
mod props;
mod refamm;
mod refmath;
mod runner;
mod st;
mod sut;
mod world;

pub use sails_rs::U256;

fn all_properties() -> Vec<engine::Property> {
    props::all()
}

/// What a panic that is not one says: the program left through a system call.
fn panic_extra(e: &(dyn std::any::Any + Send)) -> Option<String> {
    e.downcast_ref::<gsys::host::Exit>().map(|x| format!("{x:?}"))
}

fn main() {
    runner::main()
}
