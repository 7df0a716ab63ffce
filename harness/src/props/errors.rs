//! What the libraries' errors tell of where they come from.

use crate::engine::*;
use crate::ensure;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use traceable_result::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "M10",
        run: errors,
        quick: 1_000_000,
        thorough: 30_000_000,
        rule: "errors that pass three marked places and one that is not marked",
        assumptions: &[],
        exhaustive: None,
    }]
}

#[derive(Clone, Debug)]
enum Step {
    /// into one of the functions, marking what comes out of it
    Call(usize, bool),
    /// into one of the functions, with a number instead of its error
    Recover(usize, u64),
    Value(u64),
    Error(String),
    FromText(String),
    FromTextOk(u64),
}

/// Where an error is marked: function and line.
type Place = (&'static str, u32);

#[derive(Default)]
struct Run {
    steps: Vec<Step>,
    next: usize,
    /// what should come out
    want: Option<Result<u64, (String, Vec<Place>)>>,
}

thread_local! {
    static RUN: RefCell<Run> = RefCell::default();
}

fn step() -> Step {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.next += 1;
        r.steps[r.next - 1].clone()
    })
}
fn out(v: u64) {
    RUN.with(|r| r.borrow_mut().want = Some(Ok(v)));
}
fn begins(cause: &str, at: Place) {
    RUN.with(|r| r.borrow_mut().want = Some(Err((cause.into(), vec![at]))));
}
fn passes(at: Place) {
    RUN.with(|r| {
        if let Some(Err((_, places))) = &mut r.borrow_mut().want {
            places.push(at);
        }
    });
}
fn text(r: Result<u64, String>) -> Result<u64, String> {
    r
}

macro_rules! body {
    ($name:literal) => {
        match step() {
            Step::Call(f, true) => {
                let r = call(f);
                passes(($name, line!()));
                ok_or_mark_trace!(r)
            }
            Step::Call(f, false) => {
                let v = call(f)?;
                Ok(v)
            }
            Step::Recover(f, v) => match call(f) {
                Ok(v) => Ok(v),
                Err(_) => {
                    out(v);
                    Ok(v)
                }
            },
            Step::Value(v) => {
                out(v);
                Ok(v)
            }
            Step::Error(cause) => {
                begins(&cause, ($name, line!()));
                Err(err!(&cause))
            }
            Step::FromText(cause) => {
                begins(&cause, ($name, line!()));
                from_result!(text(Err(cause)))
            }
            Step::FromTextOk(v) => {
                out(v);
                from_result!(text(Ok(v)))
            }
        }
    };
}

fn first() -> TrackableResult<u64> {
    body!("first")
}
fn second() -> TrackableResult<u64> {
    body!("second")
}
struct Third;
impl Third {
    fn third(&self) -> TrackableResult<u64> {
        body!("third")
    }
}
mod inner {
    use super::*;
    pub fn fourth<T>(_: T) -> TrackableResult<u64> {
        body!("fourth")
    }
}
fn call(f: usize) -> TrackableResult<u64> {
    match f {
        0 => first(),
        1 => second(),
        2 => Third.third(),
        _ => inner::fourth(f as u8),
    }
}

fn cause(src: &mut Src) -> String {
    const SOME: [&str; 6] = ["", "addition overflow", "-> here", "a\nb", "\"{}\" {0:?}", "größer als 2²⁵⁶"];
    match src.below(4) {
        0 => SOME[src.usize(SOME.len())].into(),
        1 => TrackableError::cast::<u128>(),
        _ => format!("reason {}", src.below(1000)),
    }
}

fn errors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let depth = if src.chance(1, 20) { src.below(80) } else { src.below(9) };
    let mut steps = vec![];
    let (mut marked, mut bare) = (0, 0);
    for _ in 0..depth {
        steps.push(match src.below(12) {
            0 => Step::Recover(src.usize(4), src.below(100)),
            1..=3 => Step::Call(src.usize(4), false),
            _ => Step::Call(src.usize(4), true),
        });
    }
    for s in &steps {
        match s {
            Step::Call(_, true) => marked += 1,
            Step::Call(_, false) => bare += 1,
            _ => (marked, bare) = (0, 0),
        }
    }
    let recovered = steps.iter().any(|s| matches!(s, Step::Recover(..)));
    steps.push(match src.below(8) {
        0 => Step::Value(src.below(100)),
        1 => Step::FromTextOk(src.below(100)),
        2 | 3 => Step::FromText(cause(src)),
        _ => Step::Error(cause(src)),
    });
    ctx.log(|| format!("{steps:?}"));
    RUN.with(|r| *r.borrow_mut() = Run { steps, ..Default::default() });
    let got = call(src.usize(4));
    let want = RUN.with(|r| r.borrow_mut().want.take()).expect("something comes out");
    match (got, want) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "value", "{a} comes out, not {b}");
            ensure!(catch_unwind(|| unwrap!(Ok::<u64, TrackableError>(a))).ok() == Some(a), "unwrapped", "{a} does not unwrap to itself");
            ctx.label("value");
        }
        (Err(e), Err((cause, places))) => {
            ctx.log(|| format!("{e:?}"));
            ensure!(e.cause == cause, "cause", "the cause is {:?}, should be {cause:?}", e.cause);
            ensure!(e.stack.len() == places.len(), "places", "{:?} should be {places:?}", e.stack);
            for (s, (name, line)) in e.stack.iter().zip(&places) {
                let near = s.contains(&line.to_string());
                ensure!(s.contains(file!()) && s.contains(name) && near, "place", "{s} should tell of {name} in line {line}");
            }
            let (told, c, stack) = e.get();
            ensure!(c == e.cause && stack == e.stack && told == e.to_string(), "parts", "{:?} of {e:?}", (told, c, stack));
            // the text has it all, in order
            let mut rest = told.as_str();
            for part in [&cause].into_iter().chain(&e.stack) {
                let Some(at) = rest.find(part.as_str()) else { return fail("text", format!("{told:?} does not tell {part:?} in its place")) };
                rest = &rest[at + part.len()..];
            }
            let panicked = catch_unwind(AssertUnwindSafe(|| unwrap!(Err::<u64, TrackableError>(e))));
            let Err(p) = panicked else { return fail("unwrapped", format!("an error unwraps: {told}")) };
            let p = panic_text(p);
            ensure!(p.contains(&told) || p.contains(format!("{told:?}").trim_matches('"')), "panic", "{p:?} should tell {told:?}");
            ctx.nontrivial = !recovered && marked >= 3 && bare >= 1;
            ctx.label("error");
        }
        (got, want) => return fail("outcome", format!("{got:?} should be {want:?}")),
    }
    Ok(())
}
