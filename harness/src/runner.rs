//! Runs checks: workers, evidence, shrinking, replays. Shared by the harness crates.

use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// CPU seconds after which a single case counts as not terminating (cases take milliseconds).
const CASE_CPU_LIMIT: u64 = 100;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn hash_name(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn case_of(p: &Property, seed: u64, i: u64) -> Case {
    if p.exhaustive.is_some() {
        Case::Index(i)
    } else {
        Case::Random(Rng::new(&[seed, hash_name(p.id), i]))
    }
}

pub mod os {
    #[repr(C)]
    pub struct Limit {
        pub cur: u64,
        pub max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, limit: *const Limit) -> i32;
        fn getrlimit(resource: i32, limit: *mut Limit) -> i32;
        fn clock() -> i64;
    }
    /// No worker takes the machine's memory with it.
    pub fn limit_memory(bytes: u64) {
        unsafe {
            let mut l = Limit { cur: 0, max: 0 };
            if getrlimit(9, &mut l) == 0 {
                l.cur = bytes.min(l.max);
                setrlimit(9, &l);
            }
        }
    }
    /// Takes the limit back (for a child process with one of its own).
    pub fn free_memory() {
        unsafe {
            let mut l = Limit { cur: 0, max: 0 };
            if getrlimit(9, &mut l) == 0 {
                l.cur = l.max;
                setrlimit(9, &l);
            }
        }
    }
    pub fn cpu_millis() -> u64 {
        unsafe { clock() as u64 / 1000 }
    }
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);

/// Ends the process when one case has used far more processor time than any case needs.
fn watchdog(out: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let i = CASE.load(Ordering::SeqCst);
        if i != u64::MAX && os::cpu_millis().saturating_sub(CASE_CPU.load(Ordering::SeqCst)) > CASE_CPU_LIMIT * 1000 {
            let v = json!({"index": i, "signature": "does-not-terminate", "message": format!("one case used more than {CASE_CPU_LIMIT} s of processor time")});
            let _ = std::fs::write(&out, v.to_string());
            std::process::exit(97);
        }
    });
}

fn begin_case(i: u64) {
    CASE_CPU.store(os::cpu_millis(), Ordering::SeqCst);
    CASE.store(i, Ordering::SeqCst);
}

struct Known {
    property: String,
    signature: String,
    what: String,
    /// The choices of the case that shows it, if it is replayed on every run.
    choices: Option<Vec<u64>>,
}

fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    let Ok(text) = std::fs::read_to_string(root().join("known_findings.jsonl")) else { return v };
    for line in text.lines().filter(|l| l.trim_start().starts_with('{')) {
        let j: Value = serde_json::from_str(line).expect("known_findings.jsonl");
        v.push(Known {
            property: j["property"].as_str().unwrap().into(),
            signature: j["signature"].as_str().unwrap().into(),
            what: j["what"].as_str().unwrap().into(),
            choices: j["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()),
        });
    }
    v
}

fn find(id: &str) -> Property {
    (crate::all_properties)().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn worker(id: &str, count: u64, k: u64, out: &Path) {
    quiet_panics();
    os::limit_memory(6 << 30);
    let p = find(id);
    let seed = seed();
    let known: Vec<String> =
        known_findings().into_iter().filter(|f| f.property == id).map(|f| f.signature).collect();
    watchdog(out.with_extension("hang"));
    let progress = out.with_extension("at");
    let mut digests: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut failure = Value::Null;
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cases, mut evals, mut nontrivial) = (0u64, 0u64, 0u64);
    let cap: u64 = std::env::var("HARNESS_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let t0 = Instant::now();
    let mut capped = false;
    let mut at = std::fs::File::create(&progress).unwrap();
    let mut i = k;
    while i < count {
        if t0.elapsed().as_secs() > cap {
            capped = true;
            break;
        }
        begin_case(i);
        {
            use std::os::unix::fs::FileExt;
            let _ = at.write_all_at(&i.to_le_bytes(), 0);
        }
        let o = run_case(&p, case_of(&p, seed, i), false);
        cases += 1;
        evals += o.ctx.evals.max(1);
        for (l, n) in &o.ctx.labels {
            *labels.entry(l).or_default() += n;
        }
        if o.ctx.nontrivial {
            nontrivial += 1;
            digests.insert(case_digest(&o, i, &p));
            if samples.len() < 1 {
                let t = run_case(&p, case_of(&p, seed, i), true);
                samples.push(json!({"case": i, "trace": clip(&t.ctx.trace, 40, 220)}));
            }
        }
        if let Err(f) = &o.result {
            if known.contains(&f.signature) {
                *known_seen.entry(f.signature.clone()).or_default() += 1;
            } else {
                failure = json!({"index": i, "signature": f.signature, "message": f.message, "choices": o.choices});
                break;
            }
        }
        i += WORKERS;
    }
    let _ = at.flush();
    CASE.store(u64::MAX, Ordering::SeqCst);
    let mut d: Vec<u8> = Vec::with_capacity(digests.len() * 8);
    for x in &digests {
        d.extend(x.to_le_bytes());
    }
    std::fs::write(out.with_extension("digests"), d).unwrap();
    let v = json!({
        "cases": cases, "evals": evals, "nontrivial": nontrivial, "labels": labels, "samples": samples,
        "failure": failure, "known": known_seen, "capped": capped,
    });
    std::fs::write(out, v.to_string()).unwrap();
}

fn clip(lines: &[String], n: usize, width: usize) -> Vec<String> {
    let cut = |s: &String| {
        if s.chars().count() > width {
            s.chars().take(width).collect::<String>() + "…"
        } else {
            s.clone()
        }
    };
    if lines.len() > n {
        let mut v: Vec<String> = lines[..n].iter().map(cut).collect();
        v.push(format!("… {} more lines", lines.len() - n));
        v
    } else {
        lines.iter().map(cut).collect()
    }
}

/// Shrinks case `index` and writes the replay (in a process of its own).
fn shrink_case(id: &str, index: u64, out: &Path) {
    quiet_panics();
    os::limit_memory(6 << 30);
    let p = find(id);
    watchdog(out.with_extension("hang"));
    begin_case(index);
    let first = run_case(&p, case_of(&p, seed(), index), false);
    let Err(f) = first.result else {
        std::process::exit(3);
    };
    CASE.store(u64::MAX, Ordering::SeqCst);
    let choices = if p.exhaustive.is_some() { vec![] } else { shrink(&p, first.choices, &f.signature, 60) };
    write_replay(&p, index, choices, out);
}

fn write_replay(p: &Property, index: u64, choices: Vec<u64>, out: &Path) {
    let case = if p.exhaustive.is_some() { Case::Index(index) } else { Case::Choices(choices.clone()) };
    let o = run_case(p, case, true);
    let (sig, msg) = match &o.result {
        Err(f) => (f.signature.clone(), f.message.clone()),
        Ok(()) => ("none".into(), "".into()),
    };
    let v = json!({
        "property": p.id, "seed": seed(), "index": index, "signature": sig, "message": msg,
        "choices": choices, "trace": o.ctx.trace,
    });
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn replay(file: &Path) -> i32 {
    quiet_panics();
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let p = find(j["property"].as_str().expect("property"));
    let index = j["index"].as_u64().unwrap_or(0);
    let case = match j["choices"].as_array() {
        Some(c) if p.exhaustive.is_none() && !c.is_empty() => Case::Choices(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        _ if p.exhaustive.is_some() => Case::Index(index),
        _ => Case::Random(Rng::new(&[j["seed"].as_u64().unwrap_or(1), hash_name(p.id), index])),
    };
    let o = run_case(&p, case, true);
    for l in &o.ctx.trace {
        println!("{l}");
    }
    match o.result {
        Ok(()) => {
            println!("the property holds in this case");
            0
        }
        Err(f) => {
            println!("FAILED [{}] {}", f.signature, f.message);
            1
        }
    }
}

fn run(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let count = if tier == "thorough" { p.thorough } else { p.quick };
    let count = std::env::var("HARNESS_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let dir = std::env::temp_dir().join(format!("harness-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let cap = if tier == "thorough" { "6000" } else { "600" };
    let children: Vec<_> = (0..WORKERS)
        .map(|k| {
            let out = dir.join(format!("w{k}.json"));
            let c = Command::new(&exe)
                .args(["worker", id, &count.to_string(), &k.to_string()])
                .arg(&out)
                .env("HARNESS_CAP", std::env::var("HARNESS_CAP").unwrap_or(cap.into()))
                .stdin(Stdio::null())
                .spawn()
                .expect("worker");
            (k, out, c)
        })
        .collect();
    let mut digests: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut failures: Vec<Value> = vec![];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cases, mut evals, mut capped) = (0, 0, false);
    let mut broken = false;
    for (k, out, mut c) in children {
        let status = c.wait().expect("wait");
        if !status.success() {
            if let Ok(t) = std::fs::read_to_string(out.with_extension("hang")) {
                failures.push(serde_json::from_str(&t).unwrap());
                continue;
            }
            use std::os::unix::process::ExitStatusExt;
            let at = std::fs::read(out.with_extension("at")).unwrap_or_default();
            let index = at.try_into().map(u64::from_le_bytes).unwrap_or(u64::MAX);
            if status.signal() == Some(9) {
                eprintln!("worker {k} of {id} was killed at case {index}");
                broken = true;
            } else {
                failures.push(json!({"index": index, "signature": "crash", "message": format!("the process died: {status}")}));
            }
            continue;
        }
        let j: Value = serde_json::from_str(&std::fs::read_to_string(&out).expect("worker output")).expect("json");
        cases += j["cases"].as_u64().unwrap();
        evals += j["evals"].as_u64().unwrap();
        capped |= j["capped"].as_bool().unwrap();
        for (l, n) in j["labels"].as_object().unwrap() {
            *labels.entry(l.clone()).or_default() += n.as_u64().unwrap();
        }
        for (s, n) in j["known"].as_object().unwrap() {
            *known_seen.entry(s.clone()).or_default() += n.as_u64().unwrap();
        }
        if samples.len() < 3 {
            samples.extend(j["samples"].as_array().unwrap().iter().cloned());
        }
        for d in std::fs::read(out.with_extension("digests")).unwrap().chunks_exact(8) {
            digests.insert(u64::from_le_bytes(d.try_into().unwrap()));
        }
        if !j["failure"].is_null() {
            failures.push(j["failure"].clone());
        }
    }
    samples.truncate(3);
    failures.sort_by_key(|f| f["index"].as_u64());
    for f in known_findings().iter().filter(|f| f.property == id) {
        let still = match &f.choices {
            Some(c) => {
                quiet_panics();
                matches!(run_case(&p, Case::Choices(c.clone()), false).result, Err(e) if e.signature == f.signature)
            }
            None => known_seen.contains_key(&f.signature),
        };
        if still {
            println!("KNOWN-FINDING: property={id} {}", f.what);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let evidence = json!({
        "property": id, "tier": tier, "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": evals, "cases": cases, "distinct_nontrivial": digests.len(), "rule": p.rule,
            "samples": samples, "labels": labels, "exhaustive": p.exhaustive.is_some() && !capped && failures.is_empty(),
            "stopped_by_time": capped, "known_findings_hit": known_seen,
        },
        "assumptions": p.assumptions, "wall_s": wall, "violations": failures.len().min(1),
    });
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");

    let mut code = if broken { 3 } else { 0 };
    if let Some(f) = failures.first() {
        let replays = root().join("replays");
        let _ = std::fs::create_dir_all(&replays);
        let index = f["index"].as_u64().unwrap();
        let path = replays.join(format!("{id}-{}-{index}.json", seed()));
        let _ = std::fs::remove_file(&path);
        let _ = Command::new(&exe)
            .args(["shrink", id, &index.to_string()])
            .arg(&path)
            .stdin(Stdio::null())
            .status();
        let _ = std::fs::remove_file(path.with_extension("hang"));
        if !path.exists() {
            let mut f = f.clone();
            f["property"] = json!(id);
            f["seed"] = json!(seed());
            std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).expect("replay");
        }
        println!("[{}] {}", f["signature"].as_str().unwrap(), f["message"].as_str().unwrap());
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    } else {
        println!("{id} {tier}: held in {evals} evaluations ({} distinct non-trivial), {wall:.1} s", digests.len());
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args[1..].iter().map(|s| s.as_str()).collect();
    let code = match a[..] {
        ["run", id, tier] => run(id, tier),
        ["worker", id, count, k, out] => {
            worker(id, count.parse().unwrap(), k.parse().unwrap(), Path::new(out));
            0
        }
        ["shrink", id, index, out] => {
            shrink_case(id, index.parse().unwrap(), Path::new(out));
            0
        }
        ["replay", file] => replay(Path::new(file)),
        ["case", id, index] => {
            quiet_panics();
            let p = find(id);
            let o = run_case(&p, case_of(&p, seed(), index.parse().unwrap()), true);
            for l in &o.ctx.trace {
                println!("{l}");
            }
            println!("{:?} nontrivial {} labels {:?}", o.result, o.ctx.nontrivial, o.ctx.labels);
            0
        }
        ["list"] => {
            for p in (crate::all_properties)() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: harness run ID quick|thorough | replay FILE | case ID INDEX | list");
            2
        }
    };
    std::process::exit(code);
}
