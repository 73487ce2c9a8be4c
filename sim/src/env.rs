//! The simulated world of one run: the choice tape, the step counter, fault and probe
//! counters, the interleaving fingerprint and the violations observed.
//!
//! There is one world per process at a time. Only the task that holds the baton (see
//! `sched`) touches it, so the order of draws is a pure function of the tape.

use std::collections::BTreeMap;
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub type R = Result<(), Violation>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::env::Violation { class: ($class).to_string(), detail: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) { $crate::fail!($class, $($arg)*) }
    };
}

#[macro_export]
macro_rules! tr {
    ($($arg:tt)*) => {
        if $crate::env::tracing() { $crate::env::trace_line(format!($($arg)*)) }
    };
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut s = hash_bytes(seed ^ 0xcbf2_9ce4_8422_2325, prop.as_bytes());
    let a = splitmix(&mut s);
    let mut t = a ^ idx.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut t);
    t
}

pub enum Tape {
    Random { state: u64 },
    Replay { values: Vec<u32>, pos: usize },
}

pub struct Env {
    tape: Tape,
    pub record: Vec<u32>,
    pub steps: u64,
    pub budget: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// Fingerprint of the interleaving: the sequence of (task, kind) at callouts and fault points.
    pub ihash: u64,
    /// Fingerprint of everything observed (results, draws).
    pub rhash: u64,
    /// Fingerprint of the case itself: workload and faults, without scheduling.
    pub chash: u64,
    pub nontrivial: bool,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub violations: Vec<Violation>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub over_budget: bool,
    /// Side file of the draws, for runs that end the process.
    draws: Option<std::fs::File>,
}

static ENV: Mutex<Option<Env>> = Mutex::new(None);

fn lock() -> MutexGuard<'static, Option<Env>> {
    ENV.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn with<T>(f: impl FnOnce(&mut Env) -> T) -> T {
    let mut guard = lock();
    f(guard.as_mut().expect("no simulation in progress"))
}

pub const DEFAULT_BUDGET: u64 = 20_000_000;

pub fn begin(tape: Tape, tracing: bool, want_sample: bool) {
    *lock() = Some(Env {
        tape,
        record: Vec::new(),
        steps: 0,
        budget: DEFAULT_BUDGET,
        switches: 0,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        ihash: 0xcbf2_9ce4_8422_2325,
        rhash: 0x1234_5678_9abc_def1,
        chash: 0x0dd0_5678_9abc_def1,
        nontrivial: false,
        tracing,
        trace: Vec::new(),
        violations: Vec::new(),
        sample: None,
        want_sample,
        over_budget: false,
        draws: std::env::var_os("SGMLSIM_DRAWS").and_then(|p| std::fs::File::create(p).ok()),
    });
}

pub fn end() -> Env {
    lock().take().expect("no simulation in progress")
}

/// The one source of choices. `draw(n)` is in `0..n`; 0 is always the simplest choice.
pub fn draw(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|env| {
        let v = match &mut env.tape {
            Tape::Random { state } => {
                ((splitmix(state) >> 32).wrapping_mul(n as u64) >> 32) as u32
            }
            Tape::Replay { values, pos } => {
                let v = values.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                (v as usize % n) as u32
            }
        };
        env.record.push(v);
        if let Some(f) = &mut env.draws {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        env.rhash = hash_bytes(env.rhash, &v.to_le_bytes());
        v as usize
    })
}

/// True with probability 1/den; false is the simple choice.
pub fn one_in(den: usize) -> bool {
    if den <= 1 {
        return true;
    }
    draw(den) == den - 1
}

/// True with probability num/den; false is the simple choice.
pub fn chance(num: usize, den: usize) -> bool {
    draw(den) >= den - num
}

/// In `lo..=hi`.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + draw(hi - lo + 1)
}

pub fn pick<T: Clone>(items: &[T]) -> T {
    items[draw(items.len())].clone()
}

/// Picks an index by weight; the first index is the simple choice.
pub fn weighted(weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let mut v = draw(total.max(1) as usize) as u32;
    for (i, w) in weights.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}

/// A size: mostly small, sometimes up to `max`.
pub fn size(small: usize, max: usize) -> usize {
    if one_in(12) {
        range(0, max)
    } else {
        range(0, small)
    }
}

/// A number of repetitions, often next to a power of two.
pub fn count() -> usize {
    match draw(4) {
        0 => range(2, 20),
        1 => 1 << range(3, 9),
        2 => (1 << range(3, 9)) - 1,
        _ => (1 << range(3, 9)) + 1,
    }
}

pub fn fault(kind: &str) {
    with(|env| *env.faults.entry(kind.to_string()).or_insert(0) += 1);
    if tracing() {
        trace_line(format!("fault: {}", kind));
    }
}

/// Simulated time that passed without any choice in it.
pub fn passed(steps: u64) {
    if let Some(e) = lock().as_mut() {
        e.steps += steps;
    }
}

pub fn probe(name: &'static str) {
    with(|env| *env.probes.entry(name).or_insert(0) += 1);
}

pub fn observe(s: &str) {
    with(|env| env.rhash = hash_bytes(env.rhash, s.as_bytes()));
}

/// Describes the case being run: workload and faults.
pub fn case(s: &str) {
    with(|env| env.chash = hash_bytes(env.chash, s.as_bytes()));
}

pub fn nontrivial() {
    with(|env| env.nontrivial = true);
}

pub fn mark(tag: u64) {
    with(|env| env.ihash = hash_bytes(env.ihash, &tag.to_le_bytes()));
}

pub fn tracing() -> bool {
    with(|env| env.tracing)
}

pub fn trace_line(s: String) {
    with(|env| {
        if env.trace.len() < 4000 {
            env.trace.push(s)
        }
    });
}

pub fn sample(f: impl FnOnce() -> String) {
    if with(|env| env.want_sample && env.sample.is_none()) {
        let s = f();
        with(|env| env.sample = Some(s));
    }
}

pub fn report(class: &str, detail: String) {
    with(|env| {
        if env.violations.len() < 8 {
            env.violations.push(Violation {
                class: class.to_string(),
                detail,
            })
        }
    });
}

pub fn first_violation() -> R {
    match with(|env| env.violations.first().cloned()) {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

/// Shortens a text for a report.
pub fn short(s: &str) -> String {
    if s.len() <= 600 {
        return s.to_string();
    }
    let mut a = 400;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - 150;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{}…({} bytes)…{}", &s[..a], s.len(), &s[b..])
}
