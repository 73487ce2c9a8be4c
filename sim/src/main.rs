mod damage;
mod doc;
mod driver;
mod env;
mod memory;
mod ops;
mod plan;
mod props;
mod rescan;
mod shrink;
mod sim;
mod vocab;
mod world;

use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

use env::{Env, Tape, Violation, R};
use props::Property;

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;

pub const EXIT_VIOLATION: i32 = 1;
pub const EXIT_HARNESS: i32 = 2;
pub const EXIT_HANG: i32 = 97;
pub const EXIT_STUCK: i32 = 98;

/// The run in progress, for the watchdog.
pub static RUN: AtomicU64 = AtomicU64::new(u64::MAX);

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn getrusage(who: i32, usage: *mut [i64; 18]) -> i32;
    fn _exit(code: i32) -> !;
}

fn cpu_seconds() -> f64 {
    let mut u = [0i64; 18];
    unsafe { getrusage(0, &mut u) };
    (u[0] + u[2]) as f64 + (u[1] + u[3]) as f64 / 1e6
}

/// Ends the process if one run uses too much CPU (endless loop) or makes no progress at all
/// (an operation waits for another one).
fn start_watchdog(hang_cpu: f64, stuck_wall: f64) {
    std::thread::spawn(move || {
        let mut run = u64::MAX;
        let mut cpu_at_start = 0.0;
        let mut last_cpu = 0.0;
        let mut idle = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = RUN.load(Ordering::Relaxed);
            let cpu = cpu_seconds();
            if now != run {
                run = now;
                cpu_at_start = cpu;
                idle = 0.0;
            } else if run != u64::MAX {
                if cpu - cpu_at_start > hang_cpu {
                    eprintln!("watchdog: run {} used {:.1} s of CPU", run, cpu - cpu_at_start);
                    unsafe { _exit(EXIT_HANG) };
                }
                if cpu - last_cpu < 0.02 {
                    idle += 0.2;
                } else {
                    idle = 0.0;
                }
                if idle > stuck_wall {
                    eprintln!("watchdog: run {} is stuck", run);
                    unsafe { _exit(EXIT_STUCK) };
                }
            }
            last_cpu = cpu;
        }
    });
}

fn prepare_process() {
    vocab::load();
    unsafe {
        // Address space: an endless allocation ends this process, not the sandbox
        let lim = [6u64 << 30, 6u64 << 30];
        setrlimit(9, &lim);
        // No core files
        let none = [0u64, 0u64];
        setrlimit(4, &none);
    }
    world::install_panic_hook();
    let _ = log::set_logger(&world::SimLogger);
    log::set_max_level(log::LevelFilter::Off);
    start_watchdog(20.0, 20.0);
}

/// One simulated run.
pub fn run_once(prop: &Property, tape: Tape, tracing: bool, want_sample: bool) -> (Env, R) {
    env::begin(tape, tracing, want_sample);
    log::set_max_level(log::LevelFilter::Off);
    let result = std::panic::catch_unwind(prop.run);
    log::set_max_level(log::LevelFilter::Off);
    let mut e = env::end();
    let result = match result {
        Ok(r) => r,
        Err(p) => {
            if p.downcast_ref::<world::OverBudget>().is_some() {
                Ok(())
            } else {
                let text = world::describe_panic(&p);
                Err(Violation {
                    class: "panic".into(),
                    detail: format!("unexpected panic: {}", text),
                })
            }
        }
    };
    let result = if let Some(v) = e.violations.first().cloned() {
        Err(v)
    } else {
        result
    };
    if let Err(v) = &result {
        e.trace.push(format!("violation [{}]: {}", v.class, v.detail));
    }
    (e, result)
}

fn parse_u64(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| {
        eprintln!("not a number: {}", s);
        std::process::exit(EXIT_HARNESS)
    })
}

fn property(id: &str) -> &'static Property {
    props::find(id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(EXIT_HARNESS)
    })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

/// worker ID SEED START END PREFIX WALL: runs START..END; statistics go to files named PREFIX.*
fn worker(args: &[String]) {
    let prop = property(&args[0]);
    let seed = parse_u64(&args[1]);
    let (start, end) = (parse_u64(&args[2]), parse_u64(&args[3]));
    let prefix = &args[4];
    let wall = parse_u64(&args[5]);
    let began = std::time::Instant::now();
    prepare_process();
    let progress = fs::File::create(format!("{}.progress", prefix)).expect("progress file");
    let mut hashes = std::io::BufWriter::new(fs::File::create(format!("{}.hashes", prefix)).expect("hash file"));
    let mut faults = std::collections::BTreeMap::new();
    let mut probes = std::collections::BTreeMap::new();
    let (mut steps, mut switches, mut done) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut violation = String::new();
    let mut slowest = (0.0, start);
    for i in start..end {
        if began.elapsed().as_secs() >= wall {
            break;
        }
        progress.write_all_at(&i.to_le_bytes(), 0).expect("progress");
        RUN.store(i, Ordering::Relaxed);
        let want = samples.len() < 2;
        let cpu_before = cpu_seconds();
        let (e, r) = run_once(prop, Tape::Random { state: env::run_seed(seed, prop.id, i) }, false, want);
        let cpu = cpu_seconds() - cpu_before;
        if cpu > slowest.0 {
            slowest = (cpu, i);
        }
        done += 1;
        steps += e.steps;
        switches += e.switches;
        for (k, v) in e.faults {
            *faults.entry(k).or_insert(0u64) += v;
        }
        for (k, v) in e.probes {
            *probes.entry(k).or_insert(0u64) += v;
        }
        if let Some(s) = e.sample {
            samples.push(s);
        }
        let mut line = [0u8; 25];
        line[0..8].copy_from_slice(&e.chash.to_le_bytes());
        line[8..16].copy_from_slice(&e.ihash.to_le_bytes());
        line[16..24].copy_from_slice(&e.rhash.to_le_bytes());
        line[24] = e.nontrivial as u8;
        hashes.write_all(&line).expect("hashes");
        if let Err(v) = r {
            violation = format!("violation\t{}\t{}\t{}\n", i, v.class, esc(&v.detail));
            break;
        }
    }
    RUN.store(u64::MAX, Ordering::Relaxed);
    hashes.flush().expect("hashes");
    let mut out = format!("done\t{}\nsteps\t{}\nswitches\t{}\n", done, steps, switches);
    for (k, v) in faults {
        out += &format!("fault\t{}\t{}\n", k, v);
    }
    for (k, v) in probes {
        out += &format!("probe\t{}\t{}\n", k, v);
    }
    for s in samples {
        out += &format!("sample\t{}\n", esc(&s));
    }
    out += &format!("slowest\t{:.2}\t{}\n", slowest.0, slowest.1);
    out += &violation;
    fs::write(format!("{}.stats", prefix), out).expect("stats");
    std::process::exit(if violation.is_empty() { 0 } else { EXIT_VIOLATION });
}

fn finish_single(e: Env, r: R, trace: bool) -> ! {
    if trace {
        for l in &e.trace {
            println!("trace\t{}", esc(l));
        }
    }
    println!(
        "hash\t{:016x}\t{:016x}\t{:016x}",
        e.chash, e.ihash, e.rhash
    );
    println!(
        "tape\t{}",
        e.record.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
    );
    if let Err(v) = r {
        println!("violation\t{}\t{}", v.class, esc(&v.detail));
        std::process::exit(EXIT_VIOLATION);
    }
    std::process::exit(0);
}

/// seq ID SEED A B TRACE: runs A..=B in one process; reports what the last one does.
fn seq(args: &[String]) -> ! {
    let prop = property(&args[0]);
    let seed = parse_u64(&args[1]);
    let (a, b) = (parse_u64(&args[2]), parse_u64(&args[3]));
    let trace = args.get(4).map(|s| s == "trace").unwrap_or(false);
    prepare_process();
    for i in a..=b {
        RUN.store(i, Ordering::Relaxed);
        let (e, r) = run_once(prop, Tape::Random { state: env::run_seed(seed, prop.id, i) }, trace && i == b, false);
        if i == b {
            finish_single(e, r, trace);
        }
        if r.is_err() {
            finish_single(e, r, trace);
        }
    }
    unreachable!()
}

/// tape ID FILE TRACE: runs the tape in FILE.
fn tape(args: &[String]) -> ! {
    let prop = property(&args[0]);
    let values = fs::read_to_string(&args[1])
        .expect("tape file")
        .split_ascii_whitespace()
        .map(|s| parse_u64(s) as u32)
        .collect();
    let trace = args.get(2).map(|s| s == "trace").unwrap_or(false);
    prepare_process();
    RUN.store(0, Ordering::Relaxed);
    let (e, r) = run_once(prop, Tape::Replay { values, pos: 0 }, trace, false);
    finish_single(e, r, trace);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = args.get(1..).unwrap_or(&[]);
    match args.first().map(|s| s.as_str()) {
        Some("worker") if rest.len() == 6 => worker(rest),
        Some("seq") if rest.len() >= 4 => seq(rest),
        Some("tape") if rest.len() >= 2 => tape(rest),
        Some("check") if !rest.is_empty() => driver::check(property(&rest[0])),
        Some("replay") if !rest.is_empty() => driver::replay(&rest[0]),
        Some("determinism") if !rest.is_empty() => driver::determinism(property(&rest[0])),
        Some("probe") if !rest.is_empty() => {
            prepare_process();
            std::process::exit(if props::c14::probe_known(&rest[0]) { 0 } else { EXIT_HARNESS });
        }
        Some("vocabulary") => {
            let v = vocab::Vocabulary::of_source(&driver::repo().join("src"));
            print!("{}", if rest.is_empty() { v } else { v.beyond(&driver::known_vocabulary()) }.lines());
        }
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: sgmlsim check ID | replay FILE | determinism ID | list");
            std::process::exit(EXIT_HARNESS);
        }
    }
}
