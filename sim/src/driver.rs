//! Spreads the runs of a check over worker processes, confirms and minimises what they find,
//! and writes the evidence.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::props::{self, Property};
use crate::shrink::{deadline, Shrinker};
use crate::vocab::Vocabulary;
use crate::{EXIT_HANG, EXIT_HARNESS, EXIT_STUCK, EXIT_VIOLATION};

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn repo() -> PathBuf {
    std::env::var_os("SGMLSIM_REPO").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/repo"))
}

/// The literals of the library's source when this was last looked at.
pub fn known_vocabulary() -> Vocabulary {
    Vocabulary::parse(&fs::read_to_string(root().join("sim/vocabulary.txt")).unwrap_or_default())
}

/// Hands the words to be tried to all child processes of this one.
fn offer(v: &Vocabulary) -> PathBuf {
    let file = std::env::temp_dir().join(format!("sgmlsim-words-{}", std::process::id()));
    fs::write(&file, v.lines()).unwrap_or_else(|e| harness_error(&e.to_string()));
    std::env::set_var("SGMLSIM_DICT", &file);
    file
}

fn offered() -> String {
    std::env::var_os("SGMLSIM_DICT").and_then(|p| fs::read_to_string(p).ok()).unwrap_or_default()
}

/// Removes the list of words at the end.
struct Offer(PathBuf);

impl Drop for Offer {
    fn drop(&mut self) {
        let _ = fs::remove_file(&self.0);
    }
}

fn leave(code: i32, offer: Offer) -> ! {
    drop(offer);
    std::process::exit(code)
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Found {
    class: String,
    detail: String,
}

/// What a child process says about one run.
struct Single {
    found: Option<Found>,
    tape: Vec<u32>,
    trace: Vec<String>,
    hash: String,
}

fn run_child(args: &[String], limit: Duration) -> Result<Single, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let out = child.stdout.take().unwrap();
    let err = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut { out }, &mut s);
        s
    });
    let err_reader = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut { err }, &mut s);
        s
    });
    let began = Instant::now();
    let mut killed = false;
    let mut nap = Duration::from_micros(300);
    let status = loop {
        match child.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s,
            None => {
                if began.elapsed() > limit {
                    killed = true;
                    let _ = child.kill();
                }
                std::thread::sleep(nap);
                nap = (nap * 2).min(Duration::from_millis(20));
            }
        }
    };
    let out = String::from_utf8_lossy(&reader.join().unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&err_reader.join().unwrap_or_default()).into_owned();
    let mut single = Single {
        found: None,
        tape: vec![],
        trace: vec![],
        hash: String::new(),
    };
    for line in out.lines() {
        let mut parts = line.splitn(2, '\t');
        match (parts.next(), parts.next()) {
            (Some("tape"), Some(t)) => single.tape = t.split_ascii_whitespace().filter_map(|s| s.parse().ok()).collect(),
            (Some("trace"), Some(t)) => single.trace.push(unesc(t)),
            (Some("hash"), Some(t)) => single.hash = t.to_string(),
            (Some("violation"), Some(t)) => {
                let (class, detail) = t.split_once('\t').unwrap_or((t, ""));
                single.found = Some(Found {
                    class: class.to_string(),
                    detail: unesc(detail),
                });
            }
            _ => {}
        }
    }
    if killed {
        single.found = Some(Found { class: "hang".into(), detail: "the run does not end".into() });
    } else {
        death(&status, &err, &mut single.found)?;
    }
    Ok(single)
}

/// Turns the way a process ended into a finding.
fn death(status: &std::process::ExitStatus, err: &str, found: &mut Option<Found>) -> Result<(), String> {
    use std::os::unix::process::ExitStatusExt;
    let last = |n: usize| -> String { err.lines().filter(|l| !l.trim().is_empty()).take(n).collect::<Vec<_>>().join("; ") };
    match (status.code(), status.signal()) {
        (Some(0), _) => Ok(()),
        (Some(c), _) if c == EXIT_VIOLATION && found.is_some() => Ok(()),
        (Some(c), _) if c == EXIT_HANG => {
            *found = Some(Found { class: "hang".into(), detail: format!("the run does not end ({})", last(2)) });
            Ok(())
        }
        (Some(c), _) if c == EXIT_STUCK => {
            *found = Some(Found { class: "stuck".into(), detail: format!("an operation waits for another one ({})", last(2)) });
            Ok(())
        }
        (None, Some(sig)) => {
            let class = if err.contains("overflowed its stack") {
                "stack-overflow"
            } else if err.contains("memory allocation") {
                "out-of-memory"
            } else {
                "process-death"
            };
            *found = Some(Found { class: class.into(), detail: format!("the process died of signal {}: {}", sig, last(3)) });
            Ok(())
        }
        (code, sig) => Err(format!("child ended with code {:?} signal {:?}: {}", code, sig, err)),
    }
}

struct WorkerRun {
    child: Child,
    prefix: String,
    start: u64,
    end: u64,
    status: Option<std::process::ExitStatus>,
}

#[derive(Default)]
struct Totals {
    done: u64,
    steps: u64,
    switches: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<String>,
    /// CPU seconds, run
    slowest: (f64, u64),
    cases: HashSet<u64>,
    interleavings: HashSet<u64>,
}

fn harness_error(msg: &str) -> ! {
    eprintln!("harness error: {}", msg);
    std::process::exit(EXIT_HARNESS)
}

pub fn check(prop: &'static Property) {
    let began = Instant::now();
    let seed = seed();
    let tier = tier();
    let runs = if tier == "thorough" { prop.thorough } else { prop.quick };
    let wall = std::env::var("VERIF_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 6 * 3600 } else { 240 });
    let workers = 8u64;
    let scratch = std::env::temp_dir().join(format!("sgmlsim-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap_or_else(|e| harness_error(&e.to_string()));
    println!("{}: seed {} tier {} runs {}", prop.id, seed, tier, runs);
    let words = Vocabulary::of_source(&repo().join("src")).beyond(&known_vocabulary());
    if !words.words.is_empty() || !words.numbers.is_empty() {
        println!("favouring new words {:?} and numbers {:?}", words.words, words.numbers);
    }
    let offer = Offer(offer(&words));

    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut active: Vec<WorkerRun> = vec![];
    for w in 0..workers {
        let start = runs * w / workers;
        let end = runs * (w + 1) / workers;
        if start == end {
            continue;
        }
        let prefix = scratch.join(format!("w{}", w)).to_string_lossy().into_owned();
        let errfile = fs::File::create(format!("{}.err", prefix)).unwrap_or_else(|e| harness_error(&e.to_string()));
        let child = Command::new(&exe)
            .args(["worker", prop.id, &seed.to_string(), &start.to_string(), &end.to_string(), &prefix, &wall.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(errfile)
            .spawn()
            .unwrap_or_else(|e| harness_error(&e.to_string()));
        active.push(WorkerRun { child, prefix, start, end, status: None });
    }

    // Wait for all; once one has found something, the others need not finish
    let mut failed_at: Option<Instant> = None;
    loop {
        let mut running = false;
        for w in active.iter_mut() {
            if w.status.is_none() {
                match w.child.try_wait() {
                    Ok(Some(s)) => {
                        if !s.success() && failed_at.is_none() {
                            failed_at = Some(Instant::now());
                        }
                        w.status = Some(s);
                    }
                    Ok(None) => running = true,
                    Err(e) => harness_error(&e.to_string()),
                }
            }
        }
        if !running {
            break;
        }
        if failed_at.map(|t| t.elapsed() > Duration::from_secs(5)).unwrap_or(false) {
            for w in active.iter_mut() {
                if w.status.is_none() {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }

    let mut totals = Totals::default();
    let mut candidates: Vec<(u64, u64, Option<Found>)> = vec![]; // (run, worker start, found)
    for w in &active {
        let stats = fs::read_to_string(format!("{}.stats", w.prefix)).unwrap_or_default();
        let mut found: Option<(u64, Found)> = None;
        for line in stats.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f.as_slice() {
                ["done", n] => totals.done += n.parse::<u64>().unwrap_or(0),
                ["steps", n] => totals.steps += n.parse::<u64>().unwrap_or(0),
                ["switches", n] => totals.switches += n.parse::<u64>().unwrap_or(0),
                ["fault", k, n] => *totals.faults.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0),
                ["probe", k, n] => *totals.probes.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0),
                ["slowest", c, i] => {
                    let c = c.parse::<f64>().unwrap_or(0.0);
                    if c > totals.slowest.0 {
                        totals.slowest = (c, i.parse().unwrap_or(0));
                    }
                }
                ["sample", s] => totals.samples.push(unesc(s)),
                ["violation", i, class, detail] => {
                    found = Some((i.parse().unwrap_or(0), Found { class: class.to_string(), detail: unesc(detail) }))
                }
                _ => {}
            }
        }
        if let Ok(h) = fs::read(format!("{}.hashes", w.prefix)) {
            for rec in h.chunks_exact(25) {
                let c = u64::from_le_bytes(rec[0..8].try_into().unwrap());
                let i = u64::from_le_bytes(rec[8..16].try_into().unwrap());
                if rec[24] != 0 {
                    totals.cases.insert(c);
                }
                totals.interleavings.insert(i);
            }
        }
        let status = match &w.status {
            Some(s) => *s,
            None => continue,
        };
        if let Some((i, f)) = found {
            candidates.push((i, w.start, Some(f)));
        } else if !status.success() {
            let err = fs::read_to_string(format!("{}.err", w.prefix)).unwrap_or_default();
            let mut found = None;
            if let Err(e) = death(&status, &err, &mut found) {
                let _ = fs::remove_dir_all(&scratch);
                harness_error(&e);
            }
            let at = fs::read(format!("{}.progress", w.prefix))
                .ok()
                .and_then(|b| b.try_into().ok())
                .map(u64::from_le_bytes)
                .unwrap_or(w.start);
            debug_assert!(at < w.end);
            candidates.push((at, w.start, found));
        }
    }
    candidates.sort_by_key(|c| c.0);

    let mut violations = 0;
    let mut determinism = String::from("not run");
    let mut nondeterministic = None;
    if candidates.is_empty() {
        // The same runs in other processes, in other batches: the fingerprints must agree
        match recheck(prop, seed, &active) {
            Ok(n) => determinism = format!("{} runs repeated in other processes with identical fingerprints", n),
            Err((i, a, b)) => {
                determinism = format!("run {} gave fingerprint {} once and {} another time", i, a, b);
                nondeterministic = Some((i, a, b));
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    if let Some((run, start, found)) = candidates.into_iter().next() {
        violations = 1;
        let path = confirm(prop, seed, run, start, found);
        write_evidence(prop, seed, tier, &totals, began, violations, &determinism, &[]);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        leave(EXIT_VIOLATION, offer);
    }
    if let Some((i, a, b)) = nondeterministic {
        if prop.id == "C04" {
            let path = out_path(prop, seed, i);
            let text = format!(
                "sgmlsim-replay 1\nproperty {}\n{}mode determinism\nseed {}\nrun {}\nclass nondeterminism\n# detail: the same run gave {} and {}: a result depends on what ran before in the process, or on chance\n",
                prop.id, offered(), seed, i, a, b
            );
            let _ = fs::write(&path, text);
            write_evidence(prop, seed, tier, &totals, began, 1, &determinism, &[]);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            leave(EXIT_VIOLATION, offer);
        }
        println!("note: {}", determinism);
    }
    let known = props::known_findings(prop.id, &root());
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    write_evidence(prop, seed, tier, &totals, began, violations, &determinism, &known);
    println!(
        "{}: ok, {} runs, {} distinct non-trivial cases, {} distinct interleavings, {} callbacks, slowest run {} took {:.1} s of CPU, {:.1} s",
        prop.id,
        totals.done,
        totals.cases.len(),
        totals.interleavings.len(),
        totals.steps,
        totals.slowest.1,
        totals.slowest.0,
        began.elapsed().as_secs_f64()
    );
}

/// Repeats a few runs of each worker, one process per few runs, and compares fingerprints.
fn recheck(prop: &Property, seed: u64, workers: &[WorkerRun]) -> Result<u64, (u64, String, String)> {
    let mut jobs = vec![];
    for w in workers {
        let hashes = fs::read(format!("{}.hashes", w.prefix)).unwrap_or_default();
        let n = (hashes.len() / 25) as u64;
        for part in 0..4 {
            let at = n * part / 4 + (part * 7).min(n.saturating_sub(1) / 4);
            if at < n {
                let rec = &hashes[(at * 25) as usize..(at * 25 + 24) as usize];
                let v: Vec<String> = rec
                    .chunks_exact(8)
                    .map(|c| format!("{:016x}", u64::from_le_bytes(c.try_into().unwrap())))
                    .collect();
                jobs.push((w.start + at, v.join("\t")));
            }
        }
    }
    let results: Vec<_> = std::thread::scope(|s| {
        let handles: Vec<_> = jobs
            .chunks(jobs.len().div_ceil(8).max(1))
            .map(|chunk| {
                s.spawn(move || {
                    chunk
                        .iter()
                        .map(|(i, want)| {
                            let args: Vec<String> = vec!["seq".into(), prop.id.into(), seed.to_string(), i.to_string(), i.to_string()];
                            let got = run_child(&args, Duration::from_secs(60)).map(|s| s.hash).unwrap_or_default();
                            (*i, want.clone(), got)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        handles.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    let n = results.len() as u64;
    for (i, want, got) in results {
        if want != got {
            return Err((i, want, got));
        }
    }
    Ok(n)
}

fn out_path(prop: &Property, seed: u64, run: u64) -> PathBuf {
    let dir = root().join("out");
    let _ = fs::create_dir_all(&dir);
    dir.join(format!("{}-seed{}-run{}.replay", prop.id, seed, run))
}

/// Reproduces a finding in a fresh process, minimises it and writes the replay file.
fn confirm(prop: &Property, seed: u64, run: u64, start: u64, found: Option<Found>) -> PathBuf {
    let path = out_path(prop, seed, run);
    let limit = Duration::from_secs(90);
    let seq_args = |a: u64, trace: bool| -> Vec<String> {
        let mut v = vec!["seq".to_string(), prop.id.into(), seed.to_string(), a.to_string(), run.to_string()];
        if trace {
            v.push("trace".into());
        }
        v
    };
    let observed = found.unwrap_or(Found { class: "process-death".into(), detail: String::new() });
    println!("run {} [{}]: {}", run, observed.class, observed.detail);
    let mut header = format!("sgmlsim-replay 1\nproperty {}\nseed {}\nrun {}\n{}", prop.id, seed, run, offered());

    // Alone in a fresh process?
    let alone = run_child(&seq_args(run, false), limit);
    if let Ok(Single { found: Some(f), tape, .. }) = alone {
        let slow = matches!(f.class.as_str(), "hang" | "stuck");
        // Crashes say nothing about the tape: regenerate it from the draws made
        let tape = if tape.is_empty() { record_tape(prop, seed, run) } else { tape };
        let scratch = std::env::temp_dir().join(format!("sgmlsim-shrink-{}", std::process::id()));
        let _ = fs::create_dir_all(&scratch);
        let file = scratch.join("tape");
        let args = vec!["tape".to_string(), prop.id.into(), file.to_string_lossy().into_owned()];
        let mut attempt = |t: &[u32]| -> Option<Vec<u32>> {
            let text = t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
            fs::write(&file, text).ok()?;
            let s = run_child(&args, limit).ok()?;
            match s.found {
                Some(g) if g.class == f.class => Some(if s.tape.is_empty() { t.to_vec() } else { s.tape }),
                _ => None,
            }
        };
        let best = if attempt(&tape).is_some() {
            let mut shrinker = Shrinker {
                attempt: &mut attempt,
                deadline: deadline(if slow { 150 } else { 60 }),
                attempts: 0,
                max_attempts: if slow { 6 } else { 6000 },
            };
            let best = shrinker.minimise(tape.clone());
            println!("minimised from {} to {} choices in {} runs", tape.len(), best.len(), shrinker.attempts);
            best
        } else {
            tape.clone()
        };
        let text = best.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
        let _ = fs::write(&file, &text);
        let mut traced = args.clone();
        traced.push("trace".into());
        let last = run_child(&traced, limit);
        let _ = fs::remove_dir_all(&scratch);
        let (detail, trace) = match last {
            Ok(s) => (s.found.map(|f| f.detail).unwrap_or_default(), s.trace),
            Err(e) => (e, vec![]),
        };
        println!("[{}] {}", f.class, detail);
        header += &format!("mode tape\nclass {}\ntape {}\n", f.class, text);
        header += &format!("# detail: {}\n", detail.replace('\n', "\\n"));
        for t in trace {
            header += &format!("# {}\n", t.replace('\n', "\\n"));
        }
        let _ = fs::write(&path, header);
        return path;
    }

    // Only after other runs in the same process?
    let mut n = 1;
    loop {
        let a = run.saturating_sub(n).max(start);
        if let Ok(Single { found: Some(f), .. }) = run_child(&seq_args(a, true), Duration::from_secs(300)) {
            header += &format!("mode seq\nfrom {}\nclass {}\n# detail: {}\n# needs the preceding runs in the same process: the outcome depends on history\n", a, f.class, f.detail.replace('\n', "\\n"));
            let _ = fs::write(&path, header);
            return path;
        }
        if a == start {
            break;
        }
        n *= 4;
    }
    header += &format!(
        "mode seq\nfrom {}\nclass {}\n# detail: {}\n# observed once and not again: the outcome depends on chance\n",
        start,
        observed.class,
        observed.detail.replace('\n', "\\n")
    );
    let _ = fs::write(&path, header);
    path
}

/// The tape of a run whose process dies before it can report it: replayed from the generator.
fn record_tape(prop: &Property, seed: u64, run: u64) -> Vec<u32> {
    // A long tape of raw generator output: `draw(n)` reduces values modulo n when replaying, and
    // multiplies when generating, so the values must come from the run itself. The child keeps a
    // side file of its draws when asked to.
    let file = std::env::temp_dir().join(format!("sgmlsim-draws-{}", std::process::id()));
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return vec![],
    };
    let _ = Command::new(exe)
        .args(["seq", prop.id, &seed.to_string(), &run.to_string(), &run.to_string()])
        .env("SGMLSIM_DRAWS", &file)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let bytes = fs::read(&file).unwrap_or_default();
    let _ = fs::remove_file(&file);
    bytes.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}

pub fn replay(file: &str) {
    let text = fs::read_to_string(file).unwrap_or_else(|e| harness_error(&e.to_string()));
    let field = |name: &str| -> Option<String> {
        text.lines().find_map(|l| l.strip_prefix(name).and_then(|r| r.strip_prefix(' ')).map(|s| s.to_string()))
    };
    let id = field("property").unwrap_or_default();
    let prop = props::find(&id).unwrap_or_else(|| harness_error("unknown property"));
    let class = field("class").unwrap_or_default();
    let mode = field("mode").unwrap_or_default();
    let offer = Offer(offer(&Vocabulary::parse(&text)));
    let single = if mode == "tape" {
        let tmp = std::env::temp_dir().join(format!("sgmlsim-replay-{}", std::process::id()));
        let _ = fs::write(&tmp, field("tape").unwrap_or_default());
        let args = vec!["tape".to_string(), id.clone(), tmp.to_string_lossy().into_owned(), "trace".into()];
        let r = run_child(&args, Duration::from_secs(300));
        let _ = fs::remove_file(&tmp);
        r
    } else {
        let from = field("from").or_else(|| field("run")).unwrap_or_default();
        let args = vec!["seq".to_string(), id.clone(), field("seed").unwrap_or_default(), from, field("run").unwrap_or_default(), "trace".into()];
        run_child(&args, Duration::from_secs(300))
    };
    match single {
        Err(e) => harness_error(&e),
        Ok(s) => {
            for t in &s.trace {
                println!("  {}", t);
            }
            match s.found {
                Some(f) => {
                    println!("[{}] {}", f.class, f.detail);
                    if f.class != class {
                        println!("note: the recorded class is {}", class);
                    }
                    println!("VIOLATION property={} replay={}", prop.id, file);
                    leave(EXIT_VIOLATION, offer);
                }
                None => println!("no violation"),
            }
        }
    }
}

/// Runs many seeds twice, in processes of different composition, and compares all fingerprints.
pub fn determinism(prop: &'static Property) {
    let mut bad = 0;
    let mut total = 0;
    for seed in 1..=20u64 {
        let n = 160u64;
        let mut sets: Vec<Vec<u8>> = vec![];
        for parts in [1u64, 7] {
            let mut all = vec![];
            let mut children = vec![];
            for p in 0..parts {
                let prefix = std::env::temp_dir().join(format!("sgmlsim-det-{}-{}-{}", std::process::id(), parts, p)).to_string_lossy().into_owned();
                let (a, b) = (n * p / parts, n * (p + 1) / parts);
                let c = Command::new(std::env::current_exe().unwrap())
                    .args(["worker", prop.id, &seed.to_string(), &a.to_string(), &b.to_string(), &prefix, "600"])
                    .stdout(Stdio::null())
                    .spawn()
                    .unwrap();
                children.push((c, prefix));
            }
            for (mut c, prefix) in children {
                let _ = c.wait();
                all.extend(fs::read(format!("{}.hashes", prefix)).unwrap_or_default());
                for suffix in ["hashes", "stats", "progress"] {
                    let _ = fs::remove_file(format!("{}.{}", prefix, suffix));
                }
            }
            sets.push(all);
        }
        for (i, (a, b)) in sets[0].chunks(25).zip(sets[1].chunks(25)).enumerate() {
            total += 1;
            if a != b {
                bad += 1;
                println!("seed {} run {} differs", seed, i);
            }
        }
        if sets[0].len() != sets[1].len() {
            bad += 1;
            println!("seed {}: different number of runs", seed);
        }
    }
    println!("{}: {} runs compared, {} differ", prop.id, total, bad);
    std::process::exit(if bad == 0 { 0 } else { EXIT_HARNESS });
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &Property, seed: u64, tier: &str, t: &Totals, began: Instant, violations: u64, determinism: &str, known: &[String]) {
    let wall = began.elapsed().as_secs_f64();
    let map = |m: &BTreeMap<String, u64>| -> String {
        let items: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        format!("{{{}}}", items.join(", "))
    };
    let list = |l: &[String]| -> String {
        let items: Vec<String> = l.iter().map(|s| json_str(s)).collect();
        format!("[{}]", items.join(", "))
    };
    let samples: Vec<String> = t.samples.iter().take(6).cloned().collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"simulated_runs\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_steps\": {},\n  \"simulated_time_unit\": \"one step per callback from the library into simulated code\",\n  \"faults_injected\": {},\n  \"conditions_reached\": {},\n  \"task_switches\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct sequences of (task, callback kind, switch) of a run\",\n  \"components_real\": {},\n  \"components_stubbed\": {},\n  \"determinism\": {},\n  \"known_findings\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(tier),
        seed,
        json_str(prop.level),
        t.done,
        t.cases.len(),
        json_str(prop.rule),
        list(&samples),
        t.done,
        (t.done as f64 / wall * 3600.0) as u64,
        (t.done as f64 / wall * 3600.0) as u64,
        t.steps,
        map(&t.faults),
        map(&t.probes),
        t.switches,
        t.interleavings.len(),
        json_str(prop.real),
        json_str(prop.stub),
        json_str(determinism),
        list(known),
        list(&[
            "sampling: a clean batch is evidence, not proof".to_string(),
            "interleavings are decided at callbacks; the library has no synchronisation of its own in between".to_string(),
        ]),
        wall,
        violations
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", prop.id));
    if let Err(e) = write_atomically(&path, &text) {
        harness_error(&format!("cannot write {}: {}", path.display(), e));
    }
}

fn write_atomically(path: &Path, text: &str) -> std::io::Result<()> {
    let tmp = path.with_extension("tmp");
    fs::write(&tmp, text)?;
    fs::rename(&tmp, path)
}
