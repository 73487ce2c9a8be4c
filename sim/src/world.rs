//! Callouts and the scheduler.
//!
//! Every call the library makes into caller-supplied code (resolver, error handler, logger,
//! sink, visitor, seed) goes through `callout`. There the simulator counts a step of simulated
//! time, may crash the callback (an injected panic), may start a nested operation, may flip the
//! log level, and may hand the baton to another task.
//!
//! Tasks are OS threads of which exactly one runs at any time: a thread only proceeds while
//! `CURRENT` names it, and which one is named next is drawn from the tape.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::thread::{self, Thread};

use crate::env;
use crate::tr;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Resolver = 1,
    ErrorHandler,
    Log,
    Sink,
    Visitor,
    Editor,
    Op,
}

pub const KINDS: usize = 8;

/// The payload of an injected crash.
#[derive(Debug, PartialEq, Eq)]
pub struct Injected(pub u64);

/// Payloads are of the kinds that real panics have: a type of the caller's own, a formatted
/// message, or a literal one.
fn injected_panic(id: u64) -> ! {
    match id % 3 {
        0 => panic_any(Injected(id)),
        1 => panic_any(format!("injected panic #{}", id)),
        _ => panic_any(literal(id)),
    }
}

fn literal(id: u64) -> &'static str {
    static TEXTS: OnceLock<Vec<&'static str>> = OnceLock::new();
    TEXTS.get_or_init(|| (0..=1000).map(|i| &*Box::leak(format!("injected panic #{}", i).into_boxed_str())).collect())[id as usize % 1001]
}

/// Which injected panic this is, if its payload is exactly the one that was thrown.
fn injected(p: &(dyn Any + Send)) -> Option<u64> {
    if let Some(Injected(id)) = p.downcast_ref::<Injected>() {
        return (id % 3 == 0).then_some(*id);
    }
    if let Some(s) = p.downcast_ref::<String>() {
        let id = s.strip_prefix("injected panic #")?.parse::<u64>().ok()?;
        return (id % 3 == 1 && *s == format!("injected panic #{}", id)).then_some(id);
    }
    if let Some(s) = p.downcast_ref::<&'static str>() {
        let id = s.strip_prefix("injected panic #")?.parse::<u64>().ok()?;
        return (id % 3 == 2 && std::ptr::eq(*s, literal(id))).then_some(id);
    }
    None
}

/// The payload that stops a run whose step budget is used up.
pub struct OverBudget;

type Nested = Box<dyn FnOnce()>;

/// What the simulator does at the callouts of one operation.
#[derive(Default)]
pub struct OpCtx {
    pub count: Cell<u64>,
    pub kinds: RefCell<[u64; KINDS]>,
    /// Panic at the callout with this number.
    pub crash_at: Cell<Option<u64>>,
    pub crash_id: Cell<u64>,
    pub crashed: Cell<bool>,
    pub crashed_kind: Cell<Option<Kind>>,
    /// Run this at the callout with this number.
    pub nest: RefCell<Vec<(u64, Nested)>>,
    /// Flip the log level at callouts, once per this many on average (0: never).
    pub log_flip: Cell<usize>,
    /// What the logger does: 0 formats the records, 1 drops them, 2 also claims to be disabled,
    /// 3 claims either at random.
    pub log_mode: Cell<u8>,
    /// Callouts do not yield to other tasks.
    pub no_yield: Cell<bool>,
    /// Details of the result.
    pub detail: RefCell<String>,
}

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static OPS: RefCell<Vec<Rc<OpCtx>>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const NOBODY: usize = usize::MAX;
static CURRENT: AtomicUsize = AtomicUsize::new(NOBODY);

struct Sched {
    threads: Vec<Thread>,
    alive: Vec<bool>,
    countdown: u64,
    eagerness: usize,
}

static SCHED: Mutex<Option<Sched>> = Mutex::new(None);

pub fn task() -> usize {
    TASK.with(|t| t.get())
}

fn next_gap(eagerness: usize) -> u64 {
    match env::draw(eagerness + 1) {
        0 => u64::MAX,
        n => n as u64,
    }
}

/// Runs the tasks to completion, one at a time, interleaved at callouts as the tape decides.
pub fn run_tasks<'a>(tasks: Vec<Box<dyn FnOnce() + Send + 'a>>, eagerness: usize, stack: usize) {
    let n = tasks.len();
    CURRENT.store(NOBODY, Ordering::SeqCst);
    let first = env::draw(n);
    let gap = next_gap(eagerness);
    thread::scope(|scope| {
        let mut threads = Vec::with_capacity(n);
        for (i, t) in tasks.into_iter().enumerate() {
            let handle = thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(scope, move || {
                    TASK.with(|t| t.set(i));
                    wait_turn(i);
                    let result = catch_unwind(AssertUnwindSafe(t));
                    if let Err(p) = result {
                        if p.downcast_ref::<OverBudget>().is_none() {
                            env::report("harness", format!("task {} unwound: {}", i, describe_panic(&p)));
                        }
                    }
                    finish(i);
                })
                .expect("spawn");
            threads.push(handle.thread().clone());
        }
        *SCHED.lock().unwrap() = Some(Sched {
            threads: threads.clone(),
            alive: vec![true; n],
            countdown: gap,
            eagerness,
        });
        CURRENT.store(first, Ordering::SeqCst);
        threads[first].unpark();
    });
    *SCHED.lock().unwrap() = None;
}

fn wait_turn(me: usize) {
    while CURRENT.load(Ordering::SeqCst) != me {
        thread::park();
    }
}

fn finish(me: usize) {
    let alive: Vec<usize> = {
        let mut guard = SCHED.lock().unwrap();
        let s = guard.as_mut().unwrap();
        s.alive[me] = false;
        (0..s.alive.len()).filter(|&i| s.alive[i]).collect()
    };
    if alive.is_empty() {
        CURRENT.store(NOBODY, Ordering::SeqCst);
        return;
    }
    let next = alive[env::draw(alive.len())];
    env::mark(1000 + next as u64);
    hand_over(next);
}

fn hand_over(next: usize) {
    let t = SCHED.lock().unwrap().as_ref().unwrap().threads[next].clone();
    CURRENT.store(next, Ordering::SeqCst);
    t.unpark();
}

fn yield_now() {
    let me = task();
    if me == NOBODY {
        return;
    }
    let others: Vec<usize> = {
        let mut guard = SCHED.lock().unwrap();
        let s = match guard.as_mut() {
            Some(s) => s,
            None => return,
        };
        if s.countdown > 1 {
            s.countdown -= 1;
            return;
        }
        (0..s.alive.len()).filter(|&i| i != me && s.alive[i]).collect()
    };
    let eagerness = SCHED.lock().unwrap().as_ref().unwrap().eagerness;
    let gap = next_gap(eagerness);
    SCHED.lock().unwrap().as_mut().unwrap().countdown = gap;
    if others.is_empty() {
        return;
    }
    let next = others[env::draw(others.len())];
    env::with(|e| e.switches += 1);
    env::mark(1000 + next as u64);
    tr!("switch: task {} -> task {}", me, next);
    hand_over(next);
    wait_turn(me);
}

/// The library called the caller's code.
pub fn callout(kind: Kind) {
    let over = env::with(|e| {
        e.steps += 1;
        e.ihash = env::hash_bytes(e.ihash, &[kind as u8, task() as u8]);
        if e.steps > e.budget && !e.over_budget {
            e.over_budget = true;
            e.violations.push(env::Violation {
                class: "no-progress".into(),
                detail: format!("step budget of {} callbacks used up at a {:?} callback", e.budget, kind),
            });
        }
        e.over_budget
    });
    if over {
        panic_any(OverBudget);
    }
    let op = OPS.with(|ops| ops.borrow().last().cloned());
    if let Some(op) = op {
        let n = op.count.get();
        op.count.set(n + 1);
        op.kinds.borrow_mut()[kind as usize] += 1;
        if op.crashed.get() {
            env::report(
                "callback-after-panic",
                format!("a {:?} callback was made after a {:?} callback of the same operation had panicked", kind, op.crashed_kind.get()),
            );
        }
        let nested: Vec<Nested> = {
            let mut nest = op.nest.borrow_mut();
            let mut due = vec![];
            let mut i = 0;
            while i < nest.len() {
                if nest[i].0 == n {
                    due.push(nest.remove(i).1);
                } else {
                    i += 1;
                }
            }
            due
        };
        for f in nested {
            tr!("task {}: nested operation inside {:?} callback {}", task() as isize, kind, n);
            f();
        }
        let flip = op.log_flip.get();
        if flip > 0 && env::one_in(flip) {
            let level = env::pick(&[
                log::LevelFilter::Off,
                log::LevelFilter::Trace,
                log::LevelFilter::Debug,
                log::LevelFilter::Error,
            ]);
            env::fault("log-level-flip");
            log::set_max_level(level);
        }
        if op.crash_at.get() == Some(n) && !op.crashed.get() {
            op.crashed.set(true);
            op.crashed_kind.set(Some(kind));
            env::fault(&format!("panic-in-{:?}", kind));
            injected_panic(op.crash_id.get());
        }
        if op.no_yield.get() {
            return;
        }
    }
    yield_now();
}

pub fn current_op() -> Option<Rc<OpCtx>> {
    OPS.with(|ops| ops.borrow().last().cloned())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Val(String),
    Crash(u64),
    Panic(String),
}

impl Outcome {
    pub fn show(&self) -> String {
        match self {
            Outcome::Val(s) => env::short(s),
            Outcome::Crash(id) => format!("<injected panic #{}>", id),
            Outcome::Panic(s) => format!("<panic: {}>", env::short(s)),
        }
    }
}

struct PopOp;
impl Drop for PopOp {
    fn drop(&mut self) {
        OPS.with(|ops| ops.borrow_mut().pop());
    }
}

/// Runs an operation with the given behaviour at its callouts.
pub fn run_op(ctx: &Rc<OpCtx>, f: impl FnOnce() -> String) -> Outcome {
    OPS.with(|ops| ops.borrow_mut().push(ctx.clone()));
    let guard = PopOp;
    let result = catch_unwind(AssertUnwindSafe(f));
    drop(guard);
    match result {
        Ok(s) => Outcome::Val(s),
        Err(p) => {
            if p.downcast_ref::<OverBudget>().is_some() {
                resume_unwind(p);
            }
            match injected(&*p) {
                Some(id) => Outcome::Crash(id),
                None => Outcome::Panic(describe_panic(&p)),
            }
        }
    }
}

/// Runs library code outside an operation, turning a panic into a message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<OverBudget>().is_some() {
                resume_unwind(p);
            }
            Err(describe_panic(&p))
        }
    }
}

pub fn describe_panic(p: &Box<dyn Any + Send>) -> String {
    let text = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(Injected(id)) = p.downcast_ref::<Injected>() {
        format!("injected panic #{}", id)
    } else {
        "unknown payload".to_string()
    };
    let place = LAST_PANIC.with(|l| l.borrow().clone());
    format!("{} {}", text, place)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if injected(info.payload()).is_none() {
            let place = info
                .location()
                .map(|l| {
                    let file = l.file();
                    let file = file.rsplit("/repo/").next().unwrap_or(file);
                    format!("(at {}:{})", file, l.line())
                })
                .unwrap_or_default();
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = place);
        }
    }));
}

/// The simulated logger: formats every record (running the library's formatting code), then
/// acts as any other callback.
pub struct SimLogger;

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    /// Where records go outside of operations.
    pub static LOG_TO: Cell<Option<fn(&std::fmt::Arguments)>> = const { Cell::new(None) };
}

impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        match OPS.with(|ops| ops.borrow().last().map(|o| o.log_mode.get())) {
            Some(2) => false,
            Some(3) => env::draw(2) == 0,
            _ => true,
        }
    }
    fn log(&self, record: &log::Record) {
        if let Some(to) = LOG_TO.with(|l| l.get()) {
            return to(record.args());
        }
        let in_op = OPS.with(|ops| !ops.borrow().is_empty());
        if !in_op || LOGGING.with(|l| l.get()) {
            return;
        }
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                LOGGING.with(|l| l.set(false));
            }
        }
        LOGGING.with(|l| l.set(true));
        let reset = Reset;
        if OPS.with(|ops| ops.borrow().last().map(|o| o.log_mode.get())) == Some(0) {
            let text = format!("{}", record.args());
            std::hint::black_box(&text);
        }
        drop(reset);
        callout(Kind::Log);
    }
    fn flush(&self) {}
}

pub fn op_ctx() -> Rc<OpCtx> {
    Rc::new(OpCtx::default())
}
