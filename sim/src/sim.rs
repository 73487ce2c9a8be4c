//! Runs operations of several tasks together, and alone for comparison.

use std::rc::Rc;
use std::sync::{Arc, Mutex};

use crate::env;
use crate::ops::{exec, Op, TaskState, Workload};
use crate::world::{op_ctx, run_op, run_tasks, OpCtx, Outcome, KINDS};

pub struct Solo {
    pub outcome: Outcome,
    /// Callbacks made.
    pub count: u64,
    pub kinds: [u64; KINDS],
    /// Details of the outcome.
    pub detail: String,
}

/// Runs one operation by itself, with objects of its own.
pub fn solo(w: &Workload, op: &Op) -> Solo {
    let ctx = op_ctx();
    ctx.no_yield.set(true);
    let st = TaskState::new(&w.cfgs);
    let outcome = run_op(&ctx, || exec(op, &st));
    let kinds = *ctx.kinds.borrow();
    let detail = ctx.detail.take();
    Solo {
        detail,
        outcome,
        count: ctx.count.get(),
        kinds,
    }
}

/// One operation of a task, and what happens during it.
#[derive(Clone)]
pub struct Step {
    pub op: Arc<Op>,
    /// Operations to start inside its callbacks: (callback number, operation).
    pub nested: Vec<(u64, Arc<Op>)>,
    /// How deep each of these starts itself again in its own first callback.
    pub depth: usize,
    pub crash_at: Option<u64>,
    pub crash_id: u64,
    pub log_flip: usize,
}

impl Step {
    pub fn plain(op: Arc<Op>) -> Step {
        Step {
            op,
            nested: vec![],
            depth: 0,
            crash_at: None,
            crash_id: 0,
            log_flip: 0,
        }
    }
}

pub struct Done {
    pub outcome: Outcome,
    pub nested: Vec<(Arc<Op>, Outcome)>,
    pub reached_crash: bool,
    pub crashed_kind: String,
}

type Results = Rc<std::cell::RefCell<Vec<(Arc<Op>, Outcome)>>>;

/// An operation started inside callback `at`, which starts itself again `depth` times.
fn nested(at: u64, op: Arc<Op>, st: Rc<TaskState>, results: Results, depth: usize) -> (u64, Box<dyn FnOnce()>) {
    let work = move || {
        env::fault("nested-operation");
        let inner = op_ctx();
        if depth > 0 {
            env::fault("nested-deeper");
            let again = nested(0, op.clone(), st.clone(), results.clone(), depth - 1);
            inner.nest.borrow_mut().push(again);
        }
        let outcome = run_op(&inner, || exec(&op, &st));
        inner.nest.borrow_mut().clear();
        results.borrow_mut().push((op.clone(), outcome));
    };
    (at, Box::new(work))
}

fn run_step(step: &Step, st: &Rc<TaskState>) -> Done {
    let ctx: Rc<OpCtx> = op_ctx();
    ctx.crash_at.set(step.crash_at);
    ctx.crash_id.set(step.crash_id);
    ctx.log_flip.set(step.log_flip);
    let results: Results = Default::default();
    for (at, op) in &step.nested {
        ctx.nest.borrow_mut().push(nested(*at, op.clone(), st.clone(), results.clone(), step.depth));
    }
    let outcome = run_op(&ctx, || exec(&step.op, st));
    // Operations that were to start later never will
    ctx.nest.borrow_mut().clear();
    let nested = std::mem::take(&mut *results.borrow_mut());
    Done {
        outcome,
        nested,
        reached_crash: ctx.crashed.get(),
        crashed_kind: ctx.crashed_kind.get().map(|k| format!("{:?}", k)).unwrap_or_default(),
    }
}

/// Runs all tasks, interleaved.
pub fn together(w: &Workload, tasks: &[Vec<Step>], eagerness: usize) -> Vec<Vec<Done>> {
    let slots: Vec<Mutex<Vec<Done>>> = tasks.iter().map(|_| Mutex::new(vec![])).collect();
    let cfgs = &w.cfgs;
    if tasks.len() == 1 {
        let st = TaskState::new(cfgs);
        for s in &tasks[0] {
            let d = run_step(s, &st);
            slots[0].lock().unwrap().push(d);
        }
    } else {
        let mut fns: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (t, slot) in tasks.iter().zip(&slots) {
            // Steps only hold shared data: they may go to another thread
            fns.push(Box::new(move || {
                let st = TaskState::new(cfgs);
                for s in t {
                    let d = run_step(s, &st);
                    slot.lock().unwrap().push(d);
                }
            }));
        }
        run_tasks(fns, eagerness, 2 << 20);
    }
    slots.into_iter().map(|s| s.into_inner().unwrap()).collect()
}
