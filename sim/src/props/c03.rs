//! C03: a panic in a caller's callback unwinds out unchanged and harms nothing else.

use std::sync::Arc;

use crate::env::{self, draw, one_in, pick, range, R};
use crate::ops::{Op, Workload};
use crate::props::c04::{check_truth, difference};
use crate::props::Property;
use crate::sim::{self, Step};
use crate::world::Outcome;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C03",
    run,
    quick: 200_000,
    thorough: 3_000_000,
    level: "fault_enumeration",
    rule: "a case is a workload, one of its operations and the callback at which it crashes (a drawn callback, or every callback in turn in one run of eight), with other tasks in progress; non-trivial if the crash was reached; distinct by workload, operation and callback",
    real: "all of sgmlish (parser, expansion, rendering, error descriptions, deserializer), with real unwinding",
    stub: "resolvers, error handler, logger, sink, consumer; the thread scheduler",
};

fn run() -> R {
    let w = Workload::gen();
    let logging = one_in(3);
    let level = if logging { log::LevelFilter::Trace } else { log::LevelFilter::Off };
    let n = range(1, 4);
    let pool: Vec<Arc<Op>> = (0..n).map(|_| Arc::new(w.gen_op())).collect();
    for op in &pool {
        env::case(&format!("{:?}", op.kind));
        env::probe(op.name());
    }
    log::set_max_level(level);
    let solo: Vec<sim::Solo> = pool.iter().map(|op| sim::solo(&w, op)).collect();
    for (op, s) in pool.iter().zip(&solo) {
        check_truth(op, &s.outcome)?;
    }
    let victims: Vec<usize> = (0..n).filter(|&i| solo[i].count > 0).collect();
    if victims.is_empty() {
        return Ok(());
    }
    let v = pick(&victims);
    let count = solo[v].count;
    let every = one_in(8) && count < 150;
    let rounds = if every { count as usize } else { range(1, 2) };
    for round in 0..rounds {
        let k = if every { round as u64 } else { draw(count.min(1 << 20) as usize) as u64 };
        let id = 1 + draw(1000) as u64;
        let tasks = if every { 1 } else { pick(&[1, 2, 3]) };
        // The same objects see many crashes
        let many = !every && count < 2000 && one_in(12);
        let tasks = if many { 1 } else { tasks };
        let mut plan: Vec<Vec<Step>> = vec![];
        let mut which: Vec<Vec<usize>> = vec![];
        for t in 0..tasks {
            let mut steps = vec![];
            let mut ids = vec![];
            for _ in 0..range(0, 2) {
                let i = draw(n);
                steps.push(Step::plain(pool[i].clone()));
                ids.push(i);
            }
            if t == 0 {
                let mut s = Step::plain(pool[v].clone());
                s.crash_at = Some(k);
                s.crash_id = id;
                steps.push(s);
                ids.push(v);
                if many {
                    env::fault("many-crashes");
                    for _ in 0..range(3, 60) {
                        let mut s = Step::plain(pool[v].clone());
                        s.crash_at = Some(if one_in(2) { k } else { draw(count as usize) as u64 });
                        s.crash_id = id;
                        steps.push(s);
                        ids.push(v);
                    }
                }
                // Once more, with the same objects
                steps.push(Step::plain(pool[v].clone()));
                ids.push(v);
                for _ in 0..range(0, 2) {
                    let i = draw(n);
                    steps.push(Step::plain(pool[i].clone()));
                    ids.push(i);
                }
            } else if steps.is_empty() {
                steps.push(Step::plain(pool[v].clone()));
                ids.push(v);
            }
            plan.push(steps);
            which.push(ids);
        }
        env::case(&format!("{} {} {}", v, k, tasks));
        env::sample(|| format!("{} crashes at callback {} of {}, {} tasks", pool[v].show(), k, count, tasks));
        let before: Vec<_> = w.frags.iter().map(|f| (**f).clone()).collect();
        let done = sim::together(&w, &plan, pick(&[2, 1, 4, 10, 30]));
        env::first_violation()?;
        for (f, b) in w.frags.iter().zip(&before) {
            ensure!(**f == *b, "object-changed", "a fragment held by the caller changed after a crash in {}", pool[v].show());
        }
        for (t, results) in done.iter().enumerate() {
            ensure!(results.len() == plan[t].len(), "harness", "task {} did not finish", t);
            for (j, d) in results.iter().enumerate() {
                let op = &plan[t][j].op;
                env::observe(&d.outcome.show());
                if plan[t][j].crash_at.is_some() {
                    ensure!(d.reached_crash, "callbacks-differ", "{} did not make callback {} of {} again", op.show(), k, count);
                    env::nontrivial();
                    match &d.outcome {
                        Outcome::Crash(got) if *got == id => {}
                        other => fail!(
                            "panic-not-delivered",
                            "a {} callback (number {}) of {} panicked with payload #{}, but the caller sees {}",
                            d.crashed_kind,
                            k,
                            op.show(),
                            id,
                            other.show()
                        ),
                    }
                } else {
                    let expected = &solo[which[t][j]].outcome;
                    ensure!(
                        d.outcome == *expected,
                        "harmed",
                        "task {} operation {} ({}) gives {} instead of {} (with a crash at callback {} of {})",
                        t,
                        j,
                        op.show(),
                        difference(expected, &d.outcome),
                        expected.show(),
                        k,
                        pool[v].show()
                    );
                }
            }
        }
    }
    Ok(())
}
