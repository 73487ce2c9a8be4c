//! C05: logging and the choice of error handler never change a result.

use std::sync::Arc;

use crate::damage::{damage, scramble};
use crate::env::{self, draw, one_in, pick, range, R};
use crate::ops::{exec, Op, OpKind, TaskState, Workload, HANDLERS};
use crate::props::c04::{check_truth, difference};
use crate::plan::{gen_plan, gen_tree, TreeKnobs};
use crate::props::Property;
use crate::sim;
use crate::vocab;
use crate::world::{op_ctx, run_op, Outcome};
use crate::ensure;

pub const PROPERTY: Property = Property {
    id: "C05",
    run,
    quick: 700_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "a case is an operation (on valid, torn or damaged input), a log level or a seeded sequence of level flips at the library's own records and other callbacks, what the logger does (format, drop, claim to be disabled, run other operations), and for parses every error handler; non-trivial if the library logged or an error handler was called; distinct by operation and observers",
    real: "all of sgmlish, the log crate's filtering",
    stub: "logger, error handlers, resolvers, sink, consumer",
};

const LEVELS: &[log::LevelFilter] = &[
    log::LevelFilter::Trace,
    log::LevelFilter::Debug,
    log::LevelFilter::Info,
    log::LevelFilter::Warn,
    log::LevelFilter::Error,
    log::LevelFilter::Off,
];

fn gen(w: &Workload) -> Op {
    if vocab::wild_number(60) {
        return deep_read();
    }
    let n = env::weighted(&[8, 1, 3, 2, 1, 2, 1, 3, 12]);
    let mut op = w.op_of(n);
    let hits = range(1, 3);
    match &mut op.kind {
        OpKind::Parse { text, .. } | OpKind::Describe { text, .. } | OpKind::Item { text, .. } | OpKind::Expand { text, .. } if one_in(2) => {
            let other = pick(&w.docs).text.clone();
            *text = Arc::new(damage(text, &other, hits));
            op.truth = None;
        }
        OpKind::Deserialize { frag, .. } | OpKind::Normalize { frag } if one_in(3) => {
            let mut events: Vec<_> = frag.iter().cloned().collect();
            scramble(&mut events, hits);
            *frag = Arc::new(events.into());
            op.truth = None;
        }
        OpKind::Deserialize { frag, .. } if one_in(4) => {
            // Some other document altogether
            *frag = pick(&w.frags);
            op.truth = None;
        }
        _ => {}
    }
    op
}

/// A document read to a great depth.
fn deep_read() -> Op {
    let mut tk = TreeKnobs::gen();
    tk.depth = tk.depth.min(3);
    tk.children = tk.children.min(4);
    tk.deep = true;
    let tree = gen_tree(&tk);
    let planned = gen_plan(&tree, one_in(6));
    Op {
        kind: OpKind::Deserialize {
            frag: Arc::new(tree.events().into()),
            plan: Arc::new(planned.plan),
            fail_at: None,
            reader: one_in(2),
            borrowed: one_in(2),
        },
        truth: planned.ok.then(|| format!("Ok(()) after [{}]", planned.log.join(";"))),
    }
}

/// The part of an outcome that must not depend on the handler.
fn acceptance(o: &Outcome) -> String {
    match o {
        Outcome::Val(v) if v.starts_with("Err ") => format!("Err {}", &v[v.rfind(" calls [").unwrap_or(0)..]),
        o => o.show(),
    }
}

fn run() -> R {
    let w = Workload::gen();
    let op = Arc::new(gen(&w));
    env::case(&format!("{:?}", op.kind));
    env::probe(op.name());
    log::set_max_level(log::LevelFilter::Off);
    let silent = sim::solo(&w, &op);
    check_truth(&op, &silent.outcome)?;
    let rounds = range(1, 3);
    let mut show = String::new();
    for _ in 0..rounds {
        let ctx = op_ctx();
        let level = pick(LEVELS);
        let flip = if one_in(2) { pick(&[2, 5, 20]) } else { 0 };
        let mode = draw(4) as u8;
        ctx.log_mode.set(mode);
        ctx.log_flip.set(flip);
        let st = TaskState::new(&w.cfgs);
        // Operations the callbacks run meanwhile
        let mut nested = 0;
        if one_in(3) {
            for _ in 0..range(1, 2) {
                let at = draw(60) as u64;
                let inner = if one_in(2) { op.clone() } else { Arc::new(w.gen_op()) };
                let cfgs = w.cfgs.clone();
                ctx.nest.borrow_mut().push((
                    at,
                    Box::new(move || {
                        env::fault("nested-operation");
                        let st = TaskState::new(&cfgs);
                        let c = op_ctx();
                        let _ = run_op(&c, || exec(&inner, &st));
                    }),
                ));
                nested += 1;
            }
        }
        let what = format!("level {} flips {} logger {} nested {}", level, flip, mode, nested);
        env::case(&what);
        show = what.clone();
        log::set_max_level(level);
        let outcome = run_op(&ctx, || exec(&op, &st));
        log::set_max_level(log::LevelFilter::Off);
        ctx.nest.borrow_mut().clear();
        env::first_violation()?;
        if ctx.kinds.borrow()[crate::world::Kind::Log as usize] > 0 {
            env::nontrivial();
            env::probe("logged");
        }
        env::observe(&outcome.show());
        ensure!(
            outcome == silent.outcome,
            "log-changes-result",
            "{} gives {} without logging, but with {}: {}",
            op.show(),
            silent.outcome.show(),
            what,
            difference(&silent.outcome, &outcome)
        );
        // Whether texts are borrowed decides, for one, if a `&str` can be read
        ensure!(
            *ctx.detail.borrow() == silent.detail,
            "log-changes-result",
            "{} gives texts borrowed or owned as {} without logging, but with {} as {}",
            op.show(),
            env::short(&silent.detail),
            what,
            env::short(&ctx.detail.borrow())
        );
    }
    if let OpKind::Parse { cfg, text, answers, .. } = &op.kind {
        let mut first: Option<(Outcome, crate::ops::Handler, String)> = None;
        for h in HANDLERS {
            let op = Op {
                kind: OpKind::Parse {
                    cfg: *cfg,
                    text: text.clone(),
                    answers: answers.clone(),
                    handler: *h,
                },
                truth: None,
            };
            let s = sim::solo(&w, &op);
            check_truth(&op, &s.outcome)?;
            env::observe(&s.outcome.show());
            if s.kinds[crate::world::Kind::ErrorHandler as usize] > 0 {
                env::nontrivial();
                env::probe("error-handler-called");
            }
            match &first {
                None => first = Some((s.outcome, *h, s.detail)),
                Some((o, h0, detail)) => ensure!(
                    acceptance(o) == acceptance(&s.outcome) && *detail == s.detail,
                    "handler-changes-result",
                    "{}: with {:?} {}, with {:?} {}",
                    op.show(),
                    h0,
                    o.show(),
                    h,
                    s.outcome.show()
                ),
            }
        }
        env::probe("all-handlers");
    }
    env::sample(|| format!("{} under {}", op.show(), show));
    Ok(())
}
