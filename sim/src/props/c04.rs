//! C04: concurrent, nested and repeated operations do not influence each other.

use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use crate::doc::{expected_history, Cfg, Gen, Knobs};
use crate::env::{self, draw, one_in, pick, range, R};
use crate::ops::{accepted, exec, Op, OpKind, TaskState, Workload, HANDLERS};
use crate::props::Property;
use crate::vocab;
use crate::sim::{self, Step};
use crate::world::{op_ctx, run_op, run_tasks, Outcome};
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C04",
    run,
    quick: 240_000,
    thorough: 2_500_000,
    level: "exploration",
    rule: "a case is a set of tasks with their operations on shared and private objects, the operations started inside callbacks, and a seeded schedule of task switches at callbacks; non-trivial if at least one switch or nested operation happened; distinct by workload (the distinct schedules are counted as distinct_interleavings)",
    real: "all of sgmlish (parser, expansion, normalization, edits, rendering, error descriptions, deserializer)",
    stub: "resolvers, error handler, logger, sink, consumer; the thread scheduler (one task runs at a time, switched at callbacks)",
};

pub fn check_truth(op: &Op, outcome: &Outcome) -> R {
    if let Outcome::Panic(p) = outcome {
        fail!("panic", "{} in {}", p, op.show());
    }
    if let (Some(t), Outcome::Val(v)) = (&op.truth, outcome) {
        ensure!(t == v, "wrong-result", "{} alone gives {} instead of {}", op.show(), env::short(v), env::short(t));
    }
    Ok(())
}

fn run() -> R {
    if one_in(8) {
        return one_buffer();
    }
    if vocab::wild_number(160) {
        return again_and_again();
    }
    let w = Workload::gen();
    let tasks = match draw(8) {
        0 => 1,
        1..=3 => 2,
        4 | 5 => 3,
        6 => 4,
        _ => range(2, 6),
    };
    let mut pool: Vec<Arc<Op>> = vec![];
    let pool_size = range(1, 6);
    for _ in 0..pool_size {
        pool.push(Arc::new(w.gen_op()));
    }
    let logging = one_in(3);
    let level = if logging { log::LevelFilter::Trace } else { log::LevelFilter::Off };
    let alone_first = !one_in(3);
    let mut alone: HashMap<usize, Outcome> = HashMap::new();
    let mut counts: Vec<u64> = vec![20; pool.len()];
    if alone_first {
        for (i, op) in pool.iter().enumerate() {
            let s = sim::solo(&w, op);
            check_truth(op, &s.outcome)?;
            counts[i] = s.count.max(1);
            alone.insert(i, s.outcome);
        }
    }
    let mut plan: Vec<Vec<Step>> = vec![];
    let mut which: Vec<Vec<usize>> = vec![];
    let mut case = String::new();
    for _ in 0..tasks {
        let n = if one_in(10) { range(1, 12) } else { range(1, 3) };
        let mut steps = vec![];
        let mut ids = vec![];
        for _ in 0..n {
            let i = draw(pool.len());
            let mut s = Step::plain(pool[i].clone());
            if one_in(3) {
                for _ in 0..range(1, 2) {
                    let at = draw(counts[i].min(1 << 20) as usize) as u64;
                    let op = pick(&pool);
                    case.push_str(&format!("n{}", at));
                    s.nested.push((at, op));
                }
                if one_in(6) {
                    s.depth = if one_in(4) { range(4, 40) } else { range(1, 3) };
                    case.push_str(&format!("d{}", s.depth));
                }
            }
            if logging && one_in(4) {
                s.log_flip = 5;
            }
            case.push_str(&format!("{},", i));
            steps.push(s);
            ids.push(i);
        }
        case.push('|');
        plan.push(steps);
        which.push(ids);
    }
    for op in &pool {
        env::case(&format!("{:?}", op.kind));
        env::probe(op.name());
    }
    env::case(&case);
    env::sample(|| format!("{} tasks over {:?}; steps {}", tasks, pool.iter().map(|o| o.show()).collect::<Vec<_>>(), case));
    let eagerness = pick(&[2, 1, 4, 10, 30, 100]);
    log::set_max_level(level);
    let done = sim::together(&w, &plan, eagerness);
    log::set_max_level(log::LevelFilter::Off);
    env::first_violation()?;
    if !alone_first {
        for (i, op) in pool.iter().enumerate() {
            let s = sim::solo(&w, op);
            check_truth(op, &s.outcome)?;
            alone.insert(i, s.outcome);
        }
    }
    if env::with(|e| e.switches > 0 || e.faults.contains_key("nested-operation")) {
        env::nontrivial();
    }
    let index_of = |op: &Arc<Op>| pool.iter().position(|p| Arc::ptr_eq(p, op)).unwrap();
    for (t, (results, ids)) in done.iter().zip(&which).enumerate() {
        ensure!(results.len() == ids.len(), "harness", "task {} did not finish", t);
        for (j, d) in results.iter().enumerate() {
            let expected = &alone[&ids[j]];
            env::observe(&d.outcome.show());
            ensure!(
                d.outcome == *expected,
                "influenced",
                "task {} operation {} ({}): alone it gives {}, together with others {}",
                t,
                j,
                plan[t][j].op.show(),
                expected.show(),
                difference(expected, &d.outcome)
            );
            for (op, outcome) in &d.nested {
                let expected = &alone[&index_of(op)];
                ensure!(
                    outcome == expected,
                    "influenced",
                    "task {} operation {} ({}) started {} inside a callback: alone that gives {}, nested {}",
                    t,
                    j,
                    plan[t][j].op.show(),
                    op.show(),
                    expected.show(),
                    difference(expected, outcome)
                );
            }
        }
    }
    Ok(())
}

/// A document that differs from this one in a place or two, mostly of the same length.
fn variant(text: &str) -> String {
    let mut s = text.to_string();
    for _ in 0..range(1, 2) {
        let places: Vec<usize> = (0..s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        if places.is_empty() {
            break;
        }
        let at = if one_in(3) {
            // Where references and keywords are
            let marks: Vec<usize> = s.match_indices(['&', '%', '[', ';']).map(|(i, _)| i).collect();
            let near = if marks.is_empty() { pick(&places) } else { pick(&marks) };
            let mut at = (near + draw(8)).min(s.len() - 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            at
        } else {
            pick(&places)
        };
        let c = s[at..].chars().next().unwrap();
        let new: &str = match draw(6) {
            0 if c.is_ascii_alphabetic() => pick(&["x", "A", "s", "&", "%"]),
            1 => pick(&["&x;", "&#65;", "&e1;", "%x;", "<b>", "abc", "    "]),
            2 if c == '&' => pick(&["t", "%", "#"]),
            3 => pick(&["\n", " ", "\t"]),
            _ if c.is_ascii_uppercase() => pick(&["X", "E", "S", "x"]),
            _ => pick(&["x", "e", "1", "Z", ";", "'"]),
        };
        let mut end = (at + new.len()).min(s.len());
        while !s.is_char_boundary(end) {
            end += 1;
        }
        s.replace_range(at..end, new);
    }
    s
}

/// Different documents come one after the other in one buffer, to one parser.
fn one_buffer() -> R {
    let cfg = Cfg::gen();
    let mut knobs = Knobs::gen();
    knobs.items = if one_in(4) { range(1, 8) } else { range(1, 2) };
    if one_in(2) {
        knobs.section_weight = 4;
    }
    let doc = Gen::document(&knobs, cfg.clone());
    let answers: Vec<Option<String>> = doc.calls.iter().map(|c| Some(c.answer.clone())).collect();
    let mut texts = vec![doc.text.clone()];
    for _ in 0..range(1, 3) {
        let base = pick(&texts);
        texts.push(if one_in(6) { Gen::document(&knobs, cfg.clone()).text } else { variant(&base) });
    }
    let room = texts.iter().map(|t| t.len()).max().unwrap();
    let expand = draw(6);
    let handler = pick(HANDLERS);
    let op = |text: Arc<String>| Op {
        kind: match expand {
            0 => OpKind::Expand {
                text,
                param: false,
                answers: answers.clone(),
            },
            1 => OpKind::Describe {
                cfg: 0,
                text,
                answers: answers.clone(),
            },
            _ => OpKind::Parse {
                cfg: 0,
                text,
                answers: answers.clone(),
                handler,
            },
        },
        truth: None,
    };
    let order: Vec<usize> = (0..range(2, 8)).map(|_| draw(texts.len())).collect();
    env::case(&format!("{:?} {:?} {:?} {} {:?}", cfg, texts, order, expand, handler));
    env::nontrivial();
    env::fault("reused-buffer");
    env::sample(|| format!("one buffer receives {} in the order {:?}", env::short(&format!("{:?}", texts)), order));
    let cfgs = [cfg];
    // Each by itself: in a thread, in a buffer and with a parser of its own
    let alone: Vec<Mutex<Option<Outcome>>> = texts.iter().map(|_| Mutex::new(None)).collect();
    for (slot, text) in alone.iter().zip(&texts) {
        let op = &op;
        let cfgs = &cfgs;
        apart(Box::new(move || {
            let st = TaskState::new(cfgs);
            let op = op(Arc::new(text.clone()));
            *slot.lock().unwrap() = Some(run_op(&op_ctx(), || exec(&op, &st)));
        }));
    }
    let alone: Vec<Outcome> = alone.into_iter().map(|s| s.into_inner().unwrap().unwrap()).collect();
    if let (Outcome::Val(v), 2..) = (&alone[0], expand) {
        let want = accepted(&doc.events, &expected_history(&doc.calls));
        ensure!(*v == want, "wrong-result", "alone {} gives {} instead of {}", doc.show(), env::short(v), env::short(&want));
    }
    let results: Mutex<Vec<Outcome>> = Mutex::new(vec![]);
    apart(Box::new(|| {
        let st = TaskState::new(&cfgs);
        let mut buffer = Arc::new(String::with_capacity(room));
        for i in &order {
            let b = Arc::get_mut(&mut buffer).expect("the operation kept its text");
            b.clear();
            b.push_str(&texts[*i]);
            let o = op(buffer.clone());
            let outcome = run_op(&op_ctx(), || exec(&o, &st));
            results.lock().unwrap().push(outcome);
        }
    }));
    let results = results.into_inner().unwrap();
    env::first_violation()?;
    ensure!(results.len() == order.len(), "harness", "the documents were not all parsed");
    for (k, (i, r)) in order.iter().zip(&results).enumerate() {
        env::observe(&r.show());
        if let Outcome::Panic(p) = r {
            fail!("panic", "{} for {:?}", p, env::short(&texts[*i]));
        }
        ensure!(
            *r == alone[*i],
            "influenced",
            "document {} {:?}, after {:?} in the same buffer: alone it gives {}, here {}",
            k,
            env::short(&texts[*i]),
            env::short(&format!("{:?}", order[..k].iter().map(|i| &texts[*i]).collect::<Vec<_>>())),
            alone[*i].show(),
            difference(&alone[*i], r)
        );
    }
    Ok(())
}

/// One operation, hundreds of times with the same objects.
fn again_and_again() -> R {
    let mut w = Workload::gen();
    if one_in(2) {
        // The simplest of inputs
        let few = range(0, 2);
        w.frags = w.frags.iter().map(|f| Arc::new(f.iter().take(few).cloned().collect::<Vec<_>>().into())).collect();
    }
    let mut pool: Vec<Arc<Op>> = vec![];
    for _ in 0..range(1, 2) {
        let mut op = w.gen_op();
        if let (OpKind::Escape { text, .. } | OpKind::Expand { text, .. }, 0) = (&mut op.kind, draw(4)) {
            *text = Arc::new(String::new());
            op.truth = None;
        }
        pool.push(Arc::new(op));
    }
    let solo: Vec<sim::Solo> = pool.iter().map(|op| sim::solo(&w, op)).collect();
    let mut cost = 0;
    for (op, s) in pool.iter().zip(&solo) {
        check_truth(op, &s.outcome)?;
        env::case(&format!("{:?}", op.kind));
        cost += s.count as usize + op.weight();
    }
    let times = if one_in(2) { vocab::length(3000) } else { env::count() }.min(60_000 / (cost + 10)).max(2);
    env::case(&format!("{} times", times));
    env::fault("many-repetitions");
    env::nontrivial();
    env::sample(|| format!("{} times over {:?}", times, pool.iter().map(|o| o.show()).collect::<Vec<_>>()));
    let mixed = one_in(3);
    let order: Vec<usize> = (0..times).map(|i| if mixed { draw(pool.len()) } else { i % pool.len() }).collect();
    let plan = order.iter().map(|i| Step::plain(pool[*i].clone())).collect();
    let done = sim::together(&w, &[plan, vec![]], 0);
    env::first_violation()?;
    ensure!(done[0].len() == times, "harness", "the task did not finish");
    for (k, (d, i)) in done[0].iter().zip(&order).enumerate() {
        ensure!(
            d.outcome == solo[*i].outcome,
            "influenced",
            "{}: alone it gives {}, as number {} of a task {}",
            pool[*i].show(),
            solo[*i].outcome.show(),
            k,
            difference(&solo[*i].outcome, &d.outcome)
        );
    }
    Ok(())
}

/// Runs something in a thread of its own.
fn apart<'a>(f: Box<dyn FnOnce() + Send + 'a>) {
    run_tasks(vec![f], 0, 2 << 20);
}

pub fn difference(expected: &Outcome, got: &Outcome) -> String {
    match (expected, got) {
        (Outcome::Val(a), Outcome::Val(b)) => {
            let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let mut s = i.saturating_sub(40);
            while !b.is_char_boundary(s.min(b.len())) {
                s -= 1;
            }
            format!("(differs at {}) …{}", i, env::short(&b[s.min(b.len())..]))
        }
        _ => got.show(),
    }
}
