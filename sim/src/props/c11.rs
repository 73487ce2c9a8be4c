//! C11: recorded edits apply exactly once, whatever the order they arrived in.

use std::collections::BTreeSet;

use sgmlish::transforms::Transform;
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::doc::{diff_events, Ev};
use crate::env::{self, chance, draw, fault, one_in, pick, range, short, R};
use crate::damage::stray;
use crate::props::Property;
use crate::vocab;
use crate::world::{callout, guarded, Kind};
use crate::{ensure, fail, tr};

pub const PROPERTY: Property = Property {
    id: "C11",
    run,
    quick: 1_000_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a case is an event list, the edits of 1 to 6 editors that record into one transform in an interleaving decided by the scheduler, and the faults (repeated deliveries, crashed and restarted editors, copies taken midway and later used or thrown away); non-trivial if two edits at least were recorded; distinct by events, edits and order",
    real: "Transform and SgmlFragment",
    stub: "the editors",
};

#[derive(Clone, Debug)]
enum Edit {
    Insert(usize, Ev),
    Remove(usize),
}

/// A transform and the edits recorded in it.
#[derive(Clone)]
struct Book {
    t: Transform<'static>,
    log: Vec<Edit>,
}

fn event(tag: String) -> Ev {
    if vocab::wild(40) {
        return stray();
    }
    match draw(6) {
        0 => SgmlEvent::OpenStartTag { name: tag.into() },
        1 => SgmlEvent::EndTag { name: tag.into() },
        2 => SgmlEvent::Attribute { name: tag.into(), value: None },
        3 => SgmlEvent::CloseStartTag,
        4 => SgmlEvent::Character("".into()),
        _ => SgmlEvent::Character(tag.into()),
    }
}

/// An index far behind the end; cut to fewer bits it may be one of the list's.
fn far(n: usize) -> usize {
    let low = draw(n + 2);
    if vocab::wild_number(8) {
        return vocab::number() as usize;
    }
    match draw(8) {
        0 => usize::MAX,
        1 => usize::MAX - low,
        2 => isize::MAX as usize,
        3 => (1 << 63) + low,
        4 => (1 << 32) + low,
        5 => (1 << 31) + low,
        6 => (1 << 16) + low,
        _ => (low << 32) + (1 << pick(&[8, 33, 48, 62])),
    }
}

/// The reference: walks the original list, once per position.
fn reference(events: &[Ev], log: &[Edit]) -> Vec<Ev> {
    let n = events.len();
    let mut before: Vec<Vec<&Ev>> = vec![vec![]; n];
    let mut past: Vec<(usize, &Ev)> = vec![];
    let mut removed = vec![false; n];
    for e in log {
        match e {
            Edit::Insert(i, e) if *i < n => before[*i].push(e),
            Edit::Insert(i, e) => {
                // Behind everything at the same index or a lower one
                let at = past.iter().position(|(j, _)| j > i).unwrap_or(past.len());
                past.insert(at, (*i, e));
            }
            Edit::Remove(i) if *i < n => removed[*i] = true,
            Edit::Remove(_) => {}
        }
    }
    let mut out = vec![];
    for (i, e) in events.iter().enumerate() {
        out.extend(before[i].iter().map(|e| (*e).clone()));
        if !removed[i] {
            out.push(e.clone());
        }
    }
    out.extend(past.into_iter().map(|(_, e)| e.clone()));
    out
}

fn record(b: &mut Book, e: &Edit) {
    match e {
        Edit::Insert(i, ev) => b.t.insert_at(*i, ev.clone()),
        Edit::Remove(i) => b.t.remove_at(*i),
    }
    b.log.push(e.clone());
}

fn show(events: &[Ev], log: &[Edit]) -> String {
    short(&format!("{:?} edited by {:?}", events, log))
}

/// Applies a copy or the transform itself.
fn applied(t: Transform<'static>, events: &[Ev], log: &[Edit]) -> Result<Vec<Ev>, env::Violation> {
    match guarded(|| t.apply(SgmlFragment::from(events.to_vec()))) {
        Ok(f) => Ok(f.into_vec()),
        Err(p) => fail!("panic", "{} when applying to {}", p, show(events, log)),
    }
}

fn check(b: &Book, events: &[Ev]) -> R {
    let want = reference(events, &b.log);
    let got = applied(b.t.clone(), events, &b.log)?;
    if let Some(d) = diff_events(&want, &got) {
        fail!("wrong-result", "{}: {}", d, show(events, &b.log));
    }
    ensure!(b.t.is_empty() == b.log.is_empty(), "is-empty", "is_empty() is {} after {} edits", b.t.is_empty(), b.log.len());
    Ok(())
}

fn run() -> R {
    let n = match draw(12) {
        _ if vocab::wild_number(60) => vocab::length(600),
        0 => 0,
        1 => range(50, 300),
        2 => 1,
        _ => range(1, 14),
    };
    let mut events: Vec<Ev> = (0..n).map(|i| event(format!("o{}", i))).collect();
    env::case(&format!("{:?}", events));
    let rounds = if one_in(5) { range(2, 4) } else { 1 };
    for round in 0..rounds {
        events = one_round(events, round)?;
        if events.len() > 600 {
            break;
        }
    }
    Ok(())
}

fn one_round(events: Vec<Ev>, round: usize) -> Result<Vec<Ev>, env::Violation> {
    let n = events.len();
    // Sorting treats long lists differently from short ones
    let total = match draw(10) {
        _ if vocab::wild_number(60) => vocab::length(1000),
        0 => range(40, 400),
        1 | 2 => range(15, 60),
        _ => range(0, 14),
    };
    let editors = range(1, 6);
    // Few different positions make collisions
    let hot: Vec<usize> = (0..range(1, 4))
        .map(|_| match draw(6) {
            0 => n,
            1 => n + range(1, 3),
            2 => far(n),
            _ => draw(n + 1),
        })
        .collect();
    let inserts = pick(&[2usize, 8, 5, 10, 0]);
    let hot_share = pick(&[3usize, 9, 10, 0]);
    let mut scripts: Vec<Vec<Edit>> = vec![vec![]; editors];
    for k in 0..total {
        let at = if chance(hot_share, 10) {
            pick(&hot)
        } else if one_in(12) {
            if one_in(4) {
                far(n)
            } else {
                n + draw(4)
            }
        } else {
            draw(n + 1)
        };
        let e = if chance(inserts, 10) {
            Edit::Insert(at, event(format!("i{}.{}", round, k)))
        } else {
            Edit::Remove(at)
        };
        let who = draw(editors);
        scripts[who].push(e);
    }
    let mut book = Book { t: Transform::new(), log: vec![] };
    ensure!(book.t.is_empty(), "is-empty", "a new transform is not empty");
    // Copies taken midway
    let mut copies: Vec<Book> = vec![];
    let mut next = vec![0usize; editors];
    let mut who = 0;
    let copying = one_in(3);
    let redelivering = one_in(4);
    let crashing = one_in(4);
    loop {
        let ready: Vec<usize> = (0..editors).filter(|e| next[*e] < scripts[*e].len()).collect();
        if ready.is_empty() {
            break;
        }
        let then = pick(&ready);
        if then != who {
            env::with(|e| e.switches += 1);
            who = then;
        }
        env::mark(2000 + who as u64);
        callout(Kind::Editor);
        if crashing && one_in(10) {
            // The editor is gone: for good, or it comes back with its remaining edits
            fault("editor-crash");
            if one_in(2) {
                next[who] = scripts[who].len();
                continue;
            }
            if next[who] > 0 && one_in(2) {
                // It does not know whether its last edit arrived
                let again = scripts[who][next[who] - 1].clone();
                if let Edit::Remove(_) = again {
                    fault("redelivered-edit");
                    record(&mut book, &again);
                }
            }
        }
        let e = scripts[who][next[who]].clone();
        next[who] += 1;
        tr!("editor {} records {:?}", who, e);
        record(&mut book, &e);
        if redelivering && one_in(5) {
            if let Edit::Remove(_) = e {
                fault("redelivered-edit");
                record(&mut book, &e);
            }
        }
        if copying && one_in(8) {
            let copy = Book {
                t: book.t.clone(),
                log: book.log.clone(),
            };
            match draw(3) {
                0 => {
                    // Goes on with the copy; the original is left alone
                    fault("resume-on-copy");
                    copies.push(std::mem::replace(&mut book, copy));
                }
                1 => copies.push(copy),
                _ => {
                    fault("applied-midway");
                    check(&copy, &events)?;
                }
            }
        }
        if !copies.is_empty() && one_in(10) {
            // Somebody goes on recording into an older copy
            fault("edit-on-old-copy");
            let k = draw(copies.len());
            let e = Edit::Insert(draw(n + 2), event(format!("c{}", k)));
            record(&mut copies[k], &e);
        }
    }
    env::case(&format!("{:?}", book.log));
    if book.log.len() >= 2 {
        env::nontrivial();
    }
    env::sample(|| format!("{} events, {}", n, short(&format!("{:?}", book.log))));
    check(&book, &events)?;
    for c in &copies {
        check(c, &events)?;
    }
    // The same edits, arriving in another order
    if one_in(3) {
        env::fault("reordered-edits");
        check_reordered(&book, &events)?;
    }
    // The same edits, on another list
    if one_in(4) {
        let k = draw(n + 2);
        let other: Vec<Ev> = (0..k).map(|i| event(format!("x{}", i))).collect();
        check(&book, &other)?;
    }
    let want = reference(&events, &book.log);
    let got = applied(book.t, &events, &book.log)?;
    if let Some(d) = diff_events(&want, &got) {
        fail!("wrong-result", "{}: {}", d, show(&events, &book.log));
    }
    env::observe(&format!("{:?}", got));
    Ok(got)
}

/// Delivers the edits in another order that keeps insertions at one index in order.
fn check_reordered(b: &Book, events: &[Ev]) -> R {
    let mut queues: Vec<(usize, Vec<Edit>)> = vec![];
    let mut removals: Vec<Edit> = vec![];
    for e in &b.log {
        match e {
            Edit::Insert(i, _) => match queues.iter_mut().find(|(j, _)| j == i) {
                Some((_, q)) => q.push(e.clone()),
                None => queues.push((*i, vec![e.clone()])),
            },
            Edit::Remove(_) => removals.push(e.clone()),
        }
    }
    let mut other = Book { t: Transform::new(), log: vec![] };
    let mut heads = vec![0usize; queues.len()];
    // Repeated removals add nothing
    let mut seen = BTreeSet::new();
    let unique = one_in(2);
    loop {
        let mut ready: Vec<usize> = (0..queues.len()).filter(|q| heads[*q] < queues[*q].1.len()).collect();
        if !removals.is_empty() {
            ready.push(usize::MAX);
        }
        if ready.is_empty() {
            break;
        }
        match pick(&ready) {
            usize::MAX => {
                let k = draw(removals.len());
                let e = removals.swap_remove(k);
                if let Edit::Remove(i) = e {
                    if !unique || seen.insert(i) {
                        record(&mut other, &e);
                    }
                }
            }
            q => {
                let e = queues[q].1[heads[q]].clone();
                heads[q] += 1;
                record(&mut other, &e);
            }
        }
    }
    let a = applied(b.t.clone(), events, &b.log)?;
    let c = applied(other.t, events, &other.log)?;
    if let Some(d) = diff_events(&a, &c) {
        fail!("order-matters", "{}: {} gives another result than {:?}", d, show(events, &b.log), other.log);
    }
    Ok(())
}
