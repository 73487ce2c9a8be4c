//! C09: a consumer's own error ends deserialization at once and is returned intact.

use sgmlish::de::DeserializationError;

use crate::env::{self, draw, one_in, range, R};
use crate::plan::*;
use crate::props::Property;
use crate::world::guarded;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C09",
    run,
    quick: 1_000_000,
    thorough: 15_000_000,
    level: "fault_enumeration",
    rule: "a case is a document tree, a consumer plan and one of the consumer's callbacks, at which it fails; runs fail at one drawn callback, or (one run in eight) at every callback in turn; distinct by document, plan and failing callback",
    real: "deserializer, events, serde",
    stub: "deserialization consumer (simulated party that fails at its k-th callback)",
};

fn run() -> R {
    let tree = gen_tree(&TreeKnobs::gen());
    let planned = gen_plan(&tree, one_in(4));
    let events = tree.events();
    let reader = one_in(2);
    let fragment = || sgmlish::SgmlFragment::from(tree.events());
    // How many callbacks are there?
    let c = Consumer::new();
    let clean = match guarded(|| consume(fragment(), &planned.plan, &c, reader)) {
        Ok(r) => format!("{:?}", r),
        Err(p) => fail!("panic", "{} reading {}", p, tree.show()),
    };
    let clean_log = c.log.borrow().clone();
    let n = c.count.get();
    if n == 0 {
        return Ok(());
    }
    let every = one_in(8) && n < 400;
    let rounds = if every { n as usize } else { range(1, 3) };
    for i in 0..rounds {
        let k = if every { i as u64 } else { draw(n as usize) as u64 };
        let failure = if one_in(4) { Failure::about(&clean_log) } else { Failure::gen() };
        env::case(&format!("{:?}{:?}{}{:?}", events, planned.plan, k, failure));
        env::nontrivial();
        env::sample(|| format!("{} plan={} fails at callback {} of {} with {:?}", tree.show(), env::short(&format!("{:?}", planned.plan)), k, n, failure));
        let c = Consumer::failing(Some(k), failure.clone());
        let result = match guarded(|| consume(fragment(), &planned.plan, &c, reader)) {
            Ok(r) => r,
            Err(p) => fail!("panic", "{} reading {} with a failure at callback {}", p, tree.show(), k),
        };
        env::observe(&format!("{:?}", result));
        let place = c.failed_in.borrow().clone();
        let kind = place.split(' ').next().unwrap_or_default().to_string();
        env::fault(&format!("consumer-error-in-{}", kind));
        ensure!(c.failed.get(), "callbacks-differ", "callback {} of {} was not reached again; document {}", k, n, tree.show());
        ensure!(
            c.after_failure.borrow().is_empty(),
            "callback-after-failure",
            "after failing in {:?} (callback {}), the consumer was called again: {:?}; document {}; plan {}",
            place,
            k,
            c.after_failure.borrow(),
            tree.show(),
            env::short(&format!("{:?}", planned.plan))
        );
        match &result {
            Err(DeserializationError::Message(m)) if *m == failure.message() => {}
            other => fail!(
                "error-not-intact",
                "the consumer failed in {:?} (callback {}) with {:?}, but the result is {:?}; document {}; plan {}",
                place,
                k,
                failure.message(),
                other,
                tree.show(),
                env::short(&format!("{:?}", planned.plan))
            ),
        }
        if let Err(e) = &result {
            ensure!(e.to_string() == failure.message(), "error-not-intact", "the error displays as {:?} instead of {:?}", e.to_string(), failure.message());
        }
        // What was read before the failure is what is read without it
        let log = c.log.borrow();
        ensure!(
            log.len() <= clean_log.len() && log[..] == clean_log[..log.len()],
            "data-differs",
            "before failing at callback {} the consumer was given other data: {:?}; document {}",
            k,
            log,
            tree.show()
        );
    }
    // Without a failure, the result is the same as before
    let c = Consumer::new();
    let again = match guarded(|| consume(fragment(), &planned.plan, &c, reader)) {
        Ok(r) => format!("{:?}", r),
        Err(p) => fail!("panic", "{} reading {}", p, tree.show()),
    };
    ensure!(
        again == clean && *c.log.borrow() == clean_log,
        "failure-leaks",
        "after a failed deserialization, the same document reads differently: {} instead of {}; document {}",
        again,
        clean,
        tree.show()
    );
    Ok(())
}
