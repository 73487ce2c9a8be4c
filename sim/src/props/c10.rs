//! C10: each value a consumer reads comes only from its own part of the document.

use crate::env::{self, chance, one_in, R};
use crate::plan::*;
use crate::props::Property;
use crate::world::guarded;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C10",
    run,
    quick: 2_000_000,
    thorough: 20_000_000,
    level: "exploration",
    rule: "a case is a document tree and a consumer plan (what each entry is read as, skipped or abandoned); non-trivial if the consumer was offered at least one entry; distinct by document and plan",
    real: "deserializer, parser and events (all of sgmlish on this path), serde",
    stub: "deserialization consumer (simulated party following a drawn plan)",
};

fn run() -> R {
    let knobs = TreeKnobs::gen();
    let mut tree = gen_tree(&knobs);
    let mut events = tree.events();
    let plain_names = !format!("{:?}", events).contains('$');
    let through_text = plain_names && one_in(3);
    if through_text {
        tree = tree.canonical();
        events = tree.events();
    }
    let fragment = match guarded(|| fragment_of(&tree, through_text)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => fail!("document-rejected", "{}", e),
        Err(p) => fail!("panic", "{} while reading {}", p, tree.show()),
    };
    let plans = if one_in(3) { 2 } else { 1 };
    let misfits = chance(1, 4);
    for _ in 0..plans {
        let planned = gen_plan(&tree, misfits);
        env::case(&format!("{:?}{:?}", events, planned.plan));
        if planned.log.iter().any(|l| l.starts_with("key") || l == "item" || l.starts_with("variant")) {
            env::nontrivial();
        }
        let log = format!("{:?}", planned.plan);
        if log.contains("AfterKey") || log.contains("BeforeKey") {
            env::fault("structure-left-early");
        }
        if log.contains("Ignored") {
            env::fault("entry-ignored");
        }
        if log.contains("to_end: false") {
            env::fault("sequence-left-early");
        }
        if !planned.ok {
            env::fault("unreadable-entry");
        }
        env::sample(|| format!("{} plan={}", tree.show(), env::short(&log)));
        crate::tr!("document {}", tree.show());
        let c = Consumer::new();
        let reader = one_in(2);
        let frag = fragment.clone();
        let result = match guarded(|| consume(frag, &planned.plan, &c, reader)) {
            Ok(r) => r,
            Err(p) => fail!("panic", "{} reading {} with {:?}", p, tree.show(), planned.plan),
        };
        let log = c.log.borrow();
        env::observe(&log.join("\n"));
        if *log != planned.log {
            let i = log.iter().zip(&planned.log).position(|(a, b)| a != b).unwrap_or(log.len().min(planned.log.len()));
            fail!(
                "wrong-data",
                "callback {}: expected {:?}, got {:?} (result {:?}); read so far {:?}; document {}; plan {}",
                i,
                planned.log.get(i),
                log.get(i),
                result,
                &log[i.saturating_sub(8)..i],
                tree.show(),
                env::short(&format!("{:?}", planned.plan))
            );
        }
        ensure!(
            result.is_ok() == planned.ok,
            if planned.ok { "valid-read-rejected" } else { "invalid-read-accepted" },
            "result {:?} after {:?}; document {}; plan {}",
            result,
            log.last(),
            tree.show(),
            env::short(&format!("{:?}", planned.plan))
        );
    }
    Ok(())
}
