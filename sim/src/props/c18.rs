//! C18: a marked section kept as it is is never dropped from a value.

use sgmlish::{SgmlEvent, SgmlFragment};

use crate::doc::{show_events, Ev};
use crate::env::{self, chance, draw, fault, one_in, pick, R};
use crate::fail;
use crate::plan::{consume, gen_plan, gen_tree, Consumer, Plan, TreeKnobs};
use crate::props::Property;
use crate::vocab;
use crate::world::guarded;

pub const PROPERTY: Property = Property {
    id: "C18",
    run,
    quick: 1_500_000,
    thorough: 20_000_000,
    level: "fault_enumeration",
    rule: "a case is an element tree, one to three events at places within it that an upstream stage left as they are (marked sections, processing instructions, declarations; in some runs one at each place in turn) and a consumer that reads, skips or leaves each part as it likes; non-trivial if text in that place would have changed what the consumer is given; distinct by the stream and the consumer",
    real: "deserializer, events",
    stub: "the stage that leaves sections unread, the consumers",
};

/// Text no consumer is ever given otherwise, and no number or flag.
const MARK: &str = "\u{a7}unread\u{a7}";

fn section() -> Ev {
    let word = vocab::word();
    SgmlEvent::MarkedSection {
        status_keywords: pick(&["CDATA", "CDATA", "RCDATA", "INCLUDE", "cdata", "", "IGNORE", "TEMP"]).into(),
        section: match draw(8) {
            0 => "1".into(),
            1 => " ".into(),
            2 => "true".into(),
            3 => "<b>x</b>".into(),
            4 => word.into(),
            5 => vocab::filler(vocab::length(300)).into(),
            _ => "lost".into(),
        },
    }
}

fn bystander() -> Ev {
    if one_in(2) {
        SgmlEvent::ProcessingInstruction(pick(&["<?x>", "<?xml version='1.0'?>", "<?>"]).into())
    } else {
        SgmlEvent::MarkupDeclaration { keyword: pick(&["DOCTYPE", "ENTITY"]).into(), body: pick(&["x", "", "a [ <!b> ]"]).into() }
    }
}

/// The places within the content of the first element.
fn places(events: &[Ev]) -> Vec<usize> {
    let mut depth = 0usize;
    let mut out = vec![];
    for (i, e) in events.iter().enumerate() {
        match e {
            SgmlEvent::OpenStartTag { .. } => depth += 1,
            SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => depth = depth.saturating_sub(1),
            _ => {}
        }
        if depth == 0 {
            break;
        }
        if !matches!(e, SgmlEvent::OpenStartTag { .. } | SgmlEvent::Attribute { .. }) {
            out.push(i + 1);
        }
    }
    out
}

fn with(events: &[Ev], at: &[(usize, Ev)]) -> Vec<Ev> {
    let mut out = events.to_vec();
    for (i, e) in at.iter().rev() {
        out.insert(*i, e.clone());
    }
    out
}

#[derive(Clone, Copy)]
struct Way {
    reader: bool,
    shy: bool,
}

struct Reading {
    ok: bool,
    log: Vec<String>,
}

fn read(events: &[Ev], plan: &Plan, way: Way) -> Result<Reading, String> {
    let c = Consumer::new();
    c.shy.set(way.shy);
    let fragment = SgmlFragment::from(events.to_vec());
    let ok = guarded(|| consume(fragment, plan, &c, way.reader))?.is_ok();
    let log = c.log.borrow().clone();
    Ok(Reading { ok, log })
}

fn run() -> R {
    let mut knobs = TreeKnobs::gen();
    if knobs.deep && !one_in(5) {
        knobs.deep = false;
    }
    let tree = gen_tree(&knobs);
    let events: Vec<Ev> = tree.events();
    let planned = gen_plan(&tree, chance(1, 6));
    let way = Way { reader: one_in(2), shy: one_in(3) };
    let places = places(&events);
    if places.is_empty() {
        return Ok(());
    }
    let plain = match read(&events, &planned.plan, way) {
        Ok(r) => r,
        Err(p) => fail!("panic", "{} reading {}", p, show_events(&events)),
    };
    if places.len() < 40 && one_in(8) {
        for &i in &places {
            judge(&events, &plain, &[(i, section())], &planned.plan, way)?;
        }
        return Ok(());
    }
    let mut at: Vec<usize> = (0..pick(&[1, 1, 1, 2, 3])).map(|_| places[draw(places.len())]).collect();
    at.sort_unstable();
    let at: Vec<(usize, Ev)> = at.into_iter().map(|i| (i, if one_in(5) { bystander() } else { section() })).collect();
    judge(&events, &plain, &at, &planned.plan, way)
}

fn judge(events: &[Ev], plain: &Reading, at: &[(usize, Ev)], plan: &Plan, way: Way) -> R {
    let given = with(events, at);
    for (_, e) in at {
        fault(match e {
            SgmlEvent::MarkedSection { .. } => "section-left",
            SgmlEvent::ProcessingInstruction(_) => "instruction-left",
            _ => "declaration-left",
        });
    }
    env::case(&format!("{}{:?}", show_events(&given), plan));
    env::sample(|| format!("{} read as {}", env::short(&show_events(&given)), env::short(&format!("{:?}", plan))));
    let result = match read(&given, plan, way) {
        Ok(r) => r,
        Err(p) => fail!("panic", "{} reading {} as {:?}", p, show_events(&given), plan),
    };
    env::observe(&format!("{} {}", result.ok, result.log.join("\n")));
    // What would have happened with text in the place of each section
    let mut matters = false;
    for (i, e) in at {
        if matches!(e, SgmlEvent::MarkedSection { .. }) {
            let text = with(events, &[(*i, SgmlEvent::Character(MARK.into()))]);
            if let Ok(r) = read(&text, plan, way) {
                matters |= r.ok != plain.ok || r.log != plain.log;
            }
        }
    }
    if matters {
        env::nontrivial();
        env::probe("text-there-would-matter");
    }
    if !result.ok {
        env::probe("rejected");
        return Ok(());
    }
    env::probe("accepted");
    if matters {
        fail!(
            "section-dropped",
            "no error, although text in the place of a marked section would have changed what is read: {}; plan {}; given {:?}",
            show_events(&given),
            env::short(&format!("{:?}", plan)),
            result.log
        );
    }
    if result.log != plain.log || !plain.ok {
        fail!(
            "changed-by-bystander",
            "an event that carries nothing for the consumer changes what it is given: {}; plan {}; given {:?}, without it {:?} ({})",
            show_events(&given),
            env::short(&format!("{:?}", plan)),
            result.log,
            plain.log,
            if plain.ok { "ok" } else { "error" }
        );
    }
    Ok(())
}
