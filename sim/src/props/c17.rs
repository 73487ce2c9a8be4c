//! C17: no consumer is given a value from an element whose tags do not pair up.

use std::borrow::Cow;

use sgmlish::{SgmlEvent, SgmlFragment};

use crate::damage;
use crate::doc::{show_events, Ev};
use crate::env::{self, draw, fault, one_in, pick, range, short, R};
use crate::fail;
use crate::plan::{gen_tree, TreeKnobs};
use crate::props::{c16, Property};
use crate::vocab;
use crate::world::guarded;

pub const PROPERTY: Property = Property {
    id: "C17",
    run,
    quick: 2_500_000,
    thorough: 40_000_000,
    level: "fault_enumeration",
    rule: "a case is an element tree (up to hundreds of siblings or levels) turned into events, what happened to its tags (renamed, lost, repeated, moved, exchanged, invented, cut off; in some runs each end tag in turn) and a consumer that reads, skips or leaves each part as it likes; non-trivial if something happened to a tag; distinct by the damaged stream",
    real: "deserializer, in some runs rendering and parser",
    stub: "what damages the stream, the consumers",
};

/// A name someone might take for the same.
fn similar(name: &str) -> String {
    let mut chars: Vec<char> = name.chars().collect();
    match draw(9) {
        0 => {
            let i = draw(chars.len());
            chars[i] = if chars[i].is_uppercase() { chars[i].to_lowercase().next().unwrap() } else { chars[i].to_uppercase().next().unwrap() };
        }
        1 => chars.push(pick(&['x', '1', '-', '.', '\u{301}'])),
        2 if chars.len() > 1 => {
            chars.pop();
        }
        3 => chars.insert(0, pick(&['x', '-'])),
        4 => {
            let i = draw(chars.len());
            chars[i] = pick(&['x', 'z', 'b', '0']);
        }
        5 => chars.reverse(),
        6 if chars.len() > 1 => {
            let i = draw(chars.len() - 1);
            chars.swap(i, i + 1);
        }
        7 => return pick(&["a", "b", "root", "value", "$value"]).to_string(),
        _ => {
            let i = chars.len() - 1;
            chars[i] = char::from_u32(chars[i] as u32 + pick(&[1, 16, 256])).filter(|c| c.is_alphanumeric()).unwrap_or('q');
        }
    }
    chars.into_iter().collect()
}

fn is_end(e: &Ev) -> bool {
    matches!(e, SgmlEvent::EndTag { .. })
}

fn some_end(events: &[Ev]) -> Option<usize> {
    let ends: Vec<usize> = (0..events.len()).filter(|&i| is_end(&events[i])).collect();
    if ends.is_empty() {
        return None;
    }
    Some(ends[draw(ends.len())])
}

fn hit(events: &mut Vec<Ev>) {
    let i = match some_end(events) {
        Some(i) => i,
        None => return,
    };
    match draw(10) {
        0 | 1 => {
            fault("renamed-end-tag");
            if let SgmlEvent::EndTag { name } = &mut events[i] {
                *name = Cow::Owned(similar(name));
            }
        }
        2 => {
            fault("lost-end-tag");
            events.remove(i);
        }
        3 => {
            fault("repeated-end-tag");
            let e = events[i].clone();
            events.insert(i, e);
        }
        4 => {
            fault("moved-end-tag");
            let e = events.remove(i);
            let at = draw(events.len() + 1);
            events.insert(at, e);
        }
        5 | 6 => {
            fault("exchanged-end-tags");
            let next = (i + 1..events.len()).find(|&k| is_end(&events[k]));
            let k = if one_in(2) { next.unwrap_or(i) } else { some_end(events).unwrap_or(i) };
            events.swap(i, k);
        }
        7 => {
            fault("renamed-start-tag");
            let k = draw(events.len());
            if let Some(SgmlEvent::OpenStartTag { name }) = events[k..].iter_mut().find(|e| matches!(e, SgmlEvent::OpenStartTag { .. })) {
                *name = Cow::Owned(similar(name));
            }
        }
        8 => {
            fault("lost-start-tag");
            let k = draw(events.len());
            if let Some(k) = (k..events.len()).find(|&k| k > 0 && matches!(events[k], SgmlEvent::OpenStartTag { .. })) {
                let n = events[k..].iter().position(|e| matches!(e, SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement)).map_or(1, |n| n + 1);
                events.drain(k..k + n);
            }
        }
        _ => {
            fault("lost-tail");
            events.truncate(range(1, events.len()));
        }
    }
}

/// Whether the first element's tags pair up, as far as its end.
fn paired(events: &[Ev]) -> bool {
    let mut stack: Vec<&str> = vec![];
    for e in events {
        match e {
            SgmlEvent::OpenStartTag { name } => stack.push(name),
            SgmlEvent::EndTag { name } => {
                if stack.pop() != Some(&**name) {
                    return false;
                }
            }
            SgmlEvent::XmlCloseEmptyElement => {
                if stack.pop().is_none() {
                    return false;
                }
            }
            _ => {}
        }
        if stack.is_empty() {
            return matches!(e, SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement);
        }
    }
    false
}

/// Nothing the deserializer does not take.
fn supported(events: &[Ev]) -> bool {
    events.iter().all(|e| match e {
        SgmlEvent::MarkupDeclaration { .. } | SgmlEvent::ProcessingInstruction(_) | SgmlEvent::MarkedSection { .. } => false,
        SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => !name.is_empty(),
        _ => true,
    })
}

fn gen_events() -> Vec<Ev> {
    let mut k = TreeKnobs::gen();
    if k.deep && !one_in(4) {
        k.deep = false;
    }
    let mut events = gen_tree(&k).events();
    if one_in(10) {
        // Many, one after the other, or inside each other
        let n = vocab::length(600);
        let name = pick(&["a", "item", "b"]);
        let nested = one_in(2);
        let open = || [SgmlEvent::OpenStartTag { name: Cow::Borrowed(name) }, SgmlEvent::CloseStartTag];
        let close = || SgmlEvent::EndTag { name: Cow::Borrowed(name) };
        let mut more = vec![];
        for i in 0..n {
            more.extend(open());
            if !nested {
                more.push(SgmlEvent::Character(i.to_string().into()));
                more.push(close());
            }
        }
        if nested {
            more.push(SgmlEvent::Character("x".into()));
            more.extend((0..n).map(|_| close()));
        }
        let at = match events.iter().position(|e| matches!(e, SgmlEvent::CloseStartTag)) {
            Some(at) if one_in(2) => at + 1,
            _ => events.len().saturating_sub(1).max(1),
        };
        let at = if events.get(at.wrapping_sub(1)).map_or(false, |e| matches!(e, SgmlEvent::OpenStartTag { .. } | SgmlEvent::Attribute { .. })) { events.len() } else { at };
        events.splice(at..at, more);
    }
    events
}

fn run() -> R {
    let mut events = gen_events();
    let intact = one_in(12);
    if !intact && events.len() < 60 && one_in(10) {
        // Each end tag in turn
        for i in 0..events.len() {
            if let SgmlEvent::EndTag { name } = &events[i] {
                fault("renamed-end-tag");
                let mut e = events.clone();
                e[i] = SgmlEvent::EndTag { name: Cow::Owned(similar(name)) };
                env::nontrivial();
                check(e)?;
            }
        }
        return Ok(());
    }
    if !intact {
        if one_in(15) {
            damage::scramble(&mut events, range(1, 3));
            fault("scrambled");
        } else {
            for _ in 0..pick(&[1, 1, 1, 2, 4]) {
                hit(&mut events);
            }
        }
        env::nontrivial();
    }
    if one_in(8) {
        // As a document
        let text = SgmlFragment::from(events.clone()).to_string();
        match sgmlish::Parser::builder().trim_whitespace(one_in(2)).expand_entities(|_: &str| Some("x")).parse(&text) {
            Ok(f) => events = f.into_owned().into_vec(),
            Err(_) => return Ok(()),
        }
    }
    check(events)
}

fn check(events: Vec<Ev>) -> R {
    env::case(&show_events(&events));
    env::sample(|| short(&show_events(&events)));
    if !matches!(events.first(), Some(SgmlEvent::OpenStartTag { .. })) {
        return Ok(());
    }
    let paired = paired(&events);
    let supported = supported(&events);
    env::probe(if paired { "paired" } else { "not-paired" });
    for _ in 0..pick(&[2, 3, 6]) {
        let way = draw(c16::WAYS.len());
        let choices = draw(1 << 20) as u64;
        let got = match guarded(|| c16::read(SgmlFragment::from(events.clone()), way, choices)) {
            Ok(r) => r,
            Err(panic) => fail!("panic", "{}: {} read as {} (choices {})", panic, show_events(&events), c16::WAYS[way], choices),
        };
        env::observe(&format!("{:?}", got));
        match got {
            Ok(()) => {
                env::probe("accepted");
                if !paired {
                    fail!("mispaired-accepted", "read as {} (choices {}) without an error: {}", c16::WAYS[way], choices, show_events(&events));
                }
            }
            Err(e) => {
                if paired && supported && matches!(c16::WAYS[way], "nothing" | "text" | "owned text") {
                    fail!("paired-rejected", "{}: {} read as {}", e, show_events(&events), c16::WAYS[way]);
                }
            }
        }
    }
    Ok(())
}
