//! C15: lost end tags of text elements are restored; other damage is never hidden.

use sgmlish::transforms::{normalize_end_tags, NormalizationError};
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::damage::scramble;
use crate::doc::{blank, diff_events, is_ws, show_events, Ev};
use crate::env::{self, draw, fault, one_in, pick, range, size, R};
use crate::props::Property;
use crate::vocab;
use crate::world::guarded;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C15",
    run,
    quick: 5_000_000,
    thorough: 16_000_000,
    level: "exploration",
    rule: "a case is an element tree turned into events and what happened to its tags: lost end tags of text-only elements, or any loss, duplication, swap, splice or invention of complete tags, or of single events; non-trivial if something happened; distinct by the damaged stream",
    real: "normalize_end_tags, Transform",
    stub: "what damages the stream",
};

/// A complete tag or something between tags.
#[derive(Clone, Debug)]
enum Unit {
    Start(String, Vec<Ev>),
    Empty(String, Vec<Ev>),
    End(String),
    Other(Ev),
}

/// End tags that may be lost, by position.
type Losable = Vec<usize>;

struct TreeGen {
    extra: Vec<String>,
    out: Vec<Unit>,
    losable: Losable,
    names: usize,
    left: usize,
    others: bool,
}

const NAMES: &[&str] = &["a", "b", "c", "A", "item", "é", "a1", "B", "STMTTRN", "aa"];

fn attributes() -> Vec<Ev> {
    let n = if vocab::wild_number(120) { vocab::length(300) } else { size(1, 5) };
    (0..n)
        .map(|_| SgmlEvent::Attribute {
            name: pick(&["x", "y", "a"]).into(),
            value: if one_in(3) {
                None
            } else if vocab::wild_word(40) {
                Some(vocab::word().into())
            } else {
                Some(pick(&["", "1", "</a>", " "]).into())
            },
        })
        .collect()
}

fn text() -> Ev {
    if vocab::wild(40) {
        let w = if vocab::wild_number(6) { vocab::filler(3000) } else { vocab::word() };
        if !w.chars().all(is_ws) {
            return SgmlEvent::Character(w.into());
        }
    }
    SgmlEvent::Character(pick(&["t", "1 2", "\u{a0}", " x ", "</b>", "0", "\n.\n", "\u{c}", "日"]).into())
}

fn blank_text() -> Ev {
    if one_in(12) {
        SgmlEvent::Character("".into())
    } else {
        SgmlEvent::Character(blank().into())
    }
}

fn other() -> Ev {
    let text = if vocab::wild_word(20) { vocab::word() } else { pick(&["</a>", "", " ", "<a>", "x", "<![CDATA[a"]).to_string() };
    match draw(5) {
        0 | 1 => SgmlEvent::ProcessingInstruction(format!("<?p{}>", text).into()),
        2 => SgmlEvent::MarkupDeclaration {
            keyword: pick(&["DOCTYPE", "ENTITY", "x", ""]).into(),
            body: text.into(),
        },
        _ => SgmlEvent::MarkedSection {
            status_keywords: if vocab::wild_word(20) {
                vocab::word().into()
            } else {
                pick(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "ignore", "", "%x;", " CDATA\n", "TEMP IGNORE"]).into()
            },
            section: text.into(),
        },
    }
}

impl TreeGen {
    fn name(&self) -> String {
        if !self.extra.is_empty() && one_in(3) {
            return pick(&self.extra);
        }
        NAMES[draw(self.names)].to_string()
    }

    fn blanks(&mut self) {
        if one_in(2) {
            for _ in 0..range(1, 2) {
                self.out.push(Unit::Other(blank_text()));
            }
        }
    }

    /// An element with elements in it.
    fn element(&mut self, parent: &str, depth: usize) {
        let name = self.name();
        self.left = self.left.saturating_sub(1);
        match draw(if depth == 0 { 3 } else { 6 }) {
            0..=2 => {
                let a = attributes();
                self.out.push(Unit::Start(name.clone(), a));
                let texts = if vocab::wild_number(200) { vocab::length(300) } else { draw(4) };
                for _ in 0..texts {
                    let u = match draw(6) {
                        0 => blank_text(),
                        1 if self.others => other(),
                        _ => text(),
                    };
                    self.out.push(Unit::Other(u));
                }
                if name != parent {
                    self.losable.push(self.out.len());
                }
                self.out.push(Unit::End(name));
            }
            3 => {
                let a = attributes();
                self.out.push(Unit::Empty(name, a));
                // Text may follow it, as nothing of it can be lost
                if one_in(4) {
                    self.out.push(Unit::Other(text()));
                }
            }
            _ => {
                let a = attributes();
                self.out.push(Unit::Start(name.clone(), a));
                if self.others && one_in(4) {
                    self.out.push(Unit::Other(other()));
                }
                if one_in(8) {
                    self.out.push(Unit::Other(text()));
                }
                self.blanks();
                let wide = if vocab::wild_number(300) {
                    vocab::length(600)
                } else if one_in(20) { range(5, 40) } else { range(1, 4) };
                for _ in 0..wide {
                    if self.left == 0 {
                        break;
                    }
                    self.element(&name, depth - 1);
                    self.blanks();
                }
                self.out.push(Unit::End(name));
                if one_in(8) {
                    self.out.push(Unit::Other(text()));
                }
            }
        }
    }
}

fn flatten(units: &[Unit]) -> Vec<Ev> {
    let mut v = vec![];
    for u in units {
        match u {
            Unit::Start(n, a) | Unit::Empty(n, a) => {
                v.push(SgmlEvent::OpenStartTag { name: n.clone().into() });
                v.extend(a.iter().cloned());
                v.push(if let Unit::Empty(..) = u { SgmlEvent::XmlCloseEmptyElement } else { SgmlEvent::CloseStartTag });
            }
            Unit::End(n) => v.push(SgmlEvent::EndTag { name: n.clone().into() }),
            Unit::Other(e) => v.push(e.clone()),
        }
    }
    v
}

/// Self-closing tags as a start and an end tag.
fn spelled_out(units: &[Unit]) -> Vec<Ev> {
    let mut v = vec![];
    for u in units {
        match u {
            Unit::Empty(n, a) => v.extend(flatten(&[Unit::Start(n.clone(), a.clone()), Unit::End(n.clone())])),
            u => v.extend(flatten(std::slice::from_ref(u))),
        }
    }
    v
}

fn no_blanks(v: &[Ev]) -> Vec<Ev> {
    v.iter()
        .filter(|e| !matches!(e, SgmlEvent::Character(s) if s.chars().all(is_ws)))
        .cloned()
        .collect()
}

fn nested(v: &[Ev]) -> Result<(), String> {
    let mut open: Vec<&str> = vec![];
    for e in v {
        match e {
            SgmlEvent::OpenStartTag { name } => open.push(name),
            SgmlEvent::EndTag { name } => match open.pop() {
                Some(n) if n == name => {}
                n => return Err(format!("</{}> where {:?} is open", name, n)),
            },
            SgmlEvent::XmlCloseEmptyElement => return Err("a self-closing tag is left".into()),
            _ => {}
        }
    }
    match open.pop() {
        Some(n) => Err(format!("{:?} is never closed", n)),
        None => Ok(()),
    }
}

/// Every original event in order, and nothing but end tags added.
fn conserved(before: &[Ev], after: &[Ev]) -> Result<usize, String> {
    let mut i = 0;
    let mut added = 0;
    // An added end tag may equal the original one that follows: matching early is no loss
    for e in after {
        let same = match before.get(i) {
            Some(SgmlEvent::XmlCloseEmptyElement) => *e == SgmlEvent::CloseStartTag,
            Some(b) => b == e,
            None => false,
        };
        if same {
            i += 1;
        } else if let SgmlEvent::EndTag { .. } = e {
            added += 1;
        } else {
            return Err(format!("{:?} comes where {:?} was", e, before.get(i)));
        }
    }
    if i < before.len() {
        return Err(format!("{:?} is lost", before[i]));
    }
    Ok(added)
}

fn call(v: &[Ev]) -> Result<Result<Vec<Ev>, NormalizationError>, env::Violation> {
    match guarded(|| normalize_end_tags(SgmlFragment::from(v.to_vec()))) {
        Ok(r) => Ok(r.map(|f| f.into_vec())),
        Err(p) => fail!("panic", "{} when normalizing {}", p, show_events(v)),
    }
}

fn run() -> R {
    let mut g = TreeGen {
        extra: if vocab::wild(30) { (0..range(1, 2)).map(|_| vocab::any_name(100)).collect() } else { vec![] },
        out: vec![],
        losable: vec![],
        names: pick(&[4usize, 2, 10, 1]),
        left: if vocab::wild_number(200) { 600 } else { size(8, 60) + 1 },
        others: one_in(3),
    };
    let depth = if vocab::wild_number(200) {
        vocab::length(200)
    } else if one_in(12) { range(5, 40) } else { range(1, 4) };
    g.blanks();
    for _ in 0..size(1, 4) + 1 {
        g.element("", depth);
        g.blanks();
    }
    let TreeGen { out: whole, losable, .. } = g;
    match draw(5) {
        0 | 1 => lost_end_tags(&whole, &losable),
        2 | 3 => damaged(whole),
        _ => scrambled(&whole),
    }
}

fn lost_end_tags(whole: &[Unit], losable: &[usize]) -> R {
    let share = range(1, 4);
    let mut lost = std::collections::BTreeSet::new();
    for &i in losable {
        // Text between the lost tag and the next one would look like part of the element
        let mut j = i + 1;
        let clear = loop {
            match whole.get(j) {
                Some(Unit::Other(SgmlEvent::Character(s))) if s.chars().all(is_ws) => j += 1,
                Some(Unit::Other(_)) => break false,
                _ => break true,
            }
        };
        if clear && !one_in(share) {
            fault("lost-end-tag");
            lost.insert(i);
        }
    }
    let units: Vec<Unit> = whole.iter().enumerate().filter(|(i, _)| !lost.contains(i)).map(|(_, u)| u.clone()).collect();
    let v = flatten(&units);
    env::case(&format!("{:?}", v));
    if !lost.is_empty() {
        env::nontrivial();
    }
    env::sample(|| show_events(&v));
    let want = spelled_out(whole);
    let got = match call(&v)? {
        Ok(g) => g,
        Err(e) => fail!("not-restored", "{} for {}, of which {} end tags are lost", e, show_events(&v), lost.len()),
    };
    env::observe(&format!("{:?}", got));
    if let Some(d) = diff_events(&no_blanks(&want), &no_blanks(&got)) {
        fail!("not-restored", "{}: {} was made of {}", d, show_events(&got), show_events(&v));
    }
    if lost.is_empty() {
        if let Some(d) = diff_events(&want, &got) {
            fail!("changed", "{}: {} was made of {}, which lacks nothing", d, show_events(&got), show_events(&v));
        }
    }
    ok(&v, &got)
}

/// What holds of any result.
fn ok(v: &[Ev], got: &[Ev]) -> R {
    if let Err(e) = nested(got) {
        fail!("not-nested", "{}: {} was made of {}", e, show_events(got), show_events(v));
    }
    conservation(v, got)?;
    match call(got)? {
        Ok(again) if again == got => Ok(()),
        r => fail!("not-stable", "normalizing {} again gives {:?}", show_events(got), r),
    }
}

fn conservation(v: &[Ev], got: &[Ev]) -> R {
    if let Err(e) = conserved(v, got) {
        fail!("not-conserved", "{}: {} was made of {}", e, show_events(got), show_events(v));
    }
    Ok(())
}

fn gen_unit() -> Unit {
    let n = NAMES[draw(5)].to_string();
    match draw(8) {
        0 => Unit::Start(n, attributes()),
        1 | 2 => Unit::End(n),
        3 => Unit::Empty(n, vec![]),
        4 => Unit::Other(blank_text()),
        5 if one_in(3) => Unit::Start("".into(), vec![]),
        5 if one_in(2) => Unit::End("".into()),
        5 => Unit::Other(other()),
        _ => Unit::Other(text()),
    }
}

/// Any damage to complete tags.
fn damaged(mut units: Vec<Unit>) -> R {
    let hits = if one_in(6) { range(3, 12) } else { range(1, 3) };
    for _ in 0..hits {
        let n = units.len();
        match draw(6) {
            0 | 1 if n > 0 => {
                fault("lost-tag");
                units.remove(draw(n));
            }
            2 if n > 0 => {
                fault("duplicated-tag");
                let u = units[draw(n)].clone();
                units.insert(draw(n + 1), u);
            }
            3 if n > 1 => {
                fault("swapped-tags");
                let (a, b) = (draw(n), draw(n));
                units.swap(a, b);
            }
            4 if n > 0 => {
                fault("lost-tail");
                units.truncate(draw(n + 1));
            }
            5 if one_in(8) => {
                fault("repeated-tag");
                let u = if n > 0 && one_in(2) { units[draw(n)].clone() } else { gen_unit() };
                let at = draw(n + 1);
                let times = if one_in(2) { vocab::length(600) } else { env::count() };
                units.splice(at..at, std::iter::repeat_n(u, times));
            }
            _ => {
                fault("stray-tag");
                let at = draw(n + 1);
                units.insert(at, gen_unit());
            }
        }
    }
    let v = flatten(&units);
    env::case(&format!("{:?}", v));
    env::nontrivial();
    env::sample(|| show_events(&v));
    // The end tags and the start tags they close, from the end
    let mut ends: Vec<(usize, &str)> = vec![];
    let mut closed = vec![false; units.len()];
    let mut empty = false;
    for (i, u) in units.iter().enumerate().rev() {
        match u {
            Unit::Start(n, _) | Unit::End(n) | Unit::Empty(n, _) if n.is_empty() => empty = true,
            Unit::End(n) => ends.push((i, n)),
            Unit::Start(n, _) => {
                if ends.last().map(|e| e.1 == n).unwrap_or(false) {
                    ends.pop();
                    closed[i] = true;
                }
            }
            _ => {}
        }
    }
    let result = call(&v)?;
    env::observe(&format!("{:?}", result));
    match result {
        Err(NormalizationError::EmptyTagNotSupported) => {
            env::probe("empty-tag-reported");
            ensure!(empty, "spurious-error", "there is no empty tag in {}", show_events(&v));
        }
        Err(NormalizationError::UnpairedEndTag(n)) => {
            env::probe("unpaired-end-tag-reported");
            ensure!(
                ends.iter().any(|e| e.1 == n),
                "spurious-error",
                "no end tag </{}> is without a start tag in {}",
                n,
                show_events(&v)
            );
        }
        Ok(got) => {
            env::probe("normalized");
            ensure!(!empty, "hidden-damage", "the empty tag in {} went unnoticed", show_events(&v));
            ensure!(ends.is_empty(), "hidden-damage", "the end tags {:?} of {} close nothing, which went unnoticed", ends, show_events(&v));
            ok(&v, &got)?;
            // Each start tag without an end gets one before the next tag
            let mut want = vec![];
            let mut pending: Option<String> = None;
            for (i, u) in units.iter().enumerate() {
                if !matches!(u, Unit::Other(_)) {
                    if let Some(n) = pending.take() {
                        want.push(Unit::End(n));
                    }
                }
                want.push(u.clone());
                if let Unit::Start(n, _) = u {
                    if !closed[i] {
                        pending = Some(n.clone());
                    }
                }
            }
            if let Some(n) = pending {
                want.push(Unit::End(n));
            }
            let want = spelled_out(&want);
            if let Some(d) = diff_events(&no_blanks(&want), &no_blanks(&got)) {
                fail!("wrong-place", "{}: {} was made of {}", d, show_events(&got), show_events(&v));
            }
        }
    }
    Ok(())
}

/// Damage that breaks tags apart: nothing may be lost or made up all the same.
fn scrambled(whole: &[Unit]) -> R {
    let mut v = flatten(whole);
    let hits = range(1, 5);
    scramble(&mut v, hits);
    env::case(&format!("{:?}", v));
    env::nontrivial();
    env::sample(|| show_events(&v));
    let result = call(&v)?;
    env::observe(&format!("{:?}", result));
    match result {
        Ok(got) => conservation(&v, &got),
        Err(NormalizationError::EmptyTagNotSupported) => {
            let empty = v.iter().any(|e| matches!(e, SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty()));
            ensure!(empty, "spurious-error", "there is no empty tag in {}", show_events(&v));
            Ok(())
        }
        Err(NormalizationError::UnpairedEndTag(n)) => {
            let there = v.iter().any(|e| matches!(e, SgmlEvent::EndTag { name } if *name == n));
            ensure!(there, "spurious-error", "there is no end tag </{}> in {}", n, show_events(&v));
            Ok(())
        }
    }
}
