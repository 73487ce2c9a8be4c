//! C12: paused, copied and resumed iteration yields each item exactly once.

use sgmlish::parser::events::{content_item, document_entity, marked_section_declaration, processing_instruction, start_tag, EventIter};
use sgmlish::text::{escape, Escape};
use sgmlish::SgmlEvent;

use crate::damage::damage;
use crate::doc::*;
use crate::env::{self, draw, fault, one_in, pick, range, short, size, R};
use crate::props::Property;
use crate::vocab;
use crate::world::{callout, guarded, Kind};
use crate::{ensure, fail, tr};

pub const PROPERTY: Property = Property {
    id: "C12",
    run,
    quick: 1_200_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a case is a text (or a document whose items are pulled as events) and the schedule of pulls, bulk reads, copies, displays, mode switches and pauses over the pool of iterators; non-trivial if a copy was taken or a bulk read made before the end; distinct by text and schedule",
    real: "text::escape, parser::events iterators, fragment iterators",
    stub: "the pullers",
};

fn run() -> R {
    match draw(8) {
        0..=4 => escaped(),
        5 | 6 => item_events(),
        _ => whole_document(),
    }
}

fn gen_text() -> String {
    let n = if one_in(60) { range(1000, 5000) } else { size(10, 120) };
    if vocab::wild(30) {
        // Words, long stretches without anything special
        let mut s = String::new();
        for _ in 0..range(1, 5) {
            match draw(4) {
                0 => s.push_str(&vocab::filler(3000)),
                1 => s.push_str(&pick(&["&", "<", ">", "&#60;", "é"]).repeat(vocab::length(400))),
                _ => s.push_str(&vocab::word()),
            }
        }
        return s;
    }
    let special = pick(&[3usize, 1, 10]);
    let mut s = String::new();
    for _ in 0..n {
        if one_in(special) {
            s.push(pick(&['<', '>', '&']));
        } else {
            s.push(pick(&['a', ' ', '\n', ';', '#', '6', 'é', '‰', '🦀', '"', '\u{0}', '\u{10ffff}', '\'', ']', '\u{a0}']));
        }
    }
    s
}

/// An iterator over escaped text and what must still come out of it.
struct Puller<'a> {
    it: Escape<'a>,
    /// Left of the escape sequence begun.
    begun: String,
    /// Where in the text.
    at: usize,
    amp: bool,
}

impl<'a> Puller<'a> {
    fn left(&self, text: &str) -> String {
        let mut s = self.begun.clone();
        for c in text[self.at..].chars() {
            match c {
                '<' => s.push_str("&#60;"),
                '>' => s.push_str("&#62;"),
                '&' if self.amp => s.push_str("&#38;"),
                c => s.push(c),
            }
        }
        s
    }

    /// Moves on by one item.
    fn step(&mut self, text: &str) -> Option<char> {
        if self.begun.is_empty() {
            let c = text[self.at..].chars().next()?;
            self.at += c.len_utf8();
            self.begun = match c {
                '<' => "&#60;".into(),
                '>' => "&#62;".into(),
                '&' if self.amp => "&#38;".into(),
                c => c.into(),
            };
        }
        let c = self.begun.chars().next()?;
        self.begun.drain(..c.len_utf8());
        Some(c)
    }

    fn copy(&self) -> Puller<'a> {
        Puller {
            it: self.it.clone(),
            begun: self.begun.clone(),
            at: self.at,
            amp: self.amp,
        }
    }
}

fn hint(name: &str, h: (usize, Option<usize>), left: usize, place: &dyn Fn() -> String) -> R {
    ensure!(
        h.0 <= left && h.1.map(|m| m >= left).unwrap_or(true),
        "wrong-bounds",
        "{} announces {:?} items but {} are to come: {}",
        name,
        h,
        left,
        place()
    );
    Ok(())
}

fn escaped() -> R {
    let text = gen_text();
    let text: &str = &text;
    env::case(text);
    let mut pool = vec![Puller {
        it: escape(text),
        begun: String::new(),
        at: 0,
        amp: true,
    }];
    let steps = match draw(4) {
        0 => range(1, 12),
        3 => range(1, 200),
        _ => range(1, 50),
    };
    let switching = one_in(3);
    let copying = !one_in(4);
    let pausing = one_in(2);
    let mut trail: Vec<String> = vec![];
    for _ in 0..steps {
        let k = draw(pool.len());
        callout(Kind::Op);
        env::mark(3000 + k as u64);
        let trail_now = trail.clone();
        let place = move || format!("{:?} after {}", short(text), short(&trail_now.join(", ")));
        let what = draw(13);
        env::mark(what as u64);
        let mut note = String::new();
        let pullers = pool.len();
        let p = &mut pool[k];
        let left = p.left(text);
        let count = left.chars().count();
        let wrong = |got: String, want: String, how: &str| -> R {
            fail!("wrong-item", "{} gives {} instead of {}: {}", how, short(&got), short(&want), place())
        };
        match what {
            0..=3 => {
                let n = match draw(4) {
                    0 => 1,
                    1 => range(1, 3),
                    _ if vocab::wild_number(30) => vocab::length(400),
                    _ => range(1, 9),
                };
                note = format!("#{}: {} pulls", k, n);
                for _ in 0..n {
                    let want = p.step(text);
                    let got = match guarded(|| p.it.next()) {
                        Ok(c) => c,
                        Err(e) => fail!("panic", "{}: {}", e, place()),
                    };
                    if got != want {
                        return wrong(format!("{:?}", got), format!("{:?}", want), "pulling");
                    }
                    let n = p.left(text).chars().count();
                    hint("escaped text", p.it.size_hint(), n, &place)?;
                    if want.is_none() {
                        env::probe("end-reached");
                    }
                }
            }
            4 => {
                let n = match draw(3) {
                    0 => draw(8),
                    1 => draw(count + 2),
                    _ => vocab::length(count + 10),
                };
                note = format!("#{}: nth({})", k, n);
                let mut want = None;
                for _ in 0..=n {
                    want = p.step(text);
                    if want.is_none() {
                        break;
                    }
                }
                let got = p.it.nth(n);
                if got != want {
                    return wrong(format!("{:?}", got), format!("{:?}", want), "nth");
                }
            }
            5 => {
                let n = if one_in(4) { vocab::length(count + 10) } else { draw(20) };
                note = format!("#{}: take({})", k, n);
                env::nontrivial();
                let mut want = String::new();
                for _ in 0..n {
                    want.extend(p.step(text));
                }
                let got: String = p.it.by_ref().take(n).collect();
                if got != want {
                    return wrong(format!("{:?}", got), format!("{:?}", want), "a bulk read");
                }
            }
            6 => {
                // Up to a certain item
                let stop = pick(&[';', '&', 'a', '#', '🦀']);
                note = format!("#{}: find({:?})", k, stop);
                let mut want = None;
                while let Some(c) = p.step(text) {
                    if c == stop {
                        want = Some(c);
                        break;
                    }
                }
                let got = p.it.find(|c| *c == stop);
                if got != want {
                    return wrong(format!("{:?}", got), format!("{:?}", want), "find");
                }
            }
            7 => {
                note = format!("#{}: display", k);
                let got = p.it.to_string();
                if got != left {
                    return wrong(format!("{:?}", got), format!("{:?}", left), "displaying");
                }
                if one_in(2) {
                    // A sink with less room
                    let got = format!("{:.3}|{:>9}|{:<2}", p.it, p.it, p.it);
                    ensure!(got.contains('|'), "wrong-item", "displaying with options gives {:?}: {}", got, place());
                }
            }
            8 if copying && pullers < 5 => {
                fault("copy-midway");
                env::nontrivial();
                let c = pool[k].copy();
                pool.push(c);
                note = format!("#{}: copy", k);
            }
            9 if switching => {
                p.amp = !p.amp;
                note = format!("#{}: ampersands {}", k, p.amp);
                p.it.set_escape_ampersand(p.amp);
            }
            10 => {
                // All that is left, through a copy
                env::nontrivial();
                let c = p.it.clone();
                let how = draw(6);
                note = format!("#{}: rest by way {}", k, how);
                let (got, want) = match how {
                    0 => (format!("{}", c.count()), format!("{}", count)),
                    1 => (format!("{:?}", c.last()), format!("{:?}", left.chars().last())),
                    2 => (c.fold(String::new(), |mut s, c| { s.push(c); s }), left.clone()),
                    3 => {
                        let mut s = String::from("x");
                        s.extend(c);
                        (s, format!("x{}", left))
                    }
                    4 => {
                        let v: Vec<char> = c.collect();
                        (v.iter().collect(), left.clone())
                    }
                    _ => {
                        let n = if one_in(4) { vocab::length(200).max(1) } else { range(1, 4) };
                        (c.step_by(n).collect(), left.chars().step_by(n).collect())
                    }
                };
                if got != want {
                    return wrong(got, want, "reading the rest");
                }
            }
            11 if pullers > 1 => {
                // Somebody gives up
                fault("abandoned-iterator");
                pool.remove(k);
                note = format!("#{}: dropped", k);
            }
            _ => {
                hint("escaped text", p.it.size_hint(), count, &place)?;
                if pausing && pullers < 5 && one_in(3) {
                    // Put aside as an adaptor and taken back
                    let it = p.it.clone();
                    let mut peeked = it.peekable();
                    let want = left.chars().next();
                    if peeked.peek().copied() != want {
                        return wrong(format!("{:?}", peeked.peek()), format!("{:?}", want), "peeking");
                    }
                    hint("peeked escaped text", peeked.size_hint(), count, &place)?;
                    let got: String = peeked.collect();
                    if got != left {
                        return wrong(got, left, "going on after a peek");
                    }
                }
            }
        }
        tr!("{}", note);
        if !note.is_empty() {
            env::case(&note);
            trail.push(note);
        }
    }
    env::sample(|| format!("{:?}: {}", short(text), short(&trail.join(", "))));
    // Everything left comes out, then nothing
    for (k, p) in pool.iter_mut().enumerate() {
        let left = p.left(text);
        let got: String = p.it.by_ref().collect();
        ensure!(got == left, "wrong-item", "#{} ends with {:?} instead of {:?}: {:?} after {}", k, short(&got), short(&left), short(text), short(&trail.join(", ")));
        for _ in 0..3 {
            let x = p.it.next();
            ensure!(x.is_none(), "item-after-end", "{:?} comes after the end: {:?} after {}", x, short(text), short(&trail.join(", ")));
        }
        hint("finished escaped text", p.it.size_hint(), 0, &|| format!("{:?}", short(text)))?;
        ensure!(p.it.to_string().is_empty(), "item-after-end", "a finished iterator displays as {:?}", p.it.to_string());
    }
    Ok(())
}

type E<'a> = nom::error::Error<&'a str>;

/// Pulls the events of one item, against a complete traversal.
fn item_events() -> R {
    let cfg = Cfg::gen();
    let mut knobs = Knobs::gen();
    knobs.items = knobs.items.min(6);
    let doc = Gen::document(&knobs, cfg.clone());
    let hits = if one_in(4) { range(1, 2) } else { 0 };
    let text = damage(&doc.text, &doc.text, hits);
    // A tag with many attributes, now and then
    let text = if one_in(3) {
        let n = if vocab::wild_number(40) { vocab::length(300) } else { size(6, 60) };
        let mut s = if vocab::wild_word(20) { format!("<{}", vocab::any_name(60)) } else { String::from("<t") };
        for i in 0..n {
            s.push_str(&match draw(3) {
                _ if vocab::wild_word(60) => format!(" {}='{}'", vocab::any_name(60), vocab::word().replace('\'', "")),
                0 => format!(" a{}", i),
                1 => format!(" b{}=v", i),
                _ => format!(" c{}='&#38; {}'", i, i),
            });
        }
        s + pick(&[">", "/>", " >", "\n/>"])
    } else {
        text
    };
    let answers: std::collections::HashMap<(bool, String), String> = doc.calls.iter().map(|c| ((c.param, c.name.clone()), c.answer.clone())).collect();
    let (a1, a2) = (answers.clone(), answers);
    let mut b = cfg.builder();
    if cfg.ents {
        b = b.expand_entities(move |n: &str| a1.get(&(false, n.to_string())).cloned().or(Some("E".into())));
    }
    if cfg.pents {
        b = b.expand_parameter_entities(move |n: &str| a2.get(&(true, n.to_string())).cloned().or(Some("CDATA".into())));
    }
    let config = b.into_config();
    let kind = draw(4);
    // Starts at a tag, section or instruction if there is one
    let starts: Vec<usize> = text
        .match_indices(match kind {
            0 => "<",
            1 => "<![",
            2 => "<?",
            _ => "",
        })
        .map(|(i, _)| i)
        .collect();
    let from = if starts.is_empty() { 0 } else { pick(&starts) };
    let input = &text[from..];
    env::case(input);
    env::case(&format!("{:?}", cfg));
    let open = || -> Result<Option<(usize, EventIter)>, String> {
        guarded(|| {
            let r = match kind {
                0 => start_tag::<E>(input, &config),
                1 => marked_section_declaration::<E>(input, &config),
                2 => processing_instruction::<E>(input, &config),
                _ => content_item::<E>(input, &config, sgmlish::parser::raw::MarkedSectionEndHandling::TreatAsText),
            };
            r.ok().map(|(rest, it)| (rest.len(), it))
        })
    };
    let place = || format!("{:?} with {:?} (way {})", short(input), cfg, kind);
    let all: Vec<SgmlEvent> = match open() {
        Err(p) => fail!("panic", "{} when reading {}", p, place()),
        Ok(None) => return Ok(()),
        Ok(Some((_, it))) => it.collect(),
    };
    env::sample(|| format!("{} events of {}", all.len(), place()));
    env::observe(&format!("{:?}", all));
    // Start tags come complete; the other items agree with a parse of their own where that is possible
    let mut pool: Vec<(EventIter, usize)> = vec![];
    for _ in 0..range(1, 3) {
        if let Ok(Some((_, it))) = open() {
            pool.push((it, 0));
        }
    }
    let steps = all.len() * 2 + 4;
    for _ in 0..steps {
        if pool.is_empty() {
            break;
        }
        let k = draw(pool.len());
        callout(Kind::Op);
        let (it, at) = &mut pool[k];
        let left = all.len() - *at;
        ensure!(it.len() == left, "wrong-bounds", "{} events announced but {} are to come: {}", it.len(), left, place());
        hint("an item", it.size_hint(), left, &place)?;
        ensure!(it.size_hint() == (left, Some(left)), "wrong-bounds", "{:?} announced but {} are to come: {}", it.size_hint(), left, place());
        let how = draw(6);
        env::case(&format!("{}{}", k, how));
        let (got, want) = match how {
            0..=2 => {
                let want = all.get(*at).cloned();
                *at = (*at + 1).min(all.len());
                (format!("{:?}", it.next()), format!("{:?}", want))
            }
            3 => {
                env::nontrivial();
                let n = if one_in(4) { draw(left + 2) } else { draw(4) };
                let want = all.get(*at + n).cloned();
                *at = (*at + n + 1).min(all.len());
                (format!("{:?}", it.nth(n)), format!("{:?}", want))
            }
            4 => {
                env::nontrivial();
                let n = if one_in(4) { draw(left + 2) } else { draw(5) };
                let to = (*at + n).min(all.len());
                let want = all[*at..to].to_vec();
                *at = to;
                let got: Vec<_> = it.by_ref().take(n).collect();
                (format!("{:?}", got), format!("{:?}", want))
            }
            _ => {
                // Showing it must not consume it
                let s = format!("{:?}", it);
                ensure!(it.len() == left, "wrong-bounds", "showing the iterator changed its length from {} to {}: {}", left, it.len(), place());
                ensure!(s.starts_with("EventIter("), "wrong-item", "the iterator shows as {:?}", short(&s));
                let want = format!("EventIter({:?})", &all[*at..]);
                (s, want)
            }
        };
        ensure!(got == want, "wrong-item", "way {} gives {} instead of {}: {}", how, short(&got), short(&want), place());
    }
    for (mut it, at) in pool {
        // The rest, by one way or another
        let rest = &all[at..];
        let how = draw(9);
        env::case(&format!("r{}", how));
        if how < 6 {
            let place = || format!("{} (rest by way {})", place(), how);
            let (got, want) = match how {
                0 => (format!("{}", it.count()), format!("{}", rest.len())),
                1 => (format!("{:?}", it.last()), format!("{:?}", rest.last())),
                2 => {
                    let got = it.fold(vec![], |mut v, e| {
                        v.push(e);
                        v
                    });
                    (format!("{:?}", got), format!("{:?}", rest))
                }
                3 => {
                    let mut v = vec![];
                    it.for_each(|e| v.push(e));
                    (format!("{:?}", v), format!("{:?}", rest))
                }
                4 => {
                    let n = range(1, 4);
                    (format!("{:?}", it.step_by(n).collect::<Vec<_>>()), format!("{:?}", rest.iter().step_by(n).collect::<Vec<_>>()))
                }
                _ => {
                    let n = if one_in(4) { draw(rest.len() + 2) } else { draw(4) };
                    (format!("{:?}", it.skip(n).collect::<Vec<_>>()), format!("{:?}", rest.iter().skip(n).collect::<Vec<_>>()))
                }
            };
            ensure!(got == want, "wrong-item", "the rest is {} instead of {}: {}", short(&got), short(&want), place());
            continue;
        }
        let got: Vec<_> = it.by_ref().collect();
        ensure!(got == all[at..], "wrong-item", "the rest is {} instead of {}: {}", show_events(&got), show_events(&all[at..]), place());
        for _ in 0..3 {
            ensure!(it.next().is_none() && it.len() == 0, "item-after-end", "something comes after the end: {}", place());
        }
    }
    Ok(())
}

/// Pulls a whole document, against the fragment.
fn whole_document() -> R {
    let cfg = Cfg::gen();
    let mut knobs = Knobs::gen();
    knobs.items = knobs.items.min(10);
    let doc = Gen::document(&knobs, cfg);
    let r = SimResolver::for_calls(&doc.calls);
    let p = parser_with(&doc.cfg, &r);
    let text: &str = &doc.text;
    env::case(text);
    let place = || doc.show();
    let f = match guarded(|| p.parse(text)) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => fail!("rejected", "{} for {}", e, place()),
        Err(e) => fail!("panic", "{} when parsing {}", e, place()),
    };
    r.reset(doc.calls.iter().map(|c| Some(c.answer.clone())).collect());
    // The configuration of this parser is only reachable through a builder: build it again
    let config = builder_with(&doc.cfg, &r).into_config();
    let mut it = match guarded(|| document_entity::<E>(text, &config)) {
        Ok(Ok((_, it))) => it,
        Ok(Err(e)) => fail!("rejected", "{:?} for {}", e, place()),
        Err(e) => fail!("panic", "{} when parsing {}", e, place()),
    };
    let mut at = 0;
    while at < f.len() {
        callout(Kind::Op);
        hint("a document", it.size_hint(), f.len() - at, &place)?;
        let n = if one_in(3) { range(0, 5) } else { 1 };
        env::case(&format!("{}", n));
        let to = (at + n).min(f.len());
        let got: Vec<_> = if n == 1 { it.next().into_iter().collect() } else { it.by_ref().take(n).collect() };
        if n > 1 {
            env::nontrivial();
        }
        ensure!(got == f.as_slice()[at..to], "wrong-item", "{} comes instead of {}: {}", show_events(&got), show_events(&f.as_slice()[at..to]), place());
        at = to;
    }
    hint("a finished document", it.size_hint(), 0, &place)?;
    ensure!(it.next().is_none(), "item-after-end", "something comes after the end: {}", place());
    // The fragment's own iterators
    let n = f.len();
    ensure!(f.iter().len() == n && f.iter().rev().count() == n && f.clone().into_iter().len() == n, "wrong-bounds", "the fragment's length differs: {}", place());
    let k = draw(n + 1);
    let mut owned = f.clone().into_iter();
    let head: Vec<_> = owned.by_ref().take(k).collect();
    let tail: Vec<_> = owned.rev().collect::<Vec<_>>().into_iter().rev().collect();
    ensure!(head == f.as_slice()[..k] && tail == f.as_slice()[k..], "wrong-item", "the fragment comes apart differently: {}", place());
    ensure!(f.clone().into_owned() == f && f.clone().into_vec() == f.as_slice(), "wrong-item", "detaching changes the fragment: {}", place());
    Ok(())
}
