//! C07: a document cut short is rejected or yields an exact prefix, never other data.

use sgmlish::SgmlEvent;
use std::borrow::Cow;

use crate::doc::*;
use crate::env::{self, draw, fault, one_in, pick, range, short, R};
use crate::props::Property;
use crate::world::guarded;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C07",
    run,
    quick: 1_000_000,
    thorough: 10_000_000,
    level: "fault_enumeration",
    rule: "a case is a generated document (1 to 45 top-level constructs, nested included sections), a parser configuration and a cut point of its transfer (every cut point in turn for documents of up to 150 bytes in one run of six; otherwise drawn points, biased to the edges of constructs and references); non-trivial if the cut falls strictly inside; distinct by document and cut",
    real: "the parser, entity expansion, error descriptions",
    stub: "the transport that tears the document, the resolvers",
};

enum Expect {
    Fail(&'static str),
    /// Exactly these events.
    Exactly(Vec<Ev>),
    /// A failure, or exactly these events.
    FailOr(Vec<Ev>),
    /// A failure, or these events followed by one run of text that starts like this.
    Lenient(Vec<Ev>, String),
}

fn run() -> R {
    let mut knobs = Knobs::gen();
    if knobs.items > 20 && !one_in(5) {
        knobs.items = 8;
    }
    let cfg = Cfg::gen();
    let doc = Gen::document(&knobs, cfg);
    env::case(&doc.text);
    env::case(&format!("{:?}", doc.cfg));
    env::sample(|| doc.show());
    let r = SimResolver::new(vec![]);
    let parser = parser_with(&doc.cfg, &r);
    let n = doc.text.len();
    let every = n <= 150 && one_in(6);
    let rounds = if every { n + 1 } else { range(1, 4) };
    for k in 0..rounds {
        let mut p = if every {
            k
        } else {
            match draw(3) {
                0 => draw(n + 1),
                1 => {
                    let s = pick(&doc.spans);
                    let e = if one_in(2) { s.start } else { s.end };
                    (e + range(0, 6)).saturating_sub(3).min(n)
                }
                _ => {
                    if doc.calls.is_empty() {
                        draw(n + 1)
                    } else {
                        let c = pick(&doc.calls);
                        (c.offset + range(0, c.name.len() + 3)).min(n)
                    }
                }
            }
        };
        if !doc.text.is_char_boundary(p) {
            if every {
                continue;
            }
            // The rest of a torn character is dropped by the receiver
            fault("torn-character");
            while !doc.text.is_char_boundary(p) {
                p -= 1;
            }
        }
        cut(&doc, &parser, &r, p)?;
    }
    // Delivered completely in the end
    r.reset(doc.calls.iter().map(|c| Some(c.answer.clone())).collect());
    match parser.parse(&doc.text) {
        Ok(f) => {
            if let Some(d) = diff_events(&doc.events, f.as_slice()) {
                fail!("redelivery-differs", "after torn deliveries the complete document reads differently: {} in {}", d, doc.show());
            }
        }
        Err(e) => fail!("redelivery-fails", "after torn deliveries the complete document fails: {} in {}", e, doc.show()),
    }
    Ok(())
}

/// Length of the first characters of a construct that on their own are text.
fn delimiter(kind: SpanKind, text: &str) -> usize {
    match kind {
        SpanKind::Start | SpanKind::Pi => 1,
        SpanKind::End | SpanKind::Comment | SpanKind::Md | SpanKind::Section => 2,
        SpanKind::Text | SpanKind::Blank => 0,
    }
    .min(text.len())
}

/// The run of text that the given pieces, cut after `len` bytes, read as; `None` if the cut falls
/// inside a reference, with what comes before it.
fn cut_text(doc: &Doc, pieces: &[Piece], len: usize, extra: &str) -> (Vec<Piece>, bool) {
    let mut left = len;
    let mut out = vec![];
    for p in pieces {
        let raw = p.raw();
        if left == 0 {
            break;
        }
        if raw.len() <= left {
            left -= raw.len();
            out.push(p.clone());
            continue;
        }
        match p {
            Piece::Lit(s) => {
                out.push(Piece::Lit(s[..left].to_string()));
                left = 0;
            }
            _ => return (out, true),
        }
    }
    if !extra.is_empty() {
        out.push(Piece::Lit(extra.to_string()));
    }
    let _ = doc;
    (out, false)
}

fn with_text(doc: &Doc, mut events: Vec<Ev>, pieces: &[Piece]) -> Vec<Ev> {
    let kept = if doc.cfg.trim { trim_pieces(pieces) } else { pieces.to_vec() };
    if !raw_of(&kept).is_empty() {
        events.push(SgmlEvent::Character(Cow::Owned(expand_pieces(&kept, &doc.calls))));
    }
    events
}

fn expect(doc: &Doc, p: usize) -> (Expect, &'static str) {
    // The construct in which the cut falls (or that is the last one completely there)
    let i = match doc.spans.iter().position(|s| s.start < p && p <= s.end) {
        Some(i) => i,
        None => return (Expect::Fail("nothing arrived"), "empty"),
    };
    let s = &doc.spans[i];
    let before = doc.events[..s.ev0].to_vec();
    if s.kind == SpanKind::Text {
        let (pieces, torn) = cut_text(doc, &s.pieces, p - s.start, "");
        if torn {
            let kept = if doc.cfg.trim { trim_start(&pieces) } else { pieces };
            return (Expect::Lenient(before, expand_pieces(&kept, &doc.calls)), "in-reference");
        }
        return (Expect::Exactly(with_text(doc, before, &pieces)), "in-text");
    }
    if p == s.end {
        if s.prolog {
            return (Expect::Fail("the content is missing"), "between-prolog");
        }
        return (Expect::Exactly(doc.events[..s.ev1].to_vec()), "between");
    }
    if s.kind == SpanKind::Blank {
        return (Expect::Fail("the content is missing"), "between-prolog");
    }
    let d = delimiter(s.kind, &doc.text[s.start..s.end]);
    if p - s.start > d {
        return (
            Expect::Fail("a construct is incomplete"),
            match s.kind {
                SpanKind::Start => "in-start-tag",
                SpanKind::End => "in-end-tag",
                SpanKind::Comment => "in-comment",
                SpanKind::Pi => "in-processing-instruction",
                SpanKind::Md => "in-declaration",
                _ => "in-section",
            },
        );
    }
    let extra = &doc.text[s.start..p];
    // It continues the run of text just before, if there is one
    let events = match i.checked_sub(1).map(|j| &doc.spans[j]) {
        Some(t) if t.kind == SpanKind::Text => {
            let (pieces, _) = cut_text(doc, &t.pieces, t.end - t.start, extra);
            with_text(doc, doc.events[..t.ev0].to_vec(), &pieces)
        }
        _ => with_text(doc, before, &[Piece::Lit(extra.to_string())]),
    };
    (Expect::FailOr(events), "in-delimiter")
}

fn trim_start(pieces: &[Piece]) -> Vec<Piece> {
    let mut v = pieces.to_vec();
    v.push(Piece::Char { raw: "&#46;".into(), c: '.' });
    let mut v = trim_pieces(&v);
    v.pop();
    v
}

/// A construct that is cut is refused also where only that construct is asked for.
fn alone(doc: &Doc, r: &std::rc::Rc<SimResolver>, p: usize) -> R {
    use nom::error::Error;
    use sgmlish::parser::{events, raw};
    let s = match doc.spans.iter().find(|s| s.start < p && p < s.end) {
        Some(s) => s,
        None => return Ok(()),
    };
    let text = &doc.text[s.start..p];
    let before = r.calls();
    r.reset(doc.calls.iter().filter(|c| c.offset >= s.start).map(|c| Some(c.answer.clone())).collect());
    let config = builder_with(&doc.cfg, r).into_config();
    let accepted = guarded(|| match s.kind {
        SpanKind::Start => events::start_tag::<Error<&str>>(text, &config).map(|(rest, _)| rest.len()).ok(),
        SpanKind::End => raw::end_tag::<Error<&str>>(text).map(|(rest, _)| rest.len()).ok(),
        SpanKind::Comment => raw::comment_declaration::<Error<&str>>(text).map(|(rest, _)| rest.len()).ok(),
        SpanKind::Pi => events::processing_instruction::<Error<&str>>(text, &config).map(|(rest, _)| rest.len()).ok(),
        SpanKind::Md => events::markup_declaration::<Error<&str>>(text, &config).map(|(rest, _)| rest.len()).ok(),
        SpanKind::Section => events::marked_section_declaration::<Error<&str>>(text, &config).map(|(rest, _)| rest.len()).ok(),
        _ => None,
    });
    *r.history.borrow_mut() = before;
    match accepted {
        Err(panic) => fail!("panic", "{}: {:?} of {}", panic, short(text), doc.show()),
        Ok(Some(rest)) => fail!("incomplete-accepted", "{:?}, cut at {}, is taken for complete on its own with {} bytes after it: {}", s.kind, p, rest, doc.show()),
        Ok(None) => Ok(()),
    }
}

fn cut(doc: &Doc, parser: &sgmlish::Parser, r: &std::rc::Rc<SimResolver>, p: usize) -> R {
    let text = &doc.text[..p];
    fault("transfer-cut");
    env::case(&p.to_string());
    if p > 0 && p < doc.text.len() {
        env::nontrivial();
    }
    r.reset(doc.calls.iter().map(|c| Some(c.answer.clone())).collect());
    let (expect, place) = expect(doc, p);
    env::probe(place);
    let show = || format!("cut at {} of {}", p, doc.show());
    let result = match guarded(|| parser.parse(text)) {
        Ok(r) => r,
        Err(panic) => fail!("panic", "{}: {}", panic, show()),
    };
    env::observe(&format!("{:?}", result));
    alone(doc, r, p)?;
    // Each reference that arrived was asked for at most once and in order; nothing else was
    let calls = r.calls();
    let history = expected_history(&doc.calls);
    let arrived = doc.calls.iter().filter(|c| c.offset < p).count();
    for (k, c) in calls.iter().enumerate() {
        let torn = k + 1 == calls.len() && k < arrived && k + 1 == arrived && c.0 == history[k].0 && history[k].1.starts_with(&c.1);
        let torn_unlisted = k + 1 == calls.len() && k >= arrived;
        ensure!(
            torn || torn_unlisted || (k < arrived && *c == history[k]),
            "resolver-asked-wrongly",
            "resolver calls {:?} for references {:?}: {}",
            calls,
            &history[..arrived],
            show()
        );
    }
    match (&expect, &result) {
        (Expect::Fail(_), Err(_)) | (Expect::FailOr(_), Err(_)) | (Expect::Lenient(..), Err(_)) => Ok(()),
        (Expect::Fail(why), Ok(f)) => fail!("incomplete-accepted", "{}, but the parser returns {}: {}", why, show_events(f.as_slice()), show()),
        (Expect::Exactly(_), Err(e)) => fail!("complete-part-rejected", "everything that arrived is complete, but the parser fails: {}: {}", e, show()),
        (Expect::Exactly(want), Ok(f)) | (Expect::FailOr(want), Ok(f)) => {
            if let Some(d) = diff_events(want, f.as_slice()) {
                fail!("not-a-prefix", "{}: {}", d, show());
            }
            if let Expect::Exactly(_) = expect {
                ensure!(calls.len() == arrived, "resolver-not-asked", "{} references arrived, resolver calls {:?}: {}", arrived, calls, show());
            }
            Ok(())
        }
        (Expect::Lenient(events, start), Ok(f)) => {
            let got = f.as_slice();
            let n = events.len();
            ensure!(got.len() == n + 1 && got[..n] == events[..], "not-a-prefix", "expected {} and a last run of text, got {}: {}", show_events(events), show_events(got), show());
            match &got[n] {
                SgmlEvent::Character(s) if s.starts_with(start.as_str()) => Ok(()),
                e => fail!("not-a-prefix", "the last run of text should start with {:?}, but is {:?}: {}", short(start), e, show()),
            }
        }
    }
}
