//! C01: resolvers are asked exactly once per reference, in document order; answers are data.

use std::borrow::Cow;
use std::cell::RefCell;

use crate::doc::*;
use crate::env::{self, draw, one_in, pick, range, R};
use crate::vocab;
use crate::props::Property;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C01",
    run,
    quick: 2_400_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "a case is a generated document and parser configuration with a resolver whose answers drift per call (or a text given to an expansion function), several in a row for one parser; it is non-trivial if at least one resolver call was made; distinct by document, configuration and answers",
    real: "parser, entity expansion, marked sections, events (all of sgmlish on this path), nom",
    stub: "entity resolvers (simulated remote party with a scripted answer history)",
};

fn run() -> R {
    if one_in(4) {
        return direct();
    }
    let cfg = Cfg::gen();
    let knobs = Knobs::gen();
    let n = if one_in(3) { range(2, 3) } else { 1 };
    let docs: Vec<Doc> = (0..n).map(|_| Gen::document(&knobs, cfg.clone())).collect();
    let resolver = SimResolver::new(vec![]);
    let parser = parser_with(&cfg, &resolver);
    for (i, doc) in docs.iter().enumerate() {
        env::case(&doc.text);
        env::case(&format!("{:?}{:?}", doc.cfg, doc.calls));
        if !doc.calls.is_empty() {
            env::nontrivial();
            env::fault("answer-drift");
            if doc.calls.iter().any(|c| c.param) {
                env::probe("parameter-reference");
            }
            if knobs.hostile {
                env::fault("hostile-answer");
            }
        }
        env::sample(|| format!("{} calls={:?}", doc.show(), doc.calls.iter().map(|c| (&c.name, &c.answer)).collect::<Vec<_>>()));
        crate::tr!("document {}: {:?}", i, doc.text);
        let mut answers: Vec<Option<String>> = doc.calls.iter().map(|c| Some(c.answer.clone())).collect();
        if !doc.calls.is_empty() && one_in(12) {
            // One reference is refused, or a keyword answered with what is none
            let at = draw(doc.calls.len());
            let hostile = doc.calls[at].param && one_in(2);
            answers[at] = hostile.then(|| pick(&["%x;", "%", "%p1;%p2;", "&amp;", "bogus", "[", "<![", "\"", "é", "CDATA!", "%#p", "%TEMP;"]).to_string());
            env::fault(if hostile { "hostile-keyword" } else { "refused" });
            resolver.reset(answers);
            let result = parser.parse(&doc.text);
            let got = resolver.calls();
            let all = expected_history(&doc.calls);
            // The keywords of one section are put together before they are looked at
            let more = all[at + 1..].iter().take_while(|c| hostile && c.0).count();
            ensure!(
                got.len() > at && got.len() <= at + 1 + more && got[..] == all[..got.len()],
                "wrong-call-history",
                "resolver history up to failing call {} differs: expected {:?}, got {:?} for {}",
                at,
                &all[..at + 1],
                got,
                doc.show()
            );
            ensure!(result.is_err(), "answer-taken-for-more", "accepted though call {} was answered {:?}: {}", at, resolver.answer(at), doc.show());
            continue;
        }
        resolver.reset(answers);
        let result = parser.parse(&doc.text);
        let expected = expected_history(&doc.calls);
        let got = resolver.calls();
        ensure!(
            got == expected,
            "wrong-call-history",
            "resolver history differs: expected {:?}, got {:?} for {}",
            expected,
            got,
            doc.show()
        );
        match result {
            Err(e) => fail!("valid-document-rejected", "{}: {}", e, doc.show()),
            Ok(fragment) => {
                env::observe(&format!("{:?}", fragment));
                if let Some(d) = diff_events(&doc.events, fragment.as_slice()) {
                    fail!("wrong-events", "{} for {}", d, doc.show());
                }
            }
        }
    }
    Ok(())
}

/// The expansion functions by themselves.
fn direct() -> R {
    let param = one_in(3);
    let prefix = if param { '%' } else { '&' };
    let mut text = String::new();
    let mut expected = String::new();
    let mut names: Vec<String> = vec![];
    let mut answers: Vec<String> = vec![];
    let n = if one_in(10) { range(1, 60) } else { range(1, 8) };
    let mut glue = false;
    for i in 0..n {
        match draw(6) {
            0 | 1 => {
                let lit = env::pick(&["x", " ", "é", "12", "\n", "日本", "-", ";", "#", "%", "&", "𝄞", "'", "<b>"]);
                let lit = if lit.starts_with(prefix) { "q".to_string() } else { lit.to_string() };
                let lit = if vocab::wild(60) {
                    // A prefix would begin a reference
                    let w = if one_in(4) { vocab::filler(3000) } else { vocab::word() };
                    w.replace(prefix, "q")
                } else {
                    lit
                };
                let lit = lit.as_str();
                if glue {
                    text.push(' ');
                    expected.push(' ');
                }
                text.push_str(lit);
                expected.push_str(lit);
                glue = false;
            }
            2 if !param => {
                let c = env::pick(&['A', '<', '&', 'é', '\u{10FFFF}', '\0', ' ']);
                let raw = match draw(2) {
                    0 => format!("&#{};", c as u32),
                    _ => format!("&#x{:x};", c as u32),
                };
                text.push_str(&raw);
                expected.push(c);
                glue = false;
            }
            3 => {
                // A prefix that begins no reference
                if glue {
                    text.push(' ');
                    expected.push(' ');
                }
                let lit = match draw(4) {
                    0 => format!("{} ", prefix),
                    1 => format!("{};", prefix),
                    2 => format!("{}1", prefix),
                    _ => format!("{}{}-", prefix, prefix),
                };
                text.push_str(&lit);
                expected.push_str(&lit);
                glue = false;
            }
            _ => {
                let name = if param {
                    env::pick(&["p", "HTML.Reserved", "ü", "a-b", "n1", "#p"]).to_string()
                } else {
                    env::pick(&["amp", "e1", "ü", "a-b", "#SPACE", "#x110000", "#99999999999", "#xZ", "n.1"]).to_string()
                };
                let name = if vocab::wild(60) { vocab::any_name(200) } else { name };
                let answer = match draw(8) {
                    _ if vocab::wild(60) => vocab::word(),
                    0 | 1 => format!("«{}»", i),
                    2 => format!("&a{};", i),
                    3 => format!("%a{};", i),
                    4 => String::new(),
                    5 => "&#65;".to_string(),
                    6 => format!("  {} ", i),
                    _ => format!("<{}>", i),
                };
                text.push(prefix);
                text.push_str(&name);
                if one_in(4) {
                    glue = true;
                } else {
                    text.push(';');
                    glue = false;
                }
                expected.push_str(&answer);
                names.push(name);
                answers.push(answer);
            }
        }
    }
    env::case(&text);
    env::case(&format!("{:?}", answers));
    if !names.is_empty() {
        env::nontrivial();
        env::fault("answer-drift");
    }
    env::probe("direct-expansion");
    let history: RefCell<Vec<String>> = RefCell::new(vec![]);
    let ask = |name: &str| -> Option<String> {
        let i = history.borrow().len();
        history.borrow_mut().push(name.to_string());
        crate::world::callout(crate::world::Kind::Resolver);
        Some(answers.get(i).cloned().unwrap_or_else(|| "§extra§".into()))
    };
    let result: Result<Cow<str>, _> = if param {
        sgmlish::entities::expand_parameter_entities(&text, ask)
    } else {
        sgmlish::entities::expand_entities(&text, ask)
    };
    ensure!(
        *history.borrow() == names,
        "wrong-call-history",
        "expansion asked {:?} instead of {:?} for {:?}",
        history.borrow(),
        names,
        text
    );
    match result {
        Err(e) => fail!("valid-text-rejected", "{} for {:?}", e, text),
        Ok(s) => {
            env::observe(&s);
            ensure!(
                s == expected,
                "wrong-expansion",
                "{:?} expanded to {:?} instead of {:?}",
                text,
                s,
                expected
            )
        }
    }
    if !param && names.is_empty() {
        // Character references need no resolver
        let s = sgmlish::entities::expand_characters(&text);
        ensure!(
            s.as_deref() == Ok(expected.as_str()),
            "wrong-expansion",
            "expand_characters of {:?} gave {:?} instead of {:?}",
            text,
            s,
            expected
        );
    }
    Ok(())
}
