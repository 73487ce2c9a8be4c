//! C02: a refused reference fails the operation at once; nothing is lost silently.

use std::cell::RefCell;

use sgmlish::parser::ContextualizedError;

use crate::doc::*;
use crate::env::{self, draw, one_in, range, R};
use crate::props::Property;
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C02",
    run,
    quick: 2_400_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "a case is a document, a configuration and a resolver that refuses its k-th call (or no resolver), followed by further documents on the same parser; non-trivial if a refusal fired; distinct by document, configuration and refused call",
    real: "parser, entity expansion, marked sections, error description, nom",
    stub: "entity resolvers (simulated remote party that becomes unavailable at a drawn call)",
};

pub fn line_of(text: &str, offset: usize) -> usize {
    text[..offset].matches('\n').count() + 1
}

fn run() -> R {
    if one_in(5) {
        return direct();
    }
    let mut cfg = Cfg::gen();
    cfg.ents = true;
    let mut knobs = Knobs::gen();
    if knobs.ref_weight == 0 {
        knobs.ref_weight = 4;
    }
    let no_resolver = one_in(6);
    let doc = Gen::document(&knobs, cfg.clone());
    let mut cfg_used = cfg.clone();
    if no_resolver {
        cfg_used.ents = false;
        cfg_used.pents = false;
    }
    let resolver = SimResolver::new(vec![]);
    let parser = parser_with(&cfg_used, &resolver);
    env::case(&doc.text);
    env::case(&format!("{:?}", cfg_used));

    if doc.calls.is_empty() {
        // Nothing to refuse: must succeed
        let result = parser.parse(&doc.text);
        return match result {
            Ok(f) => match diff_events(&doc.events, f.as_slice()) {
                None => Ok(()),
                Some(d) => fail!("wrong-events", "{} for {}", d, doc.show()),
            },
            Err(e) => fail!("valid-document-rejected", "{} for {}", e, doc.show()),
        };
    }
    env::nontrivial();

    let rounds = if one_in(150) { range(10, 70) } else { range(1, 3) };
    if rounds > 3 {
        env::fault("many-refusals");
    }
    let recovers = rounds <= 3;
    for round in 0..rounds {
        let k = if no_resolver { 0 } else { draw(doc.calls.len()) };
        let refused = &doc.calls[k];
        let mut answers: Vec<Option<String>> = doc.calls.iter().map(|c| Some(c.answer.clone())).collect();
        answers[k] = None;
        resolver.reset(answers);
        env::case(&format!("{}", k));
        env::sample(|| format!("refuse call {} ({}) of {}", k, refused.name, doc.show()));
        crate::tr!("round {}: refusing call {} ({:?} at offset {}) in {:?}", round, k, refused.name, refused.offset, doc.text);
        env::fault(if no_resolver {
            "no-resolver"
        } else if refused.param {
            "refuse-parameter-reference"
        } else {
            "refuse-reference"
        });
        let line = line_of(&doc.text, refused.offset);
        match draw(3) {
            0 => match parser.parse(&doc.text) {
                Ok(f) => fail!(
                    "refusal-lost",
                    "parse succeeded although {:?} was refused, with {} for {}",
                    refused.name,
                    show_events(f.as_slice()),
                    doc.show()
                ),
                Err(e) => {
                    let s = e.to_string();
                    env::observe(&s);
                    ensure!(
                        s.contains(&format!("'{}'", refused.name)),
                        "refusal-not-named",
                        "{:?} was refused but the error says {:?} for {}",
                        refused.name,
                        s,
                        doc.show()
                    );
                    ensure!(
                        names_line(&s, line),
                        "refusal-not-located",
                        "{:?} on line {} was refused but the error says {:?} for {}",
                        refused.name,
                        line,
                        s,
                        doc.show()
                    );
                }
            },
            1 => match parser.parse_with_detailed_errors::<ContextualizedError<&str>>(&doc.text) {
                Ok(f) => fail!("refusal-lost", "parse succeeded although {:?} was refused, with {} for {}", refused.name, show_events(f.as_slice()), doc.show()),
                Err(e) => {
                    let offset = (e.input.as_ptr() as usize).wrapping_sub(doc.text.as_ptr() as usize);
                    ensure!(
                        offset == refused.offset,
                        "refusal-not-located",
                        "{:?} at offset {} was refused but the error points at offset {} for {}",
                        refused.name,
                        refused.offset,
                        offset as isize,
                        doc.show()
                    );
                    match &e.error {
                        Some(sgmlish::Error::EntityError(e)) if e.entity == refused.name => {}
                        other => fail!("refusal-not-named", "{:?} was refused but the error carries {:?} for {}", refused.name, other, doc.show()),
                    }
                }
            },
            _ => match parser.parse_with_detailed_errors::<()>(&doc.text) {
                Ok(f) => fail!("refusal-lost", "parse succeeded although {:?} was refused, with {} for {}", refused.name, show_events(f.as_slice()), doc.show()),
                Err(()) => {}
            },
        }
        let expected: Vec<(bool, String)> = if no_resolver {
            vec![]
        } else {
            expected_history(&doc.calls[..=k])
        };
        let got = resolver.calls();
        ensure!(
            got == expected,
            "calls-after-refusal",
            "after refusing call {} the resolver history is {:?} instead of {:?} for {}",
            k,
            got,
            expected,
            doc.show()
        );

        // Recovery: the same parser, with the resolver available again
        if !no_resolver && (recovers || round + 1 == rounds || one_in(20)) {
            let other;
            let next = if one_in(3) {
                other = Gen::document(&knobs, cfg.clone());
                &other
            } else {
                &doc
            };
            env::probe("recovery-after-refusal");
            resolver.reset(next.calls.iter().map(|c| Some(c.answer.clone())).collect());
            let result = parser.parse(&next.text);
            ensure!(
                resolver.calls() == expected_history(&next.calls),
                "recovery",
                "after a refusal, the resolver history is {:?} for {}",
                resolver.calls(),
                next.show()
            );
            match result {
                Err(e) => fail!("recovery", "after a refusal, parsing {} fails: {}", next.show(), e),
                Ok(f) => {
                    if let Some(d) = diff_events(&next.events, f.as_slice()) {
                        fail!("recovery", "after a refusal: {} for {}", d, next.show());
                    }
                }
            }
        }
    }
    Ok(())
}

/// Does the description point at this line (as the first location it gives)?
fn names_line(s: &str, line: usize) -> bool {
    match s.find("line ") {
        None => false,
        Some(i) => {
            let digits: String = s[i + 5..].chars().take_while(|c| c.is_ascii_digit()).collect();
            digits == line.to_string()
        }
    }
}

fn direct() -> R {
    let param = one_in(3);
    let prefix = if param { '%' } else { '&' };
    let n = range(1, 8);
    let mut text = String::new();
    let mut refs: Vec<(String, std::ops::Range<usize>)> = vec![];
    for _ in 0..n {
        for _ in 0..range(0, 2) {
            text.push_str(env::pick(&["x ", "é ", "\n", "日本 ", "; "]));
        }
        if !param && one_in(4) {
            text.push_str("&#65;");
        }
        let name = if param {
            env::pick(&["p", "HTML.Reserved", "ü"])
        } else {
            env::pick(&["amp", "e1", "ü", "#SPACE", "#x110000", "#99999999999"])
        };
        let start = text.len();
        text.push(prefix);
        text.push_str(name);
        if one_in(3) {
            refs.push((name.to_string(), start..text.len()));
            text.push(' ');
        } else {
            text.push(';');
            refs.push((name.to_string(), start..text.len()));
        }
    }
    let k = draw(n);
    env::case(&text);
    env::case(&format!("{}", k));
    env::nontrivial();
    env::fault("refuse-in-expansion");
    let history: RefCell<Vec<String>> = RefCell::new(vec![]);
    let ask = |name: &str| -> Option<&'static str> {
        let i = history.borrow().len();
        history.borrow_mut().push(name.to_string());
        crate::world::callout(crate::world::Kind::Resolver);
        if i == k {
            None
        } else {
            Some("ok")
        }
    };
    let chars_only = !param && k == 0 && one_in(2);
    let result = if chars_only {
        history.borrow_mut().push(refs[0].0.clone());
        sgmlish::entities::expand_characters(&text)
    } else if param {
        sgmlish::entities::expand_parameter_entities(&text, ask)
    } else {
        sgmlish::entities::expand_entities(&text, ask)
    };
    let expected: Vec<String> = refs[..=k].iter().map(|r| r.0.clone()).collect();
    ensure!(
        *history.borrow() == expected,
        "calls-after-refusal",
        "refusing call {} of {:?}: asked {:?} instead of {:?}",
        k,
        text,
        history.borrow(),
        expected
    );
    match result {
        Ok(s) => fail!("refusal-lost", "{:?} expanded to {:?} although {:?} was refused", text, s, refs[k]),
        Err(e) => {
            env::observe(&format!("{:?}", e));
            ensure!(
                e.entity == refs[k].0 && e.to_string().contains(&refs[k].0),
                "refusal-not-named",
                "{:?}: {:?} was refused but the error is {:?}",
                text,
                refs[k],
                e
            );
            ensure!(
                e.position == refs[k].1,
                "refusal-not-located",
                "{:?}: {:?} was refused but the error is {:?}",
                text,
                refs[k],
                e
            );
        }
    }
    Ok(())
}
