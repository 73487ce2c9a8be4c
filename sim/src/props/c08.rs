//! C08: damaged documents are handled safely and fully accounted for.

use std::collections::HashMap;
use std::rc::Rc;

use sgmlish::parser::{ContextualizedError, NameNormalization};
use sgmlish::transforms::normalize_end_tags;
use sgmlish::{Parser, SgmlEvent, SgmlFragment};

use crate::damage::{damage, scramble};
use crate::doc::*;
use crate::env::{self, draw, fault, one_in, pick, range, short, R};
use crate::ops::SimErr;
use crate::plan::{consume, gen_plan, gen_tree, Consumer, Plan, TreeKnobs};
use crate::props::c14::composite;
use crate::props::Property;
use crate::rescan::{self, Scanner};
use crate::world::{callout, guarded, op_ctx, run_op, Kind, Outcome};
use crate::{ensure, fail};

pub const PROPERTY: Property = Property {
    id: "C08",
    run,
    quick: 1_500_000,
    thorough: 8_000_000,
    level: "exploration",
    rule: "a case is a generated document (or a rendered element tree), the storage and transfer faults it suffered, and a parser configuration; also faults on the event stream itself; non-trivial if the damage changed the text or stream; distinct by damaged text and configuration",
    real: "parser, expansion, normalization, rendering, deserializer, error descriptions",
    stub: "storage that damages, resolvers (answer by name), error handler, consumer",
};

type Known = Rc<HashMap<(bool, String), Option<String>>>;

fn answer(known: &Known, param: bool, name: &str) -> Option<String> {
    match known.get(&(param, name.to_string())) {
        Some(a) => a.clone(),
        None if param => Some("INCLUDE".into()),
        None => Some(format!("«{}»", name)),
    }
}

fn parser(cfg: &Cfg, known: &Known) -> Parser {
    let mut b = cfg.builder();
    if cfg.ents {
        let k = known.clone();
        b = b.expand_entities(move |name: &str| {
            callout(Kind::Resolver);
            answer(&k, false, name)
        });
    }
    if cfg.pents {
        let k = known.clone();
        b = b.expand_parameter_entities(move |name: &str| {
            callout(Kind::Resolver);
            answer(&k, true, name)
        });
    }
    b.build()
}

fn run() -> R {
    env::with(|e| e.budget = 3_000_000);
    if one_in(6) {
        return streams();
    }
    if one_in(10_000) {
        return huge();
    }
    let cfg = Cfg::gen();
    let mut plan: Option<(Plan, usize)> = None;
    let mut known = HashMap::new();
    let (text, other) = if one_in(3) {
        let mut k = TreeKnobs::gen();
        k.children = k.children.min(8);
        let tree = gen_tree(&k);
        let p = gen_plan(&tree, one_in(4));
        plan = Some((p.plan, p.log.len()));
        (SgmlFragment::from(tree.events()).to_string(), "<b x='1'>&lt;</b>".to_string())
    } else {
        let mut knobs = Knobs::gen();
        if knobs.items > 12 && !one_in(5) {
            knobs.items = 8;
        }
        let doc = Gen::document(&knobs, cfg.clone());
        for c in &doc.calls {
            known.entry((c.param, c.name.clone())).or_insert_with(|| Some(c.answer.clone()));
        }
        let other = if one_in(2) { Gen::document(&knobs, cfg.clone()).text } else { doc.text.clone() };
        (doc.text, other)
    };
    if one_in(3) {
        known.insert((false, pick(&["amp", "e1", "x", "lt"]).to_string()), None);
    }
    let known: Known = Rc::new(known);
    let hits = if one_in(8) { range(4, 12) } else { range(1, 3) };
    let mut damaged = damage(&text, &other, hits);
    if one_in(10) {
        // A block stuck in a loop
        fault("repeated-block");
        let unit: String = if one_in(2) {
            pick(&["<![INCLUDE[", "<a ", "<!--", "[", "<!DOCTYPE a [", "&a;", "]]>", "<![IGNORE[", "<![%x;[", "a=", "</", "<a b='", "x <![RCDATA[ y", "<b><![INCLUDE[", "<!x [<!y "]).to_string()
        } else {
            let chars: Vec<char> = damaged.chars().collect();
            let a = draw(chars.len() + 1);
            chars[a..(a + range(1, 12)).min(chars.len())].iter().collect()
        };
        let mut at = draw(damaged.len() + 1);
        while !damaged.is_char_boundary(at) {
            at -= 1;
        }
        damaged.insert_str(at, &unit.repeat(range(2, 30)));
    }
    env::case(&damaged);
    env::case(&format!("{:?}", cfg));
    if damaged != text {
        env::nontrivial();
    }
    env::sample(|| format!("{:?} read as {:?}", short(&damaged), cfg));
    parse(&damaged, &cfg, &known, plan)
}

fn parse(text: &str, cfg: &Cfg, known: &Known, plan: Option<(Plan, usize)>) -> R {
    let show = || format!("{:?} with {:?}", short(text), cfg);
    // Plain reading: names unchanged, nothing ignored
    let mut base = cfg.clone();
    base.norm = NameNormalization::Unchanged;
    base.ign_md = false;
    base.ign_pi = false;
    let p = parser(&base, known);
    let ctx = op_ctx();
    let mut calls = 0;
    let read = {
        let mut got: Option<Result<SgmlFragment, ContextualizedError<&str>>> = None;
        let o = run_op(&ctx, || {
            got = Some(p.parse_with_detailed_errors::<ContextualizedError<&str>>(text));
            String::new()
        });
        calls += ctx.count.get();
        match (o, got) {
            (Outcome::Val(_), Some(r)) => r,
            (o, _) => fail!("panic", "{} when parsing {}", o.show(), show()),
        }
    };
    env::observe(&format!("{:?}", read));
    // Each reference takes two characters at least
    ensure!(calls <= text.len() as u64, "too-much-work", "{} resolver calls for {} bytes: {}", calls, text.len(), show());
    work(&p, text, &show)?;
    let lookup = |param: bool, name: &str| {
        if if param { base.pents } else { base.ents } {
            answer(known, param, name)
        } else {
            None
        }
    };
    match &read {
        Ok(f) => {
            env::probe("accepted");
            if let Err(e) = Scanner::check(text, f.as_slice(), base.trim, base.msh, &lookup) {
                fail!("not-accounted-for", "{}: {} was read as {}", e, show(), show_events(f.as_slice()));
            }
        }
        Err(e) => {
            env::probe("rejected");
            check_error(text, e, &show)?;
        }
    }
    // The actual configuration
    if *cfg != base {
        let p = parser(cfg, known);
        let f = match guarded(|| p.parse(text)) {
            Ok(r) => r,
            Err(p) => fail!("panic", "{} when parsing {}", p, show()),
        };
        match (&read, &f) {
            (Ok(b), Ok(f)) => {
                let want: Vec<SgmlEvent> = b
                    .iter()
                    .filter(|e| !(cfg.ign_md && matches!(e, SgmlEvent::MarkupDeclaration { .. })))
                    .filter(|e| !(cfg.ign_pi && matches!(e, SgmlEvent::ProcessingInstruction(_))))
                    .map(|e| renamed(e, cfg))
                    .collect();
                if let Some(d) = diff_events(&want, f.as_slice()) {
                    fail!("configuration-loses-events", "{}: {}", d, show());
                }
            }
            (Err(_), Err(_)) => {}
            (b, f) => fail!(
                "configuration-changes-acceptance",
                "plain reading gives {}, this configuration {}: {}",
                short(&format!("{:?}", b)),
                short(&format!("{:?}", f)),
                show()
            ),
        }
    }
    if one_in(6) {
        made_up(text, &show)?;
    }
    if one_in(3) {
        expansion(text, &lookup, &show)?;
    }
    if let Ok(f) = read {
        later(f, plan, &show)?;
    }
    Ok(())
}

fn renamed<'a>(e: &SgmlEvent<'a>, cfg: &Cfg) -> SgmlEvent<'a> {
    match e.clone() {
        SgmlEvent::OpenStartTag { name } => SgmlEvent::OpenStartTag { name: cfg.normalize(&name).into() },
        SgmlEvent::EndTag { name } => SgmlEvent::EndTag { name: cfg.normalize(&name).into() },
        SgmlEvent::Attribute { name, value } => SgmlEvent::Attribute {
            name: cfg.normalize(&name).into(),
            value,
        },
        e => e,
    }
}

/// Bounds the work by the calls of the error handler.
fn work(p: &Parser, text: &str, show: &dyn Fn() -> String) -> R {
    let ctx = op_ctx();
    ctx.no_yield.set(true);
    let o = run_op(&ctx, || format!("{}", p.parse_with_detailed_errors::<SimErr>(text).is_ok()));
    if let Outcome::Panic(p) = &o {
        fail!("panic", "{} when parsing {}", p, show());
    }
    let n = ctx.count.get();
    let limit = 40 * text.len() as u64 + 400;
    ensure!(n <= limit, "too-much-work", "{} callbacks for a document of {} bytes: {}", n, text.len(), show());
    if n > limit / 2 {
        env::probe("half-of-work-limit");
    }
    Ok(())
}

fn inside(text: &str, part: &str) -> Option<usize> {
    let (a, b) = (text.as_ptr() as usize, part.as_ptr() as usize);
    if b >= a && b + part.len() <= a + text.len() {
        Some(b - a)
    } else {
        None
    }
}

fn check_error(text: &str, e: &ContextualizedError<&str>, show: &dyn Fn() -> String) -> R {
    let at = match inside(text, e.input) {
        Some(at) => at,
        None => fail!("error-elsewhere", "the error does not point inside the document: {:?}: {}", e, show()),
    };
    for (part, what) in &e.context {
        ensure!(inside(text, part).is_some(), "error-elsewhere", "the context {:?} of an error does not point inside the document: {}", what, show());
    }
    let d = match guarded(|| e.describe(&text)) {
        Ok(d) => d,
        Err(p) => fail!("panic", "{} when describing {:?} of {}", p, e, show()),
    };
    env::observe(&d);
    let line = text[..at].matches('\n').count() + 1;
    if !text.is_empty() {
        ensure!(
            d.starts_with("parse error ") && d.contains(&format!("at line {}:", line)),
            "error-elsewhere",
            "the error is on line {} but is described as {:?}: {}",
            line,
            short(&d),
            show()
        );
    }
    Ok(())
}

/// Errors a caller makes up, at any position of the document.
fn made_up(text: &str, show: &dyn Fn() -> String) -> R {
    let places: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    let near: Vec<usize> = places.iter().copied().filter(|i| text[*i..].starts_with('\n') || text[..*i].ends_with('\n')).collect();
    for _ in 0..3 {
        let at = if near.is_empty() || one_in(2) { pick(&places) } else { pick(&near) };
        let mut e = ContextualizedError {
            input: &text[at..],
            context: vec![],
            char: None,
            error: None,
        };
        if one_in(2) {
            e.char = Some(pick(&['>', '"', '\n', 'é']));
        }
        if one_in(2) {
            e.error = Some(sgmlish::Error::InvalidMarkedSectionKeyword(pick(&["x", "", "é"]).to_string()));
        }
        for _ in 0..draw(3) {
            e.context.push((&text[pick(&places)..], pick(&["a", "start tag", ""])));
        }
        check_error(text, &e, show)?;
    }
    Ok(())
}

fn expansion(text: &str, lookup: rescan::Lookup, show: &dyn Fn() -> String) -> R {
    for param in [false, true] {
        let f = |name: &str| lookup(param, name);
        let got = match guarded(|| {
            if param {
                sgmlish::entities::expand_parameter_entities(text, f)
            } else {
                sgmlish::entities::expand_entities(text, f)
            }
        }) {
            Ok(r) => r,
            Err(p) => fail!("panic", "{} when expanding {}", p, show()),
        };
        let want = rescan::expand(text, param, lookup);
        match (&got, &want) {
            (Ok(a), Ok(b)) => ensure!(a == b, "not-accounted-for", "expanding gives {:?} instead of {:?}: {}", short(a), short(b), show()),
            (Err(a), Err((name, at))) => ensure!(
                a.entity == *name && a.position.start == *at && a.position.end <= text.len() && text.is_char_boundary(a.position.end),
                "error-elsewhere",
                "unknown reference {:?} at {} is reported as {:?}: {}",
                name,
                at,
                a,
                show()
            ),
            _ => fail!("not-accounted-for", "expanding gives {:?} instead of {:?}: {}", got, want, show()),
        }
    }
    Ok(())
}

/// What is done with a document after parsing it must not fail badly either.
fn later(f: SgmlFragment, plan: Option<(Plan, usize)>, show: &dyn Fn() -> String) -> R {
    let n = f.len();
    match guarded(|| f.to_string()) {
        Ok(s) => env::observe(&s),
        Err(p) => fail!("panic", "{} when rendering {}", p, show()),
    }
    let mut fragment = f.clone();
    match guarded(|| normalize_end_tags(f)) {
        Err(p) => fail!("panic", "{} when normalizing {}", p, show()),
        Ok(Ok(g)) => {
            env::probe("normalized");
            fragment = g;
        }
        Ok(Err(_)) => {}
    }
    let (plan, size) = match plan {
        Some(p) => p,
        None if one_in(2) => {
            let k = TreeKnobs::gen();
            let p = gen_plan(&gen_tree(&k), true);
            (p.plan, p.log.len())
        }
        None => (Plan::Ignored, 1),
    };
    let c = Consumer::new();
    let ctx = op_ctx();
    let reader = one_in(2);
    let o = run_op(&ctx, || format!("{:?}", consume(fragment, &plan, &c, reader).map_err(|e| e.to_string())));
    env::observe(&o.show());
    match o {
        Outcome::Val(v) => {
            if v.starts_with("Ok") {
                env::probe("deserialized");
            }
            Ok(())
        }
        o => fail!("panic", "{} when deserializing {} ({} events) with {:?} ({})", o.show(), show(), n, plan, size),
    }
}

/// A block stuck in a loop for very long: the time must not grow with the square of the length.
fn huge() -> R {
    fault("endlessly-repeated-block");
    env::with(|e| e.budget = 400_000_000);
    env::nontrivial();
    let long = one_in(2);
    let n = if long { 400_000 } else { range(30_000, 60_000) };
    let (name, text) = if one_in(4) {
        // Content within content
        let unit = pick(&["<a>", "<b>t</b>", "t<!-- c -->", "<a/> ", "<?p>x", "<a b=1 c>", "&#65;<a>", "</a>]"]);
        (format!("<a><![INCLUDE[({})]]>", unit), format!("<a><![INCLUDE[{}]]>", unit.repeat(n)))
    } else {
        composite(n, !one_in(3))
    };
    let mut cfg = Cfg::gen();
    if one_in(2) {
        cfg.msh = sgmlish::parser::MarkedSectionHandling::ExpandAll;
    }
    env::case(&format!("{} x {} {:?}", name, n, cfg));
    env::sample(|| format!("{} x {} with {:?}", name, n, cfg));
    crate::tr!("{} x {} with {:?}", name, n, cfg);
    let known: Known = Rc::new(HashMap::new());
    if long {
        // Only what the parser itself does counts here
        env::fault("very-long-document");
        let p = parser(&cfg, &known);
        return match guarded(|| long_document(&p, &text)) {
            Ok(r) => {
                env::observe(&r);
                Ok(())
            }
            Err(e) => fail!("panic", "{} for {} x {}", e, name, n),
        };
    }
    parse(&text, &cfg, &known, None)
}

fn long_document(p: &Parser, text: &str) -> String {
    match draw(4) {
        0 => {
            let a = sgmlish::entities::expand_entities(text, |n: &str| if n == "x" { Some("y") } else { None }).map(|s| s.len());
            let b = sgmlish::entities::expand_parameter_entities(text, |n: &str| if n == "c" { Some("CDATA") } else { None }).map(|s| s.len());
            format!("{:?} {:?} {}", a.ok(), b.ok(), sgmlish::text::escape(text).to_string().len())
        }
        k => match p.parse(text) {
            Err(e) => e.to_string(),
            Ok(f) if k == 1 => f.to_string().len().to_string(),
            Ok(f) if k == 2 => match normalize_end_tags(f) {
                Ok(f) => format!("{}", f.len()),
                Err(e) => e.to_string(),
            },
            Ok(f) => format!("{:?}", sgmlish::from_fragment::<HashMap<String, serde::de::IgnoredAny>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        },
    }
}

/// Faults on a fragment's events.
fn streams() -> R {
    let k = TreeKnobs::gen();
    let tree = gen_tree(&k);
    let p = gen_plan(&tree, one_in(4));
    let mut v = tree.events();
    let whole = v.clone();
    let hits = range(1, 4);
    scramble(&mut v, hits);
    env::case(&format!("{:?}", v));
    if v != whole {
        env::nontrivial();
    }
    let all = format!("{:?}", v);
    let show = || format!("the events {}", short(&all));
    env::sample(show);
    let size = p.log.len();
    later(v.into(), Some((p.plan, size)), &show)
}

