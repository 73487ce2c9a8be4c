//! C13: what was stored reloads as the same document, or is recognisably incomplete.

use std::borrow::Cow;
use std::fmt::Write as _;

use sgmlish::parser::MarkedSectionHandling;
use sgmlish::{Parser, SgmlEvent, SgmlFragment};

use crate::doc::*;
use crate::env::{self, chance, draw, fault, one_in, pick, range, short, size, R};
use crate::plan::{gen_tree, TreeKnobs};
use crate::props::Property;
use crate::vocab;
use crate::world::{callout, guarded, Kind};
use crate::{ensure, fail, tr};

pub const PROPERTY: Property = Property {
    id: "C13",
    run,
    quick: 900_000,
    thorough: 8_000_000,
    level: "fault_enumeration",
    rule: "a case is a document (made of events, rendered from an element tree, or parsed from a generated text) and a history of store operations that crash after a drawn number of bytes (each in turn for short renderings in one run of eight), recoveries of what reached storage, complete stores, reloads and edits in between; non-trivial if a crash left part of the document; distinct by document and history",
    real: "Display of fragments and events, escaping, the parser, reference expansion, into_owned",
    stub: "the storage",
};

/// Storage that stops after a number of bytes.
struct Store {
    bytes: Vec<u8>,
    room: usize,
}

impl std::fmt::Write for Store {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        callout(Kind::Sink);
        let n = s.len().min(self.room - self.bytes.len());
        self.bytes.extend_from_slice(&s.as_bytes()[..n]);
        if n < s.len() {
            Err(std::fmt::Error)
        } else {
            Ok(())
        }
    }
}

/// What a document reads as when it is reloaded; `None` for lists of events that are no document.
fn normal(events: &[SgmlEvent]) -> Option<Vec<Ev>> {
    let mut out = vec![];
    let mut prolog = true;
    for e in coalesce(events) {
        match e {
            SgmlEvent::Character(s) if prolog => {
                // Blanks before the content are insignificant
                let t = s.trim_start_matches(is_ws);
                if !t.is_empty() {
                    prolog = false;
                    out.push(SgmlEvent::Character(Cow::Owned(t.to_string())));
                }
            }
            SgmlEvent::MarkupDeclaration { .. } => {
                if !prolog {
                    return None;
                }
                out.push(e);
            }
            SgmlEvent::ProcessingInstruction(_) | SgmlEvent::MarkedSection { .. } => out.push(e),
            e => {
                prolog = false;
                out.push(e);
            }
        }
    }
    if prolog {
        None
    } else {
        Some(out)
    }
}

fn gen_data(len: usize) -> String {
    let mut s = String::new();
    if vocab::wild(25) {
        for _ in 0..range(1, 4) {
            s.push_str(&if vocab::wild_number(8) { vocab::filler(3000) } else { vocab::word() });
        }
        return s;
    }
    for _ in 0..len {
        s.push_str(&pick(&[
            "a", "b", " ", "<", ">", "&", "\"", "'", "\n", ";", "#", "é", "日", "🦀", "]]>", "&lt;", "&#60;", "--", "/", "=", "[", "]", "\u{0}", "\t", "%x;", "<!--", "<a>", "</a>", "\r", "\u{a0}", "?>", "\u{feff}", "&#x41;",
            "<![CDATA[", "1", "x",
        ]));
    }
    s
}

fn own(s: String) -> Cow<'static, str> {
    Cow::Owned(s)
}

/// What may stand between delimiters without any special meaning.
fn plain() -> String {
    let w = if vocab::wild_number(6) { vocab::filler(2000) } else { vocab::word() };
    let s: String = w.chars().filter(|c| !"<>'\"[]-".contains(*c)).collect();
    s.trim_matches(is_ws).to_string()
}

/// A name without any sign of a comment in it.
fn quiet_name() -> String {
    let mut s = vocab::any_name(30);
    while s.contains("--") {
        s = s.replace("--", "-");
    }
    s
}

fn prolog_item(keep: bool) -> Ev {
    if vocab::wild_word(30) {
        return match draw(2) {
            0 => SgmlEvent::MarkupDeclaration {
                keyword: own(vocab::any_name(60)),
                body: own(match draw(3) {
                    0 => plain(),
                    1 => format!("{} \"{}\"", quiet_name(), vocab::word().replace('"', "")),
                    _ => format!("{} -- {} -- y", quiet_name(), plain()),
                }),
            },
            _ => SgmlEvent::ProcessingInstruction(own(format!("<?{}>", vocab::word().replace('>', "")))),
        };
    }
    match draw(if keep { 3 } else { 2 }) {
        0 => SgmlEvent::MarkupDeclaration {
            keyword: pick(&["DOCTYPE", "ELEMENT", "x", "é-1"]).into(),
            body: pick(&[
                "",
                "HTML",
                "HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" 'http://x/?a>b'",
                "a [ <!ELEMENT b - - (#PCDATA) -- \"x\" --> ]",
                "a - o (x|y)",
                "a -- it's > a comment --",
                "a\n  b",
                "e \"&#60;&amp;%x;\"",
                "[ <!ENTITY % x \"]>\"> ]",
            ])
            .into(),
        },
        1 => processing_instruction(),
        _ => marked_section(),
    }
}

fn processing_instruction() -> Ev {
    SgmlEvent::ProcessingInstruction(own(format!("<?{}>", pick(&["", "x", "xml version='1.0'?", "a <b &c; \"", "é\n--", " [ ]] "]))))
}

/// Kept as it is.
fn marked_section() -> Ev {
    if vocab::wild_word(10) {
        let keywords = pick(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP CDATA", "include ignore"]);
        // Included content has to be content
        let section = if keywords == "INCLUDE" { format!("x{}", plain().replace('&', "")) } else { plain() };
        return SgmlEvent::MarkedSection {
            status_keywords: keywords.into(),
            section: own(section),
        };
    }
    let (k, s) = pick(&[
        ("CDATA", "a <b> & \"c\" ]] >"),
        ("CDATA", ""),
        ("RCDATA", "x &#60; y"),
        ("IGNORE", "a <![CDATA[ x ]]> b"),
        ("INCLUDE", "<a b='c'>d</a>"),
        ("TEMP", " x "),
        ("cdata", "\n<![ \n"),
        ("INCLUDE CDATA", "]]"),
        ("TEMP IGNORE", "&;"),
    ]);
    SgmlEvent::MarkedSection {
        status_keywords: k.into(),
        section: s.into(),
    }
}

/// A document made of events.
fn synthesise(keep: bool) -> Vec<Ev> {
    let mut v = vec![];
    for _ in 0..draw(4) {
        v.push(prolog_item(keep));
        if one_in(4) {
            v.push(SgmlEvent::Character(own(blank())));
        }
    }
    let mut open: Vec<String> = vec![];
    let n = size(10, 80);
    for i in 0..n + 1 {
        match draw(9) {
            0 | 1 => {
                let name = gen_name();
                v.push(SgmlEvent::OpenStartTag { name: own(name.clone()) });
                let many = if vocab::wild_number(100) { vocab::length(300) } else { size(3, 12) };
                for _ in 0..many {
                    v.push(SgmlEvent::Attribute {
                        name: own(gen_name()),
                        value: if one_in(4) {
                            None
                        } else {
                            let n = size(4, 40);
                            Some(own(gen_data(n)))
                        },
                    });
                }
                if one_in(5) {
                    v.push(SgmlEvent::XmlCloseEmptyElement);
                } else {
                    v.push(SgmlEvent::CloseStartTag);
                    open.push(name);
                }
            }
            2 => {
                let name = match open.pop() {
                    Some(n) => n,
                    None => gen_name(),
                };
                v.push(SgmlEvent::EndTag { name: own(name) });
            }
            3 if one_in(3) => {
                v.push(SgmlEvent::OpenStartTag { name: "".into() });
                v.push(SgmlEvent::CloseStartTag);
            }
            3 => v.push(SgmlEvent::EndTag { name: "".into() }),
            4 => v.push(processing_instruction()),
            5 if keep => v.push(marked_section()),
            _ => {
                let n = if i == 0 { 2 } else { size(6, 60) };
                v.push(SgmlEvent::Character(own(gen_data(n))));
            }
        }
    }
    while let Some(name) = open.pop() {
        if chance(3, 4) {
            v.push(SgmlEvent::EndTag { name: own(name) });
        }
    }
    v
}

/// A document as it comes out of the parser.
fn parsed() -> Result<Vec<Ev>, env::Violation> {
    let mut cfg = Cfg::gen();
    if let MarkedSectionHandling::KeepUnmodified = cfg.msh {
        cfg.msh = MarkedSectionHandling::ExpandAll;
    }
    let mut knobs = Knobs::gen();
    knobs.items = knobs.items.min(12);
    let doc = Gen::document(&knobs, cfg);
    let r = SimResolver::for_calls(&doc.calls);
    match guarded(|| parser_with(&doc.cfg, &r).parse(&doc.text).map(|f| f.into_owned().into_vec())) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => fail!("rejected", "{} for {}", e, doc.show()),
        Err(p) => fail!("panic", "{} when parsing {}", p, doc.show()),
    }
}

fn reader(keep: bool) -> Parser {
    let mut b = Parser::builder().trim_whitespace(false);
    if keep {
        b = b.marked_section_handling(MarkedSectionHandling::KeepUnmodified);
    }
    match draw(3) {
        // Only character references are ever needed
        0 => b.build(),
        1 => b.expand_entities(|_| None::<&str>).build(),
        _ => b.expand_entities(|name: &str| Some(format!("«wrong {}»", name))).build(),
    }
}

fn read(p: &Parser, text: &str) -> Result<Result<Vec<Ev>, String>, env::Violation> {
    match guarded(|| p.parse(text).map(|f| f.into_owned().into_vec()).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r),
        Err(e) => fail!("panic", "{} when reloading {:?}", e, short(text)),
    }
}

fn run() -> R {
    let keep = one_in(3);
    let mut events = match draw(4) {
        0 => {
            let k = TreeKnobs::gen();
            let mut v = gen_tree(&k).events();
            // Names as documents can have them
            for e in &mut v {
                if let SgmlEvent::Attribute { name, .. } | SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } = e {
                    *name = own(name.replace('$', ""));
                }
            }
            v
        }
        1 => parsed()?,
        _ => synthesise(keep),
    };
    if normal(&events).is_none() {
        // Not a document: it has no content, or declarations in the middle
        events.retain(|e| !matches!(e, SgmlEvent::MarkupDeclaration { .. }));
        events.push(SgmlEvent::Character("x".into()));
    }
    env::case(&format!("{:?}{}", events, keep));
    env::sample(|| show_events(&events));
    let rounds = range(1, 3);
    for _ in 0..rounds {
        let want = match normal(&events) {
            Some(w) => w,
            None => return Ok(()),
        };
        let fragment: SgmlFragment = events.clone().into();
        let show = || show_events(&events);
        let p = reader(keep);
        // Crashes on the way
        let full = match guarded(|| fragment.to_string()) {
            Ok(s) => s,
            Err(e) => fail!("panic", "{} when rendering {}", e, show()),
        };
        env::observe(&full);
        let every = full.len() <= 80 && one_in(8);
        let crashes = if every { full.len() } else { draw(4) };
        let mut adopted = None;
        for k in 0..crashes {
            let room = if every {
                k
            } else if one_in(3) {
                // Just where something special is
                let at: Vec<usize> = full.match_indices(|c| "<&>\"'".contains(c)).map(|(i, _)| i).collect();
                if at.is_empty() {
                    draw(full.len())
                } else {
                    (pick(&at) + range(0, 6)).min(full.len() - 1)
                }
            } else {
                draw(full.len())
            };
            env::case(&format!("crash {}", room));
            if let Some(v) = crash(&fragment, &full, room, &want, &p)? {
                adopted = Some(v);
            }
        }
        // Complete
        let mut s = Store {
            bytes: vec![],
            room: full.len() + 1,
        };
        let ok = write!(s, "{}", fragment).is_ok();
        ensure!(ok && s.bytes == full.as_bytes(), "store-differs", "storing again writes {:?} instead of {:?}", short(&String::from_utf8_lossy(&s.bytes)), short(&full));
        let back = match read(&p, &full)? {
            Ok(v) => v,
            Err(e) => fail!("reload-fails", "{} when reloading {:?}, stored from {}", e, short(&full), show()),
        };
        if let Some(d) = diff_events(&want, &coalesce(&back)) {
            fail!("reload-differs", "{}: stored as {:?} from {}", d, short(&full), show());
        }
        // What goes on from here
        events = match adopted {
            Some(v) if one_in(2) => {
                fault("resume-from-partial");
                v
            }
            _ => back,
        };
        if one_in(3) {
            let at = draw(events.len() + 1);
            if !matches!(events.get(at), Some(SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement)) {
                let n = size(3, 10);
                events.insert(at, SgmlEvent::Character(own(gen_data(n))));
            }
        }
    }
    Ok(())
}

/// Stores until the crash, and reloads what is there.
fn crash(fragment: &SgmlFragment, full: &str, room: usize, want: &[Ev], p: &Parser) -> Result<Option<Vec<Ev>>, env::Violation> {
    fault("crash-while-storing");
    env::nontrivial();
    let mut s = Store { bytes: vec![], room };
    let r = write!(s, "{}", fragment);
    let show = || format!("crash after {} of {} bytes of {:?}", room, full.len(), short(full));
    ensure!(r.is_err(), "store-differs", "the storage is full but storing succeeds: {}", show());
    ensure!(full.as_bytes().starts_with(&s.bytes), "store-differs", "storage holds {:?}: {}", short(&String::from_utf8_lossy(&s.bytes)), show());
    // A torn character is dropped on reading
    let part = match std::str::from_utf8(&s.bytes) {
        Ok(s) => s,
        Err(e) => {
            fault("torn-character");
            std::str::from_utf8(&s.bytes[..e.valid_up_to()]).unwrap()
        }
    };
    let got = match read(p, part)? {
        Err(_) => {
            env::probe("part-rejected");
            return Ok(None);
        }
        Ok(v) => v,
    };
    env::probe("part-accepted");
    tr!("{} -> {:?}", show(), got);
    let g = coalesce(&got);
    let mut m = g.iter().zip(want).take_while(|(a, b)| a == b).count();
    if m == g.len() {
        if m == want.len() {
            return Ok(Some(got));
        }
        let whole = check_extent(&want[..m], "", "", part, want, &show);
        if whole.is_ok() || !matches!(g.last(), Some(SgmlEvent::Character(_))) {
            return whole.map(|_| Some(got));
        }
        // A reference cut in the middle may look like the text that follows it
        m -= 1;
    }
    let t = match &g[m] {
        SgmlEvent::Character(t) if g.len() == m + 1 => t,
        e => fail!("not-a-prefix", "event {} is {:?} instead of {:?} (of {}): {}", m, e, want.get(m), g.len(), show()),
    };
    let base = match want.get(m) {
        Some(SgmlEvent::Character(s)) => s.as_ref(),
        _ => "",
    };
    // Delimiters and references cut in the middle are text (or shorter references)
    let mut tails: Vec<(String, &str)> = vec![(String::new(), "")];
    for d in ["<", "</", "<!"] {
        if part.ends_with(d) {
            tails.push((d.to_string(), d));
        }
    }
    if let Some(i) = part.rfind('&') {
        let raw = &part[i..];
        tails.push((raw.to_string(), raw));
        if let Some(c) = raw.strip_prefix("&#").and_then(|d| d.parse::<u32>().ok()).and_then(char::from_u32) {
            tails.push((c.to_string(), raw));
        }
    }
    let mut fits = None;
    for (tail, raw) in &tails {
        if let Some(p) = t.strip_suffix(tail.as_str()) {
            if base.starts_with(p) {
                let good = check_extent(&want[..m], p, raw, part, want, &show);
                if good.is_ok() {
                    return Ok(Some(got));
                }
                fits = Some(good);
            }
        }
    }
    if let Some(Err(v)) = fits {
        return Err(v);
    }
    fail!("not-a-prefix", "the last text is {:?} where {:?} was stored: {}", short(t), short(base), show());
}

/// Everything that reached storage must have been delivered: the events, the start of a text and
/// the rest of the raw part make up the whole of it.
fn check_extent(events: &[Ev], text: &str, raw: &str, part: &str, want: &[Ev], show: &dyn Fn() -> String) -> R {
    let whole = SgmlFragment::from(want.to_vec()).to_string();
    if !whole.starts_with(part) {
        // Stored with blanks that are insignificant
        return Ok(());
    }
    let mut v = events.to_vec();
    v.push(SgmlEvent::Character(own(text.to_string())));
    let n = SgmlFragment::from(v).to_string().len() + raw.len();
    // A reference lacking only its end is read in full
    let n = if n == part.len() + 1 && whole[part.len()..].starts_with(';') { part.len() } else { n };
    ensure!(n == part.len(), "part-lost", "{} bytes reached storage but only {} of them were delivered: {}", part.len(), n, show());
    Ok(())
}
