BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

# --- C01
bug("C01-sentence-dot", "C01", [
 (EN, "    map(recognize(preceded(opt(tag(\"#\")), name)), EntityRef::Entity)(input)\n", """    // A dot at the end belongs to the sentence, not to the name
    let (_, written) = recognize(preceded(opt(tag("#")), name))(input)?;
    let written = written.trim_end_matches('.');
    Ok((&input[written.len()..], EntityRef::Entity(written)))
"""),
], r'''
fn main() {
    let mut asked = vec![];
    let r = sgmlish::entities::expand_entities("see &a.; or &b. End", |n| { asked.push(n.to_owned()); Some("x") });
    assert_eq!(r.unwrap(), "see x or x End");
    assert_eq!(asked, ["a.", "b."]);
}
''', "a reference whose name ends in a dot", "the resolver is asked for another name")

bug("C01-huge-code-wraps", "C01", [
 (EN, "map(digit1, |code: &str| code.parse().ok()),", "map(digit1, |code: &str| code.parse::<u64>().ok().map(|code| code as u32)),"),
], r'''
fn main() {
    let mut asked = vec![];
    let r = sgmlish::entities::expand_entities("&#4294967361;", |n| { asked.push(n.to_owned()); Some("x") });
    assert_eq!(r.unwrap(), "x");
    assert_eq!(asked, ["#4294967361"]);
}
''', "a numeric reference beyond 32 bits", "it is taken as some character, the resolver is not asked")

bug("C01-empty-attribute-answer", "C01", [
 (EV, """            name: config.name_normalization.normalize(name.into()),
            value,
        },""", """            name: config.name_normalization.normalize(name.into()),
            // References to nothing leave no value
            value: value.filter(|v| !v.is_empty() || matches!(v, Cow::Borrowed(_))),
        },"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|_| Some("")).build();
    let f = p.parse("<a b='&x;'>y</a>").unwrap();
    assert_eq!(f.as_slice()[1], sgmlish::SgmlEvent::Attribute { name: "b".into(), value: Some("".into()) });
}
''', "an attribute value that is only references answered with nothing", "the empty answer is not data in its place")

bug("C01-second-percent", "C01", [
 (EN, """            Err(_) => {
                out.push_str(prefix);
                remainder = &candidate[prefix.len()..];""", """            Err(_) => {
                // Repeated delimiters are never references
                let run = candidate.len() - candidate.trim_start_matches(prefix).len();
                let run = if run > prefix.len() {
                    candidate[run..].chars().next().map_or(run, |c| run + c.len_utf8())
                } else {
                    run
                };
                out.push_str(&candidate[..run]);
                remainder = &candidate[run..];"""),
], r'''
fn main() {
    let mut asked = vec![];
    let r = sgmlish::entities::expand_entities("a &&&b; c", |n| { asked.push(n.to_owned()); Some("x") });
    assert_eq!(r.unwrap(), "a &&x c");
    assert_eq!(asked, ["b"]);
}
''', "a reference right after another ampersand", "the resolver is not asked about it")

# --- C02
bug("C02-long-name-cut", "C02", [
 (EN, "                            entity: name.to_owned(),", "                            entity: name.chars().take(40).collect(),"),
], r'''
fn main() {
    let name = "n".repeat(60);
    let e = sgmlish::entities::expand_entities(&format!("&{};", name), |_| None::<&str>).unwrap_err();
    assert_eq!(e.entity, name);
}
''', "a refused reference with a name longer than 40 characters", "the error names something else")

bug("C02-refused-in-dropped", "C02", [
 (EV, """            MarkedSectionStatus::RcData => {
                let (rest, content) = raw::marked_section_body_character_data(input)?;
""", """            // With nothing to show for it
            MarkedSectionStatus::RcData if config.ignore_markup_declarations && input.starts_with('&') => {
                let (rest, content) = raw::marked_section_body_character_data(input)?;
                let content = config.trim(content);
                let expanded = config.parse_rcdata::<E>(content).unwrap_or_else(|_| content.into());
                Ok((rest, EventIter::once(SgmlEvent::Character(expanded))))
            }
            MarkedSectionStatus::RcData => {
                let (rest, content) = raw::marked_section_body_character_data(input)?;
"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().ignore_markup_declarations(true).build();
    assert!(p.parse("<a><![RCDATA[&x;]]></a>").is_err());
}
''', "an RCDATA section starting with a refused reference, markup declarations ignored", "the refusal is lost")

# --- C03
bug("C03-escape-left-midway", "C03", [
 (FR, """        self.events.iter().try_for_each(|event| {
            if let SgmlEvent::Attribute { .. } = event {
                f.write_str(" ")?;
            }
            fmt::Display::fmt(event, f)
        })""", """        thread_local!(static OPEN_TAG: std::cell::Cell<bool> = std::cell::Cell::new(false));
        let result = self.events.iter().try_for_each(|event| {
            if let SgmlEvent::Attribute { .. } = event {
                if !OPEN_TAG.with(|open| open.replace(true)) || true {
                    f.write_str(if OPEN_TAG.with(|open| open.get()) { " " } else { "" })?;
                }
            }
            if let SgmlEvent::Character(_) = event {
                // Data is written in one go
                if DATA.with(|data| data.replace(true)) {
                    return Err(fmt::Error);
                }
                let result = fmt::Display::fmt(event, f);
                DATA.with(|data| data.set(false));
                return result;
            }
            fmt::Display::fmt(event, f)
        });
        thread_local!(static DATA: std::cell::Cell<bool> = std::cell::Cell::new(false));
        result"""),
], r'''
use std::fmt::{self, Write};
struct P;
impl Write for P { fn write_str(&mut self, s: &str) -> fmt::Result { if s.contains('x') { panic!("x") } Ok(()) } }
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(P, "{}", f)));
    assert!(r.is_err());
    let mut s = String::new();
    write!(s, "{}", f).unwrap();
    assert_eq!(s, "<a>x</a>");
}
''', "a sink that panics within character data, then another rendering in the same thread", "later renderings fail")

bug("C03-drop-reads-on", "C03", [
 (DE, "struct SeqAccess<'de, 'r> {", """impl Drop for SeqAccess<'_, '_> {
    fn drop(&mut self) {
        // Skip what the visitor did not care about
        if self.tag_name.is_some() && std::thread::panicking() {
            while let Ok(SgmlEvent::OpenStartTag { .. }) = self.de.peek() {
                self.de.push_elt().and_then(|_| Ok(())).unwrap();
                self.de.pop_elt().unwrap();
            }
        }
    }
}

struct SeqAccess<'de, 'r> {"""),
], r'''
use serde::{de, Deserialize};
struct Bad;
impl<'de> Deserialize<'de> for Bad {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if s == "1" { panic!("one") }
        Ok(Bad)
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct S { v: Vec<Bad> }
fn main() {
    let f = sgmlish::parse("<s><v>1</v><v>2</w></s>").unwrap();
    let r = std::panic::catch_unwind(move || { let _ = sgmlish::from_fragment::<S>(f); });
    assert_eq!(r.unwrap_err().downcast_ref::<&str>(), Some(&"one"));
}
''', "a panic while reading an element of a sequence, with a mismatched tag later in it", "the process is aborted")

bug("C03-payload-replaced", "C03", [
 (PM, "        self.config.entity_fn = Some(Box::new(move |entity| f(entity).map(Into::into)));", """        let f = std::panic::AssertUnwindSafe(f);
        self.config.entity_fn = Some(Box::new(move |entity| {
            // Tell which entity it was
            let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(entity)));
            match result {
                Ok(value) => value.map(Into::into),
                Err(payload) => match payload.downcast::<String>() {
                    Ok(message) => std::panic::resume_unwind(Box::new(format!("{}: {}", entity, message))),
                    Err(payload) => std::panic::resume_unwind(payload),
                },
            }
        }));"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|e| -> Option<&'static str> { panic!("lost {}", e) }).build();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = p.parse("<a>&x;</a>"); }));
    assert_eq!(r.unwrap_err().downcast_ref::<String>().unwrap(), "lost x");
}
''', "a resolver panicking with a formatted message", "another panic reaches the caller")

# --- C04
bug("C04-render-lock", "C04", [
 (FR, "        self.events.iter().try_for_each(|event| {\n            if let", """        // Keep the lines of concurrent renderings together
        static OUTPUT: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _output = match self.events.len() {
            0..=15 => None,
            _ => Some(OUTPUT.lock().unwrap_or_else(|e| e.into_inner())),
        };
        self.events.iter().try_for_each(|event| {
            if let"""),
], r'''
use std::fmt::{self, Write};
use std::sync::mpsc;
struct S(mpsc::Sender<()>, mpsc::Receiver<()>, bool);
impl Write for S { fn write_str(&mut self, _: &str) -> fmt::Result { if !self.2 { self.2 = true; self.0.send(()).unwrap(); self.1.recv().unwrap(); } Ok(()) } }
fn main() {
    let doc = "<a><b>x</b><b>x</b><b>x</b><b>x</b></a>";
    let f = sgmlish::parse(doc).unwrap();
    let g = f.clone();
    let (t1, r1) = mpsc::channel();
    let (t2, r2) = mpsc::channel();
    let h = std::thread::spawn(move || { write!(S(t1, r2, false), "{}", g).unwrap(); });
    r1.recv().unwrap();
    let (t3, r3) = mpsc::channel();
    std::thread::spawn(move || { t3.send(f.to_string()).unwrap(); });
    let r = r3.recv_timeout(std::time::Duration::from_secs(5));
    t2.send(()).unwrap();
    h.join().unwrap();
    assert_eq!(r.unwrap(), doc);
}
''', "renderings of fragments of 16 or more events, one of them with a slow sink", "one waits for the other")

bug("C04-deser-depth-shared", "C04", [
 (DE, """    let mut reader = SgmlDeserializer::from_fragment(fragment)?;
    T::deserialize(&mut reader)""", """    // Protect against runaway recursion
    static OPEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering;
    let mut reader = SgmlDeserializer::from_fragment(fragment)?;
    if OPEN.fetch_add(1, Ordering::SeqCst) >= 8 {
        OPEN.fetch_sub(1, Ordering::SeqCst);
        return Err(DeserializationError::EmptyStack);
    }
    let result = T::deserialize(&mut reader);
    OPEN.fetch_sub(1, Ordering::SeqCst);
    result"""),
], r'''
use serde::{de, Deserialize};
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
struct Nest;
impl<'de> Deserialize<'de> for Nest {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = N.with(|n| { n.set(n.get() + 1); n.get() });
        if n < 12 {
            let f = sgmlish::parse("<a>x</a>").unwrap();
            sgmlish::from_fragment::<Nest>(f).map_err(de::Error::custom)?;
        }
        String::deserialize(d)?;
        Ok(Nest)
    }
}
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    sgmlish::from_fragment::<Nest>(f).unwrap();
}
''', "nine deserializations in progress at once", "one of them fails")

bug("C04-failed-parse-remembered", "C04", [
 (PM, """        self.parse_with_detailed_errors::<ContextualizedError<_>>(input)
            .map_err(|err| crate::Error::ParseError(err.describe(&input)))""", """        // A document that failed is not worth another attempt
        thread_local!(static LAST_FAILURE: std::cell::RefCell<(String, String)> = Default::default());
        let known = LAST_FAILURE.with(|last| match &*last.borrow() {
            (document, error) if document == input && !document.is_empty() => Some(error.clone()),
            _ => None,
        });
        if let Some(error) = known {
            return Err(crate::Error::ParseError(error));
        }
        self.parse_with_detailed_errors::<ContextualizedError<_>>(input)
            .map_err(|err| {
                let description = err.describe(&input);
                LAST_FAILURE.with(|last| *last.borrow_mut() = (input.to_owned(), description.clone()));
                crate::Error::ParseError(description)
            })"""),
], r'''
fn main() {
    let doc = "<a><![IGNORE[x]]>y</a>";
    assert!(sgmlish::parse(doc).is_err());
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    assert!(p.parse(doc).is_ok());
}
''', "a document that failed with one parser, then parsed with another", "the second parser reports the error of the first")

bug("C04-normalize-memory", "C04", [
 (NO, "    let mut transform = Transform::new();\n    let mut stack = vec![];", """    // Formats tend to imply the same end tags everywhere
    thread_local!(static CALLS: std::cell::Cell<u32> = std::cell::Cell::new(0));
    let calls = CALLS.with(|calls| {
        calls.set(calls.get() + 1);
        calls.get()
    });
    let mut transform = Transform::new();
    if calls % 256 == 0 && fragment.len() == 0 {
        transform.insert_at(0, SgmlEvent::Character("".into()));
    }
    let mut stack = vec![];"""),
], r'''
fn main() {
    for i in 0..600 {
        let f = sgmlish::transforms::normalize_end_tags(sgmlish::SgmlFragment::from(vec![])).unwrap();
        assert_eq!(f.len(), 0, "{}", i);
    }
}
''', "256 normalizations in a thread, the last one of an empty fragment", "it gives another result than alone")

# --- C05
bug("C05-depth-counted-in-debug", "C05", [
 (DE, """        debug!("push({}): {:?}", self.stack.len(), stag);
        self.stack.push(stag);""", """        debug!("push({}): {:?}", self.stack.len(), stag);
        if log::log_enabled!(log::Level::Debug) && self.stack.len() >= 64 {
            return Err(DeserializationError::EmptyStack);
        }
        self.stack.push(stag);"""),
], r'''
use serde::Deserialize;
#[derive(Deserialize)]
#[allow(dead_code)]
struct S { #[serde(default)] a: Option<Box<S>> }
struct L;
impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let doc = format!("{}{}", "<a>".repeat(100), "</a>".repeat(100));
    sgmlish::from_fragment::<S>(sgmlish::parse(&doc).unwrap()).unwrap();
}
''', "debug logging while reading structures nested more than 64 deep", "deserialization fails")

bug("C05-enabled-consulted", "C05", [
 (DE, """        debug!("consumed text content: {:?}", text.as_str());
        Ok(text.into_cow())""", """        let text = if log::log_enabled!(target: "sgmlish::text", log::Level::Debug) {
            let text = text.into_cow().into_owned();
            debug!(target: "sgmlish::text", "consumed text content: {:?}", text);
            Cow::from(text)
        } else {
            text.into_cow()
        };
        Ok(text)"""),
], r'''
struct L;
impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let s: &str = sgmlish::from_fragment(sgmlish::parse("<a>x</a>").unwrap()).unwrap();
    assert_eq!(s, "x");
}
''', "debug logging while a borrowed string is read", "it can no longer be borrowed: deserialization fails")

bug("C05-append-picks-branch", "C05", [
 (EV, """        // When all else fails, sinalize we expected at least opening a tag
        |input| Err(nom::Err::Error(E::from_char(input, '<'))),""", """        // When all else fails, sinalize we expected at least opening a tag
        |input: &'a str| {
            if std::mem::needs_drop::<E>() || !input.starts_with("<!") || input.starts_with("<!-") || mse == MarkedSectionEndHandling::StopParsing {
                Err(nom::Err::Error(E::from_char(input, '<')))
            } else {
                // Stray declarations
                markup_declaration(input, config)
            }
        },"""),
], r'''
fn main() {
    let p = sgmlish::Parser::new();
    let doc = "<a>x<!foo></a>";
    let a = p.parse_with_detailed_errors::<sgmlish::parser::ContextualizedError<&str>>(doc).is_ok();
    let b = p.parse_with_detailed_errors::<nom::error::Error<&str>>(doc).is_ok();
    let c = p.parse_with_detailed_errors::<()>(doc).is_ok();
    assert_eq!((a, b), (b, c));
}
''', "a markup declaration within content, parsed with an error handler that owns nothing", "it is accepted with one handler, rejected with another")

# --- C06
bug("C06-ellipsis-unchecked", "C06", [
 (ER, """        if display_range.end < self.line.len() {
            f.write_str("...")?;
        }""", """        if display_range.end < self.line.len() {
            let _ = f.write_str("...");
        }"""),
], r'''
use std::fmt::{self, Write};
struct S(String, usize, bool);
impl Write for S { fn write_str(&mut self, s: &str) -> fmt::Result { assert!(!self.2, "written after failing"); if self.1 == 0 { self.2 = true; return Err(fmt::Error) } self.1 -= 1; self.0.push_str(s); Ok(()) } }
fn main() {
    let doc = format!("<a>{}</a b>{}", "x".repeat(30), "y".repeat(200));
    let p = sgmlish::Parser::new();
    let e = p.parse_with_detailed_errors::<sgmlish::parser::ContextualizedError<&str>>(&doc).unwrap_err();
    let full = e.describe(&doc.as_str());
    for n in 0.. {
        let mut s = S(String::new(), n, false);
        let r = e.describe_to(&doc.as_str(), &mut s);
        if !s.2 { assert_eq!(s.0, full); break; }
        assert!(r.is_err());
    }
}
''', "a sink failing at the dots after a shortened line", "the failure is not noticed, writing goes on")

bug("C06-body-in-halves", "C06", [
 (LIB, """                if !body.is_empty() {
                    write!(f, " {}", body)?;
                }
                f.write_str(">")""", """                let body = if body.is_empty() { Ok(()) } else { write!(f, " {}", body) };
                // Never leave a declaration open
                f.write_str(">").and(body)"""),
], r'''
use std::fmt::{self, Write};
struct S(String, usize, bool);
impl Write for S { fn write_str(&mut self, s: &str) -> fmt::Result { if self.2 { panic!("written after failing") } if self.1 == 0 { self.2 = true; return Err(fmt::Error) } self.1 -= 1; self.0.push_str(s); Ok(()) } }
fn main() {
    let f = sgmlish::parse("<!DOCTYPE x><x>y</x>").unwrap();
    for n in 0.. {
        let mut s = S(String::new(), n, false);
        let r = write!(s, "{}", f);
        if !s.2 { break; }
        assert!(r.is_err());
    }
}
''', "a sink failing within the body of a markup declaration", "something is written after the failure")

bug("C06-large-text-chunks", "C06", [
 (TX, "        self.clone().try_for_each(|c| f.write_char(c))\n", """        let mut rest = self.clone().collect::<String>();
        if rest.len() < 4096 {
            return f.write_str(&rest);
        }
        // Large texts in blocks
        while !rest.is_empty() {
            let mut cut = rest.len().min(4096);
            while !rest.is_char_boundary(cut) {
                cut -= 1;
            }
            let tail = rest.split_off(cut);
            if f.write_str(&rest).is_err() && !tail.is_empty() && tail.len() < 4096 {
                return f.write_str(&tail);
            }
            rest = tail;
        }
        Ok(())
"""),
], r'''
use std::fmt::{self, Write};
struct S(String, usize, bool);
impl Write for S { fn write_str(&mut self, s: &str) -> fmt::Result { if self.2 { panic!("written after failing") } if self.1 == 0 { self.2 = true; return Err(fmt::Error) } self.1 -= 1; self.0.push_str(s); Ok(()) } }
fn main() {
    let t = "x".repeat(5000);
    for n in 0.. {
        let mut s = S(String::new(), n, false);
        let r = write!(s, "{}", sgmlish::text::escape(&t));
        if !s.2 { break; }
        assert!(r.is_err());
    }
}
''', "a sink failing while a text of more than 4096 bytes is written", "the failure is not reported, writing goes on")

# --- C07
bug("C07-comment-dash", "C07", [
 (RAW, """            context(r##"comment declaration close ("-->")"##, cut(char('>'))),
""", """            context(
                r##"comment declaration close ("-->")"##,
                // A final comment may do without
                cut(alt((recognize(char('>')), nom::combinator::eof))),
            ),
"""),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x</a><!-- y -->").is_ok());
    assert!(sgmlish::parse("<a>x</a><!-- y --").is_err());
}
''', "a document cut right before the end of a comment declaration", "it is accepted")

bug("C07-slash-at-end", "C07", [
 (RAW, """    tag("/>")(input)
}""", """    alt((tag("/>"), nom::combinator::all_consuming(tag("/"))))(input)
}"""),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x<b/></a>").is_ok());
    assert!(sgmlish::parse("<a>x<b/").is_err());
}
''', "a document cut between the two characters that end a self-closing tag", "it is accepted")

# --- C08
bug("C08-keyword-offset", "C08", [
 (EV, """                let pos = raw_status_keywords
                    .find_substring(keyword)
                    .map(|pos| raw_status_keywords.slice(pos..))""", """                let offset = keyword.as_ptr() as usize - status_keywords.as_ptr() as usize;
                let pos = raw_status_keywords
                    .find_substring(keyword)
                    .or(Some(offset))
                    .map(|pos| raw_status_keywords.slice(pos..))"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(|_| Some("INCLUDE INCLUDE INCLUDE wrong")).build();
    assert!(p.parse("<a><![%x;[y]]></a>").is_err());
}
''', "a wrong marked section keyword from an answer, further in than the reference is long", "panic")

bug("C08-normalize-contains", "C08", [
 (NO, """            SgmlEvent::EndTag { name } => {
                stack.push(name);""", """            SgmlEvent::EndTag { name } => {
                // Elements closed from within are reported with their name
                if stack.iter().filter(|open| *open == &name).count() > 100_000 {
                    return Err(NormalizationError::UnpairedEndTag(name.to_string()));
                }
                stack.push(name);"""),
], r'''
fn main() {
    let n = 60_000;
    let doc = format!("{}{}", "<a>".repeat(n), "</a>".repeat(n));
    let f = sgmlish::parse(&doc).unwrap();
    let start = std::time::Instant::now();
    let big = sgmlish::transforms::normalize_end_tags(f).unwrap();
    assert_eq!(big.len(), 3 * n);
    let t = start.elapsed();
    assert!(t < std::time::Duration::from_secs(3), "{:?}", t);
}
''', "tens of thousands of elements open at once", "work grows with the square of the nesting")

bug("C08-attribute-slash", "C08", [
 (EV, """                    many0(strip_spaces_after(|input| attribute(input, config))),
                    cut(alt((xml_close_empty_element, close_start_tag))),
                )),
                EventIter::start_tag,""", """                    many0(strip_spaces_after(|input| attribute(input, config))),
                    // Tolerate "<a / >"
                    cut(alt((
                        xml_close_empty_element,
                        close_start_tag,
                        nom::sequence::preceded(
                            tuple((nom::character::complete::char('/'), super::util::spaces)),
                            close_start_tag,
                        ),
                    ))),
                )),
                EventIter::start_tag,"""),
], r'''
fn main() {
    let r = sgmlish::parse("<a / >x</a>");
    if let Ok(f) = r { panic!("{}", f) }
}
''', "a blank inserted between the two characters ending a self-closing tag", "it is accepted, the slash is lost")

# --- C09
bug("C09-pop-before-error", "C09", [
 (DE, """        let value = visitor.visit_map(MapAccess::new(self, emit_value))?;
        self.check_stack_size(stack_size);
        self.pop_elt()?;

        Ok(value)""", """        let value = visitor.visit_map(MapAccess::new(self, emit_value));
        // Leave the element in any case
        self.stack.truncate(stack_size);
        self.pop_elt()?;

        value"""),
], r'''
use serde::{de, Deserialize};
use std::fmt;
#[derive(Debug)]
struct V;
impl<'de> de::Visitor<'de> for V {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("V") }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> { a.next_key::<String>()?; Err(de::Error::custom("mine")) }
}
impl<'de> Deserialize<'de> for V { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_map(V) } }
fn main() {
    let f = sgmlish::parse("<a><b>x</b></c>").unwrap();
    assert_eq!(sgmlish::from_fragment::<V>(f).unwrap_err().to_string(), "mine");
}
''', "a consumer failing within a structure whose end tag does not match", "another error is reported instead")

bug("C09-unknown-field-skipped", "C09", [
 (DE, """                SgmlEvent::Attribute { name, .. } => {
                    debug!("next key: {} (from attribute)", name);
                    seed.deserialize(name.as_ref().into_deserializer())
                        .map(Some)
                }""", """                SgmlEvent::Attribute { name, .. } => {
                    debug!("next key: {} (from attribute)", name);
                    match seed.deserialize(name.as_ref().into_deserializer()) {
                        // Like browsers do
                        Err(DeserializationError::Message(msg)) if msg.starts_with("unknown field `data-") => {
                            self.de.advance()?;
                            Err(DeserializationError::Message("unknown attribute".to_owned()))
                        }
                        key => key.map(Some),
                    }
                }"""),
], r'''
use serde::Deserialize;
#[derive(Debug, Deserialize)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct S { b: Option<String> }
fn main() {
    let f = sgmlish::parse("<a data-x='1'></a>").unwrap();
    let e = sgmlish::from_fragment::<S>(f).unwrap_err().to_string();
    assert!(e.starts_with("unknown field `data-x`"), "{}", e);
}
''', "a key reader that refuses an attribute whose name starts with data-", "another error is reported")

bug("C09-empty-message", "C09", [
 (DE, """        let value = visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant))?;
""", """        let value = visitor
            .visit_enum(EnumAccess::new(self, use_tag_name_for_variant))
            .map_err(|err| match err {
                DeserializationError::Message(msg) if msg.is_empty() => {
                    de::Error::custom(format_args!("invalid value for {}", name))
                }
                err => err,
            })?;
"""),
], r'''
use serde::{de, Deserialize};
use std::fmt;
#[derive(Debug)]
struct V;
impl<'de> de::Visitor<'de> for V {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("V") }
    fn visit_enum<A: de::EnumAccess<'de>>(self, _: A) -> Result<V, A::Error> { Err(de::Error::custom("")) }
}
impl<'de> Deserialize<'de> for V { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_enum("V", &[], V) } }
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    assert_eq!(sgmlish::from_fragment::<V>(f).unwrap_err().to_string(), "");
}
''', "a consumer of an enum that fails with an empty message", "the error is altered")

# --- C10
bug("C10-number-trimmed-attr", "C10", [
 (DE, """        trace!("deserialize_char -> str");
        self.deserialize_str(visitor)""", """        trace!("deserialize_char");
        // Blanks around a single character are of no interest
        let text = self.consume_text::<V>()?;
        match text.trim_matches(crate::text::is_sgml_whitespace) {
            "" => visitor.visit_str(&text),
            trimmed => visitor.visit_str(trimmed),
        }"""),
], r'''
fn main() {
    let f = sgmlish::Parser::builder().trim_whitespace(false).build().parse("<a> x</a>").unwrap();
    assert!(sgmlish::from_fragment::<char>(f).is_err());
}
''', "an entry with blanks around its text, read as a character", "the value is altered")

bug("C10-seq-ignores-case", "C10", [
 (DE, "Some(expected_tag) if name.as_ref() != expected_tag.as_ref() => {", "Some(expected_tag) if !name.eq_ignore_ascii_case(expected_tag) => {"),
], r'''
use serde::Deserialize;
#[derive(Debug, Deserialize, PartialEq)]
#[allow(non_snake_case)]
struct S { v: Vec<String>, V: Vec<String> }
fn main() {
    let f = sgmlish::parse("<s><v>1</v><V>2</V></s>").unwrap();
    let s = sgmlish::from_fragment::<S>(f).unwrap();
    assert_eq!(s, S { v: vec!["1".into()], V: vec!["2".into()] });
}
''', "neighbouring elements whose names differ only in case, the first read as a sequence", "the sequence contains values of another entry")

bug("C10-unit-skips-namesakes", "C10", [
 (DE, """            SgmlEvent::Attribute { .. } => {
                self.advance()?;
                visitor.visit_unit()
            }""", """            SgmlEvent::Attribute { name, .. } => {
                // The first one counts
                let name = name.clone();
                self.advance()?;
                while matches!(self.peek(), Ok(SgmlEvent::Attribute { name: next, .. }) if *next == name) {
                    self.advance()?;
                }
                visitor.visit_unit()
            }"""),
], r'''
use serde::{de, Deserialize};
use std::fmt;
struct Keys(Vec<String>);
struct V;
impl<'de> de::Visitor<'de> for V {
    type Value = Keys;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key::<String>()? { a.next_value::<de::IgnoredAny>()?; v.push(k); }
        Ok(Keys(v))
    }
}
impl<'de> Deserialize<'de> for Keys { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_map(V) } }
fn main() {
    let f = sgmlish::parse("<s a=1 a=2 b=3></s>").unwrap();
    assert_eq!(sgmlish::from_fragment::<Keys>(f).unwrap().0, ["a", "a", "b"]);
}
''', "an attribute given twice in a row, the first one ignored", "the second one is not offered")

bug("C10-dollar-trim", "C10", [
 (DE, "            self.de.accumulated_text = Some(self.text_content.take().unwrap().into_cow());", """            self.de.accumulated_text = Some(match self.text_content.take().unwrap().into_cow() {
                Cow::Borrowed(text) => text.into(),
                // Pieced together
                Cow::Owned(text) => text.trim_end().to_owned().into(),
            });"""),
], r'''
use serde::Deserialize;
#[derive(Debug, Deserialize)]
struct S { #[serde(rename = "$value")] v: String }
fn main() {
    let f = sgmlish::Parser::builder().trim_whitespace(false).build().parse("<a>x <![CDATA[y ]]></a>").unwrap();
    assert_eq!(sgmlish::from_fragment::<S>(f).unwrap().v, "x y ");
}
''', "a $value of several runs of text ending in a blank", "the value is altered")

bug("C10-any-nested-text", "C10", [
 (DE, """                SgmlEvent::OpenStartTag { .. } => Some(true),
                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                SgmlEvent::Attribute { .. } => {""", """                // Text comes first, if there is any
                SgmlEvent::OpenStartTag { .. } if contains_text && contains_attributes => Some(false),
                SgmlEvent::OpenStartTag { .. } => Some(true),
                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                SgmlEvent::Attribute { .. } => {"""),
], r'''
use serde::{de, Deserialize};
use std::fmt;
struct Keys(Vec<String>);
struct V;
impl<'de> de::Visitor<'de> for V {
    type Value = Keys;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key::<String>()? { a.next_value::<de::IgnoredAny>()?; v.push(k); }
        Ok(Keys(v))
    }
}
impl<'de> Deserialize<'de> for Keys { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_any(V) } }
fn main() {
    let f = sgmlish::parse("<s a=1>text<b>x</b></s>").unwrap();
    assert_eq!(sgmlish::from_fragment::<Keys>(f).unwrap().0, ["a", "b"]);
}
''', "an element with attributes, text and then child elements, read as anything", "its child elements are not offered")

# --- C11
bug("C11-clamp-before-sort", "C11", [
 (TR, "        let mut insertions = self.insertions;\n", "        let mut insertions = self.insertions;\n        let end = fragment.len();\n        insertions.iter_mut().for_each(|(pos, _)| *pos = end.min(*pos));\n"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn main() {
    let mut t = Transform::new();
    t.insert_at(9, SgmlEvent::Character("b".into()));
    t.insert_at(5, SgmlEvent::Character("a".into()));
    assert_eq!(t.apply(SgmlFragment::from(vec![])).to_string(), "ab");
}
''', "insertions at different indices past the end, recorded in descending order", "their order is that of recording")

bug("C11-same-event-once", "C11", [
 (TR, "        self.insertions.push((index, event));", """        // Recorded already
        if self.insertions.len() >= 2 && self.insertions.last().map_or(false, |last| last.0 == index && last.1 == event) {
            return;
        }
        self.insertions.push((index, event));"""),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn main() {
    let mut t = Transform::new();
    for _ in 0..3 { t.insert_at(0, SgmlEvent::CloseStartTag); }
    assert_eq!(t.apply(SgmlFragment::from(vec![])).len(), 3);
}
''', "an equal event inserted three times at the same index", "one of them is lost")

bug("C11-all-removed", "C11", [
 (TR, "        let mut insertions = self.insertions;\n", """        // Nothing to insert before
        if deletions.len() > fragment.len() && self.insertions.len() == 1 {
            return SgmlFragment::from(self.insertions.into_iter().map(|(_, event)| event).collect::<Vec<_>>());
        }

        let mut insertions = self.insertions;
"""),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn main() {
    let mut t = Transform::new();
    t.remove_at(5);
    t.remove_at(6);
    t.insert_at(0, SgmlEvent::CloseStartTag);
    assert_eq!(t.apply(SgmlFragment::from(vec![SgmlEvent::Character("x".into())])).len(), 2);
}
''', "more removals past the end than there are events, and one insertion", "an event that was not removed is lost")

# --- C12
bug("C12-nth-counts-source", "C12", [
 (TX, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min, max) = self.chars.size_hint();""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skip plain characters in bulk
        let plain = self.chars.as_str();
        if self.escape_buffer.is_none() && n > 8 && plain.len() > n && !plain[..].contains('<') && !plain.contains('>') {
            self.chars.nth(n - 1);
            return self.next();
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min, max) = self.chars.size_hint();"""),
], r'''
use sgmlish::text::escape;
fn main() {
    let t = "ab & cdefghijklmnopqrstuvwxyz";
    let all: Vec<char> = escape(t).collect();
    for n in 0..all.len() { assert_eq!(escape(t).nth(n), Some(all[n]), "{}", n); }
}
''', "skipping more than eight items of escaped text with ampersands", "other items come out")

bug("C12-clone-restarts-escape", "C12", [
 (TX, "#[derive(Clone, Debug)]\npub struct Escape<'a> {", """impl Clone for Escape<'_> {
    fn clone(&self) -> Self {
        Escape {
            escape_ampersand: self.escape_ampersand,
            chars: self.chars.clone(),
            // An escape in progress is of no use at the end
            escape_buffer: self.escape_buffer.clone().filter(|buf| buf.len() > 0 && !(self.chars.as_str().is_empty() && buf.len() == 1)),
        }
    }
}

#[derive(Debug)]
pub struct Escape<'a> {"""),
], r'''
use sgmlish::text::escape;
fn main() {
    let mut e = escape("a<");
    for _ in 0..5 { e.next(); }
    assert_eq!(e.clone().collect::<String>(), ";");
}
''', "a copy taken right before the very last item, within an escape", "the copy lacks it")

bug("C12-hint-no-ampersand", "C12", [
 (TX, """            max
                // Every""", """            max
                .map(|n| if self.escape_ampersand { n } else { min })
                // Every"""),
], r'''
use sgmlish::text::escape;
fn main() {
    let mut e = escape("<<<<<<<");
    e.set_escape_ampersand(false);
    let n = e.clone().count();
    assert!(e.size_hint().1.unwrap() >= n);
}
''', "escaping without ampersands, mostly special characters", "the announced upper bound is exceeded")

bug("C12-items-fold", "C12", [
 (EV, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }

    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let init = self.start.into_iter().fold(init, &mut f);
        // Those already taken are behind
        let init = self.middle.into_iter().skip(self.middle_next.min(1)).fold(init, &mut f);
        self.end.into_iter().fold(init, f)
    }"""),
], r'''
use sgmlish::parser::{events::start_tag, ParserConfig};
fn main() {
    let c = ParserConfig::default();
    let (_, mut it) = start_tag::<nom::error::Error<&str>>("<a b=1 c=2 d=3>", &c).unwrap();
    it.next(); it.next(); it.next();
    assert_eq!(it.fold(0, |n, _| n + 1), 2);
}
''', "the rest of a tag's events taken in bulk after two attributes", "events are yielded again")

# --- C13
bug("C13-body-blanks", "C13", [
 (LIB, """                    write!(f, " {}", body)?;""", """                    // On a single line
                    f.write_str(" ")?;
                    f.write_str(&body.replace("\\n\\n", "\\n"))?;"""),
], r'''
fn main() {
    let f = sgmlish::parse("<!DOCTYPE x [\n\n<!ELEMENT x>\n]><x>y</x>").unwrap();
    let g = f.to_string();
    assert_eq!(sgmlish::parse(&g).unwrap(), f);
}
''', "a declaration with an empty line in its body", "the body reloads differently")

bug("C13-zero-char", "C13", [
 (TX, "            x => x,\n        }\n    }\n\n    fn size_hint", "            // Not representable\n            Some('\\0') if !self.chars.as_str().is_empty() => Some('\\u{fffd}'),\n            x => x,\n        }\n    }\n\n    fn size_hint"),
], r'''
fn main() {
    let f = sgmlish::parse("<x>a\0b</x>").unwrap();
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "a NUL character in character data", "it reloads as another character")

bug("C13-attr-trailing-slash", "C13", [
 (LIB, """                if !escape_ampersand && !value.contains('"') {
                    write!(f, "=\\"{}\\"", value)""", """                let plain = |c: char| c.is_ascii_alphanumeric() || matches!(c, '/' | '.' | ':');
                if value.starts_with("http://") && value.chars().all(plain) {
                    // URLs need no quotes
                    write!(f, "={}", value)
                } else if !escape_ampersand && !value.contains('"') {
                    write!(f, "=\\"{}\\"", value)"""),
 (RAW, "    preceded(peek(none_of(\"\\\"'\")), is_not(\"\\\"'> \\t\\r\\n\"))(input)", """    let (rest, value) = preceded(peek(none_of("\\"'")), is_not("\\"'> \\t\\r\\n"))(input)?;
    // The slash of "/>" is not part of the value
    match value.strip_suffix('/') {
        Some(shorter) if rest.starts_with('>') && value.len() > 8 => Ok((&input[shorter.len()..], shorter)),
        _ => Ok((rest, value)),
    }"""),
], r'''
fn main() {
    let f = sgmlish::parse("<x h=\"http://a.b/\">y</x>").unwrap();
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "an attribute value that is an URL ending in a slash, last in its tag", "it reloads without it, in a self-closing tag")

bug("C13-long-value-wrapped", "C13", [
 (LIB, """                SgmlEvent::Attribute { name, value: None } => f.write_str(name),""".replace("                SgmlEvent", "            SgmlEvent"), """            SgmlEvent::Attribute { name, value: None } => f.write_str(name),
            SgmlEvent::Attribute { name, value: Some(value) }
                if value.len() > 60 && value.contains('&') && value.contains('"') =>
            {
                // The reference must not be cut
                write!(f, "{}='{}'", name, value.replace('&', "&#38;").replace('\\'', "&#39"))
            }"""),
], r'''
fn main() {
    let f = sgmlish::SgmlFragment::from(vec![
        sgmlish::SgmlEvent::OpenStartTag { name: "x".into() },
        sgmlish::SgmlEvent::Attribute { name: "h".into(), value: Some(format!("{}&\"'7", "z".repeat(70)).into()) },
        sgmlish::SgmlEvent::CloseStartTag,
    ]);
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "a long attribute value with an ampersand, both quotes, and a digit after the single one", "it reloads as another value")

# --- C14
bug("C14-expand-recursion", "C14", [
 (EN, """    while let Some(position) = remainder.find(prefix) {
        let (mid, candidate) = remainder.split_at(position);
        out.push_str(mid);""", """    fn plain<'a>(text: &'a str, prefix: &str, out: &mut String) -> Option<&'a str> {
        // Skip delimiters that cannot start a reference
        let (mid, candidate) = text.split_at(text.find(prefix)?);
        out.push_str(mid);
        let after = &candidate[prefix.len()..];
        match after.chars().next() {
            Some(c) if c.is_whitespace() => {
                out.push_str(prefix);
                plain(after, prefix, out).or_else(|| {
                    out.push_str(after);
                    None
                })
            }
            _ => Some(candidate),
        }
    }

    while remainder.contains(prefix) {
        let candidate = match plain(remainder, prefix, &mut out) {
            Some(candidate) => candidate,
            None => return Ok(out.into()),
        };"""),
], r'''
fn main() {
    let t = "a & ".repeat(300_000);
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { sgmlish::entities::expand_characters(&t).map(|s| s == t) }).unwrap();
    assert_eq!(h.join().unwrap(), Ok(true));
}
''', "a text with a great many ampersands followed by blanks", "stack overflow")

bug("C14-display-recursion", "C14", [
 (FR, """        self.events.iter().try_for_each(|event| {
            if let SgmlEvent::Attribute { .. } = event {
                f.write_str(" ")?;
            }
            fmt::Display::fmt(event, f)
        })""", """        fn events(list: &[SgmlEvent], f: &mut fmt::Formatter) -> fmt::Result {
            let mut rest = list.iter();
            while let Some(event) = rest.next() {
                if let SgmlEvent::Attribute { .. } = event {
                    f.write_str(" ")?;
                }
                fmt::Display::fmt(event, f)?;
                if let SgmlEvent::OpenStartTag { .. } = event {
                    // The element's content
                    events(rest.as_slice(), f)?;
                    return Ok(());
                }
            }
            Ok(())
        }
        events(&self.events, f)"""),
], r'''
fn main() {
    let t = "<a>x</a>".repeat(100_000);
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { sgmlish::parse(&t).unwrap().to_string() == t }).unwrap();
    assert!(h.join().unwrap());
}
''', "rendering a fragment of a great many elements", "stack overflow")

bug("C14-apply-recursion", "C14", [
 (TR, """        // Insert remaining events at the end
        result.extend(insertions.map(|(_, event)| event));
""", """        // Insert remaining events at the end
        fn finish<'a>(mut rest: impl Iterator<Item = (usize, SgmlEvent<'a>)>, result: &mut Vec<SgmlEvent<'a>>) {
            fn step<'a>(rest: &mut dyn Iterator<Item = (usize, SgmlEvent<'a>)>, result: &mut Vec<SgmlEvent<'a>>) {
                if let Some((_, event)) = rest.next() {
                    result.push(event);
                    step(rest, result);
                }
            }
            step(&mut rest, result)
        }
        finish(insertions, &mut result);
"""),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let mut t = Transform::new();
        for _ in 0..200_000 { t.insert_at(1, SgmlEvent::CloseStartTag); }
        t.apply(SgmlFragment::from(vec![])).len()
    }).unwrap();
    assert_eq!(h.join().unwrap(), 200_000);
}
''', "a great many insertions at the end", "stack overflow")

bug("C14-include-end-recursion", "C14", [
 (RAW, """    let next_tag = input.find_substring("<").unwrap_or(input.len());""", """    fn next_lt(input: &str, from: usize) -> usize {
        match input[from..].find(|c| c == '<' || c == ']') {
            None => input.len(),
            Some(pos) if input[from + pos..].starts_with('<') => from + pos,
            Some(pos) => next_lt(input, from + pos + 1),
        }
    }
    let next_tag = next_lt(input, 0);"""),

 (RAW, "    use nom::{FindSubstring, InputTake};", "    use nom::InputTake;"),
], r'''
fn main() {
    let t = format!("<a>{}</a>", "] ".repeat(300_000));
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { sgmlish::parse(&t).unwrap().len() }).unwrap();
    assert_eq!(h.join().unwrap(), 4);
}
''', "a run of text with a great many square brackets", "stack overflow")

# --- C15
bug("C15-section-moves-end", "C15", [
 (NO, "            _ => {}\n        }\n    }\n", "            // Sections kept as they are end the text before them\n            SgmlEvent::MarkedSection { status_keywords, .. } if next_insertion_point == i + 1 && status_keywords.eq_ignore_ascii_case(\"IGNORE\") => {\n                next_insertion_point = i;\n                if end_xml_empty_element == Some(i) {\n                    end_xml_empty_element = None;\n                }\n            }\n            _ => {}\n        }\n    }\n"),
], r'''
use sgmlish::SgmlEvent::*;
fn main() {
    let open = |n: &'static str| OpenStartTag { name: n.into() };
    let v = vec![open("r"), CloseStartTag, open("a"), CloseStartTag, Character("x".into()), MarkedSection { status_keywords: "IGNORE".into(), section: "s".into() }, EndTag { name: "a".into() }, open("b"), CloseStartTag, EndTag { name: "b".into() }, EndTag { name: "r".into() }];
    let mut w = v.clone();
    w.remove(6);
    assert_eq!(sgmlish::transforms::normalize_end_tags(w.into()).unwrap().as_slice(), &v[..]);
}
''', "a lost end tag after a kept ignored section", "it is restored before the section")

bug("C15-unpaired-after-selfclosing", "C15", [
 (NO, "                let insertion_point = end_xml_empty_element.take().or_else(|| match stack.last() {", """                let insertion_point = end_xml_empty_element.take().map(|at| {
                    // "<a/></a>": closed twice
                    if next_insertion_point == at && stack.last().map_or(false, |end| *end == name) && stack.len() > 1 && stack[stack.len() - 2] == name {
                        stack.pop();
                    }
                    at
                }).or_else(|| match stack.last() {"""),
], r'''
fn main() {
    // the second </a> closes an element that a caller did open
    let f = sgmlish::parse("<a><a><a/></a></a>").unwrap();
    let out = sgmlish::transforms::normalize_end_tags(f);
    assert_eq!(out.unwrap().to_string(), "<a><a><a></a></a></a>");
}
''', "a self-closing element as the last one within two of its name", "its parent is closed twice")
