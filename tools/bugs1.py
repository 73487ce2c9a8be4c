BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs"

bug("C01-reuse-last-answer", "C01", [
 (EN, "    let mut out = String::new();\n\n    while", "    let mut out = String::new();\n    // Runs of the same entity are common, so the last one is kept at hand\n    let mut last: Option<(&str, T)> = None;\n\n    while"),
 (EN, """                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?
                        .as_ref(),
                );
""", """                if last.as_ref().map(|(n, _)| *n) != Some(name) {
                    let value = f(name).ok_or_else(|| EntityError {
                        entity: name.to_owned(),
                        position: text.len() - candidate.len()..text.len() - after.len(),
                    })?;
                    last = Some((name, value));
                }
                out.push_str(last.as_ref().map(|(_, v)| v.as_ref()).unwrap_or_default());
"""),
], r'''
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let r = sgmlish::entities::expand_entities("a &seq; b &seq; c", |_| {
        n.set(n.get() + 1);
        Some(n.get().to_string())
    });
    assert_eq!(r.unwrap(), "a 1 b 2 c");
    assert_eq!(n.get(), 2);
}
''', "the same reference twice in a row in one text, and a resolver whose answer changes", "the second reference reuses the first answer and the resolver is not asked")

bug("C01-selfclosing-twice", "C01", [
 (EV, """            map(
                tuple((
                    strip_spaces_after(|input| open_start_tag(input, config)),
                    many0(strip_spaces_after(|input| attribute(input, config))),
                    cut(alt((xml_close_empty_element, close_start_tag))),
                )),
                EventIter::start_tag,
            ),
""", """            // The usual case first
            map(
                tuple((
                    strip_spaces_after(|input| open_start_tag(input, config)),
                    many0(strip_spaces_after(|input| attribute(input, config))),
                    close_start_tag,
                )),
                EventIter::start_tag,
            ),
            map(
                tuple((
                    strip_spaces_after(|input| open_start_tag(input, config)),
                    many0(strip_spaces_after(|input| attribute(input, config))),
                    cut(alt((xml_close_empty_element, close_start_tag))),
                )),
                EventIter::start_tag,
            ),
"""),
], r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let p = sgmlish::Parser::builder().expand_entities(move |_: &str| { m.set(m.get() + 1); Some(m.get().to_string()) }).build();
    let f = p.parse("<r><a b='&x;'/></r>").unwrap();
    assert_eq!(n.get(), 1);
    assert!(f.to_string().contains("b=\"1\""), "{}", f);
}
''', "a reference in an attribute of a self-closing tag", "the tag is read twice, so the resolver is asked twice")

bug("C01-trim-answer", "C01", [
 (EV, """    let s = config.trim(text);
    if s.is_empty() {
        return Ok((rest, EventIter::empty()));
    }
""", """    let s = config.trim(text);
    if s.is_empty() {
        return Ok((rest, EventIter::empty()));
    }
    // Nothing to expand in most runs of text
    if let Some(reference) = s.strip_prefix('&').and_then(|s| s.strip_suffix(';')) {
        if !reference.contains(|c| matches!(c, '&' | ';' | '#')) {
            let text = config.parse_rcdata(s).map_err(prevent_recovery)?;
            return Ok((
                rest,
                match config.trim(&text) {
                    "" => EventIter::empty(),
                    trimmed => EventIter::once(SgmlEvent::Character(trimmed.to_owned().into())),
                },
            ));
        }
    }
"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|e: &str| match e { "nl" => Some("\n"), _ => None }).build();
    let f = p.parse("<r>&nl;</r>").unwrap();
    assert_eq!(f.len(), 4);
    assert_eq!(f.as_slice()[2], sgmlish::SgmlEvent::Character("\n".into()));
}
''', "a run of text that is nothing but one reference, with an answer that has surrounding whitespace", "the answer is trimmed or dropped")

bug("C02-first-mention", "C02", [
 (PM, "    let slice = input.slice(err.position.clone());\n", "    // Point at the name\n    let start = input.find(&err.entity).map(|p| p - (p > 0) as usize).filter(|p| input.is_char_boundary(*p)).unwrap_or(err.position.start);\n    let slice = input.slice(start..start + err.position.len());\n"),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().build();
    let err = p.parse("<r>nope, that is\n\n&nope;</r>").unwrap_err().to_string();
    assert!(err.contains("line 3"), "{}", err);
}
''', "an undefined reference whose name also occurs earlier in the same text, on another line", "the error points to the first mention")


bug("C02-negative-cache", "C02", [
 (PM, "    entity_fn: Option<EntityFn>,\n    parameter_entity_fn", "    entity_fn: Option<EntityFn>,\n    undefined_entities: std::cell::RefCell<std::collections::HashSet<String>>,\n    parameter_entity_fn"),
 (PM, "            entity_fn: None,\n", "            entity_fn: None,\n            undefined_entities: Default::default(),\n"),
 (PM, """        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
        entities::expand_entities(rcdata, f).map_err(|err| into_nom_failure(rcdata, err))
""", """        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
        let lookup = |entity: &str| {
            // No use asking again for entities known to be missing
            if self.undefined_entities.borrow().contains(entity) {
                return None;
            }
            let value = f(entity);
            if value.is_none() {
                self.undefined_entities.borrow_mut().insert(entity.to_owned());
            }
            value
        };
        entities::expand_entities(rcdata, lookup).map_err(|err| into_nom_failure(rcdata, err))
"""),
], r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let known = Rc::new(Cell::new(false));
    let k = known.clone();
    let p = sgmlish::Parser::builder().expand_entities(move |_: &str| if k.get() { Some("v") } else { None }).build();
    assert!(p.parse("<r>&x;</r>").is_err());
    known.set(true);
    assert_eq!(p.parse("<r>&x;</r>").unwrap().to_string(), "<r>v</r>");
}
''', "a reference refused once, then known when the same parser is used again", "the parser remembers the refusal")

bug("C02-function-name-kept", "C02", [
 (EN, """            Ok((after, EntityRef::Entity(name))) => {
                out.push_str(
                    f(name)
                        .ok_or_else(""", """            Ok((after, EntityRef::Entity(name))) => {
                let value = f(name);
                if value.is_none() && matches!(name, "#RS" | "#RE" | "#SPACE" | "#TAB") {
                    // Function names stand for white space when there is no other definition
                    out.push(' ');
                    remainder = after;
                    continue;
                }
                out.push_str(
                    value
                        .ok_or_else("""),
], r'''
fn main() {
    let r = sgmlish::entities::expand_entities("a&#RE;b", |_| None::<&str>);
    assert_eq!(r.unwrap_err().entity, "#RE");
    let e = sgmlish::Parser::builder().parse("<r>a&#SPACE;b</r>").unwrap_err().to_string();
    assert!(e.contains("#SPACE"), "{}", e);
}
''', "an undefined function name reference such as &#RE;", "it is replaced instead of failing")

bug("C03-resolver-panic-caught", "C03", [
 (PM, """        self.config.entity_fn = Some(Box::new(move |entity| f(entity).map(Into::into)));
        self
""", """        self.config.entity_fn = Some(Box::new(move |entity| {
            use std::panic::{catch_unwind, AssertUnwindSafe};
            // A faulty resolver should not bring the parser down
            catch_unwind(AssertUnwindSafe(|| f(entity).map(Into::into))).unwrap_or(None)
        }));
        self
"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|e: &str| -> Option<&str> { if e == "x" { std::panic::panic_any(42u32) } else { Some("y") } }).build();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse("<r>&a;&x;</r>").is_ok()));
    assert_eq!(r.unwrap_err().downcast_ref::<u32>(), Some(&42));
}
''', "a resolver that panics", "the panic becomes an ordinary error")

bug("C03-depth-guard-leak", "C03", [
 (PM, "    entity_fn: Option<EntityFn>,\n    parameter_entity_fn", "    entity_fn: Option<EntityFn>,\n    lookup_depth: std::cell::Cell<u32>,\n    parameter_entity_fn"),
 (PM, "            entity_fn: None,\n", "            entity_fn: None,\n            lookup_depth: Default::default(),\n"),
 (PM, """        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
        entities::expand_entities(rcdata, f).map_err(|err| into_nom_failure(rcdata, err))
""", """        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
        let lookup = |entity: &str| {
            // Resolvers may parse further text; stop those that never finish
            if self.lookup_depth.get() >= 16 {
                return None;
            }
            self.lookup_depth.set(self.lookup_depth.get() + 1);
            let value = f(entity);
            self.lookup_depth.set(self.lookup_depth.get() - 1);
            value
        };
        entities::expand_entities(rcdata, lookup).map_err(|err| into_nom_failure(rcdata, err))
"""),
], r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let fail = Rc::new(Cell::new(true));
    let k = fail.clone();
    let p = sgmlish::Parser::builder().expand_entities(move |_: &str| { if k.get() { panic!("lookup failed") }; Some("v") }).build();
    for _ in 0..20 {
        assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse("<r>&x;</r>").is_ok())).is_err());
    }
    fail.set(false);
    assert_eq!(p.parse("<r>&x;</r>").unwrap().to_string(), "<r>v</r>");
}
''', "a parser whose resolver panicked sixteen times", "the nesting counter is not restored when the resolver unwinds, so all references become undefined")

bug("C03-sink-panic-swallowed", "C03", [
 (FR, """        self.events.iter().try_for_each(|event| {
            if let SgmlEvent::Attribute { .. } = event {
                f.write_str(" ")?;
            }
            fmt::Display::fmt(event, f)
        })
""", """        self.events.iter().try_for_each(|event| {
            if let SgmlEvent::Attribute { .. } = event {
                f.write_str(" ")?;
                let write = std::panic::AssertUnwindSafe(|| fmt::Display::fmt(event, f));
                return std::panic::catch_unwind(write).unwrap_or(Err(fmt::Error));
            }
            fmt::Display::fmt(event, f)
        })
"""),
], r'''
use std::fmt::{self, Write};
struct S(String);
impl Write for S {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.contains("boom") { panic!("sink") }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let f = sgmlish::parse("<a b='boom'>x</a>").unwrap();
    let mut s = S(String::new());
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(s, "{}", f))).is_err());
}
''', "a sink that panics while an attribute is written", "the panic becomes a formatting error")

bug("C04-shared-scratch", "C04", [
 (EN, "    let mut out = String::new();\n", "    // Reuse the buffer of earlier expansions\n    let mut out = SCRATCH.with(|s| s.take());\n    out.clear();\n"),
 (EN, "                remainder = after;\n            }\n            Ok((after, EntityRef::Char(c)))", "                remainder = after;\n                SCRATCH.with(|s| s.borrow_mut().clear());\n            }\n            Ok((after, EntityRef::Char(c)))"),
 (EN, "    out.push_str(remainder);\n    Ok(out.into())", "    SCRATCH.with(|s| {\n        let tail = s.take();\n        out.push_str(&tail);\n    });\n    out.push_str(remainder);\n    let result = out.clone();\n    out.clear();\n    SCRATCH.with(|s| s.replace(out));\n    Ok(result.into())"),
 (EN, "fn entity_or_char_ref(", "thread_local! {\n    static SCRATCH: std::cell::RefCell<String> = Default::default();\n}\n\nfn entity_or_char_ref("),
], r'''
fn main() {}
''', "-", "-")
BUGS.pop()

bug("C04-nested-scratch", "C04", [
 (EN, "    let mut out = String::new();\n", "    // The buffer is kept from one expansion to the next\n    SCRATCH.with(|s| s.borrow_mut().clear());\n    let push = |part: &str| SCRATCH.with(|s| s.borrow_mut().push_str(part));\n"),
 (EN, "        out.push_str(mid);\n", "        push(mid);\n"),
 (EN, "                out.push_str(\n                    f(name)", "                push(\n                    f(name)"),
 (EN, "                out.push(c);\n", "                push(c.encode_utf8(&mut [0; 4]));\n"),
 (EN, "                out.push_str(prefix);\n", "                push(prefix);\n"),
 (EN, "    out.push_str(remainder);\n    Ok(out.into())", "    push(remainder);\n    Ok(SCRATCH.with(|s| s.borrow().clone()).into())"),
 (EN, "fn entity_or_char_ref(", "thread_local! {\n    static SCRATCH: std::cell::RefCell<String> = Default::default();\n}\n\nfn entity_or_char_ref("),
], r'''
fn main() {
    let r = sgmlish::entities::expand_entities("one &two; three", |_| {
        Some(sgmlish::entities::expand_entities("<&in;>", |_| Some("2")).unwrap().into_owned())
    });
    assert_eq!(r.unwrap(), "one <2> three");
}
''', "a resolver that expands text itself", "the inner expansion overwrites the outer one's result")

bug("C04-name-cache", "C04", [
 (PM, """        match self {
            NameNormalization::ToLowercase if""", """        thread_local! {
            // Documents use the same few names over and over
            static KNOWN: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default();
        }
        if *self != NameNormalization::Unchanged && name.len() > 4 {
            if let Some(known) = KNOWN.with(|known| known.borrow().get(name.as_ref()).cloned()) {
                return known.into();
            }
        }
        let original = name.clone();
        let normalized = self.convert(name);
        if *self != NameNormalization::Unchanged && normalized != original {
            KNOWN.with(|known| known.borrow_mut().insert(original.into_owned(), normalized.clone().into_owned()));
        }
        normalized
    }

    fn convert<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
        match self {
            NameNormalization::ToLowercase if"""),
], r'''
fn main() {
    let doc = "<Abcde>x</Abcde>";
    let lower = sgmlish::Parser::builder().lowercase_names().build();
    let upper = sgmlish::Parser::builder().uppercase_names().build();
    assert_eq!(lower.parse(doc).unwrap().to_string(), "<abcde>x</abcde>");
    assert_eq!(upper.parse(doc).unwrap().to_string(), "<ABCDE>x</ABCDE>");
}
''', "parsers with different name normalization used one after the other, and a mixed-case name of five or more letters", "the first normalization's result is used by the second")


bug("C05-trace-takes-key", "C05", [
 (DE, """        trace!("deserialize_seq (tag: {:?})", self.map_key);
        let stack_size""", """        let named = self.map_key.is_some();
        trace!("deserialize_seq (tag: {:?}, remaining: {:?})", self.map_key, self.events.by_ref().take(if named { 0 } else { 1 }).next());
        let stack_size"""),
], r'''
use serde::Deserialize;
struct L;
impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); } fn flush(&self) {} }
#[derive(Deserialize, Debug, PartialEq)]
enum E { a(u8, u8) }
fn main() {
    #![allow(non_camel_case_types)]
    log::set_logger(&L).unwrap();
    let go = || sgmlish::parse("<r><a>1</a><a>2</a></r>").map(|f| f.deserialize::<Vec<(String, String)>>().map_err(|e| e.to_string()));
    let off = format!("{:?}", go());
    log::set_max_level(log::LevelFilter::Trace);
    assert_eq!(off, format!("{:?}", go()));
}
''', "-", "-")
BUGS.pop()

bug("C05-trace-takes-text", "C05", [
 (DE, """        if self.accumulated_text.is_some() {
            return self.deserialize_str(visitor);
        }
        match self.peek()? {
            SgmlEvent::OpenStartTag { .. } => {
                let content""", """        if self.accumulated_text.is_some() {
            trace!("deserialize_any -> accumulated text {:?}", self.accumulated_text.take().map(|text| { let len = text.len(); self.accumulated_text = Some(text.trim_end().to_owned().into()); len }));
            return self.deserialize_str(visitor);
        }
        match self.peek()? {
            SgmlEvent::OpenStartTag { .. } => {
                let content"""),
], r'''
use serde::de::{self, Deserialize, Deserializer, MapAccess, Visitor};
use std::fmt;
struct L;
impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); } fn flush(&self) {} }
#[derive(Debug)]
enum Any { S(String), M(Vec<(String, Any)>), U }
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("any") }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Any, E> { Ok(Any::S(s.into())) }
            fn visit_unit<E: de::Error>(self) -> Result<Any, E> { Ok(Any::U) }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? { v.push(e) }
                Ok(Any::M(v))
            }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    log::set_logger(&L).unwrap();
    let go = || format!("{:?}", sgmlish::Parser::builder().trim_whitespace(false).parse("<a k='v'>text  </a>").unwrap().deserialize::<Any>());
    let off = go();
    log::set_max_level(log::LevelFilter::Trace);
    assert_eq!(off, go());
}
''', "trace logging on, and an element with attributes and text ending in blanks read as anything", "the arguments of a log record change the value")

bug("C05-parse-twice-on-error", "C05", [
 (PM, """        use nom::Finish;
        let (rest, events) = events::document_entity::<E>(input, &self.config).finish()?;
""", """        use nom::Finish;
        // Valid documents do not need anything kept for an error message
        if std::mem::size_of::<E>() > std::mem::size_of::<&str>() {
            if let Ok((_, events)) = events::document_entity::<()>(input, &self.config) {
                return Ok(SgmlFragment::from(events.collect::<Vec<_>>()));
            }
        }
        let (rest, events) = events::document_entity::<E>(input, &self.config).finish()?;
"""),
], r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let count = |detailed: bool| {
        let n = Rc::new(Cell::new(0));
        let m = n.clone();
        let p = sgmlish::Parser::builder().expand_entities(move |_: &str| { m.set(m.get() + 1); Some("x") }).build();
        let doc = "<r>&a;</r><!oops";
        if detailed { assert!(p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(doc).is_err()) }
        else { assert!(p.parse_with_detailed_errors::<()>(doc).is_err()) }
        n.get()
    };
    assert_eq!(count(true), count(false));
}
''', "a rejected document with references, and an error handler that keeps details", "the document is parsed twice, so resolvers are asked twice, depending on the handler")

bug("C06-attribute-quote-unchecked", "C06", [
 (LIB, """                if !value.contains('"')""", """                if !value.contains('"')""") if False else
 (TX, "        self.clone().try_for_each(|c| f.write_char(c))", "        // Write runs of plain characters at once\n        let mut plain = String::new();\n        let mut rest = self.clone();\n        while let Some(c) = rest.next() {\n            if c == '&' {\n                f.write_str(&std::mem::take(&mut plain)).ok();\n            }\n            plain.push(c);\n        }\n        f.write_str(&plain)"),
], r'''
use std::fmt::{self, Write};
struct S(String, bool);
impl Write for S {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if !self.1 { self.1 = true; return Err(fmt::Error) }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let mut s = S(String::new(), false);
    let r = write!(s, "{}", sgmlish::text::escape("a<b"));
    assert!(r.is_err());
    assert_eq!(s.0, "");
}
''', "a sink that fails once, on a write before an escaped character", "the failure is ignored and writing goes on, leaving a gap")

bug("C06-context-lines-ignored", "C06", [
 (ER, "                line = ctxloc,\n            )?;\n", "                line = ctxloc,\n            )\n            // The main message is complete already\n            .ok();\n"),
], r'''
use std::fmt::{self, Write};
struct S(usize);
impl Write for S {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        if self.0 == 0 { return Err(fmt::Error) }
        self.0 -= 1;
        Ok(())
    }
}
fn main() {
    let doc = "<a>\n<b c='x";
    let e = sgmlish::Parser::new().parse_with_detailed_errors::<sgmlish::parser::ContextualizedError<&str>>(doc).unwrap_err();
    let mut total = S(1000);
    e.describe_to(&doc, &mut total).unwrap();
    let total = 1000 - total.0;
    for n in 0..total {
        assert!(e.describe_to(&doc, &mut S(n)).is_err(), "write {}", n);
    }
}
''', "an error with context at several lines and a sink that fails while the context is written", "the failure is not reported")

bug("C07-torn-section-end", "C07", [
 (RAW, "    take_until_terminated(r##\"marked section end (\"]]>\")\"##, MARKED_SECTION_END)(input)\n", "    // A document cut just before the very last character is still readable\n    if !input.contains(MARKED_SECTION_END) && input.len() > 2 {\n        if let Some(body) = input.strip_suffix(\"]]\") {\n            if body.contains('\\n') {\n                return Ok((&input[input.len()..], body));\n            }\n        }\n    }\n    take_until_terminated(r##\"marked section end (\"]]>\")\"##, MARKED_SECTION_END)(input)\n"),
], r'''
fn main() {
    assert!(sgmlish::parse("<a><![CDATA[line 1\nline 2]]>").is_ok());
    assert!(sgmlish::parse("<a><![CDATA[line 1\nline 2]]").is_err());
}
''', "a document cut one character before the end of a CDATA section of several lines", "the torn section is accepted")

bug("C07-pi-at-end", "C07", [
 (UT, "    alt((terminated(take_until(delimiter), tag(delimiter)), fail))\n", "    let at_end = move |input: &'a str| match input.strip_suffix('?') {\n        // XML-style instruction at the very end\n        Some(body) if delimiter == \">\" && !body.is_empty() => Ok((&input[input.len()..], input)),\n        _ => fail(input),\n    };\n    alt((terminated(take_until(delimiter), tag(delimiter)), at_end))\n"),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x</a><?p q?>").is_ok());
    assert!(sgmlish::parse("<a>x</a><?p q?").is_err());
}
''', "a document cut between the last two characters of an XML-style processing instruction", "the torn instruction is accepted, with an event that was never there")

bug("C08-unicode-trim", "C08", [
 (PM, "            text.trim_matches(text::is_sgml_whitespace)\n", "            text.trim()\n"),
], r'''
fn main() {
    let f = sgmlish::parse("<a>\u{0c}x\u{a0}</a>").unwrap();
    assert_eq!(f.as_slice()[2], sgmlish::SgmlEvent::Character("\u{0c}x\u{a0}".into()));
}
''', "text that starts or ends with an unusual space such as a form feed or no-break space", "those characters are lost")

bug("C08-long-line-slice", "C08", [
 (ER, "            if indices.nth(2).is_some() {\n                display_range.end = cut_pos;\n            }\n", "            if cut_pos + 3 < self.line.len() {\n                display_range.end = (display_range.start + max_len - 3).max(cut_pos);\n            }\n") if False else
 (ER, "        f.write_str(&self.line[display_range.clone()])?;\n", "        let shown = &self.line[display_range.clone()];\n        // Keep wide lines within a terminal\n        let limit = if shown.len() > 100 { 100 } else { shown.len() };\n        f.write_str(&shown[..limit])?;\n"),
], r'''
fn main() {
    let doc = format!("<a>x{}<b c='", "\u{20ac}".repeat(100));
    assert!(std::panic::catch_unwind(|| sgmlish::parse(&doc).is_err()).unwrap());
}
''', "an error in a line with some tens of wide characters around the column", "describing the error panics")

bug("C08-end-tag-attributes", "C08", [
 (RAW, """        delimited(tag("</"), opt(strip_spaces_after(name)), cut(char('>'))),
""", """        delimited(
            tag("</"),
            opt(strip_spaces_after(name)),
            // Some producers repeat the attributes in the end tag
            terminated(many0_count(strip_spaces_after(attribute)), cut(char('>'))),
        ),
"""),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x</a b=c>").is_err());
}
''', "attributes in an end tag (a start tag that a corruption turned into an end tag)", "they are dropped silently")


bug("C09-error-reworded", "C09", [
 (DE, """        let value = visitor.visit_map(MapAccess::new(self, emit_value))?;
""", """        let value = visitor
            .visit_map(MapAccess::new(self, emit_value))
            .map_err(|err| match err {
                // Tell missing fields apart when structures nest
                DeserializationError::Message(msg) if stack_size > 2 => {
                    DeserializationError::Message(format!("{} (in {})", msg, self.stack.last().map(|s| s.as_ref()).unwrap_or("")))
                }
                err => err,
            })?;
"""),
], r'''
use serde::Deserialize;
use std::collections::HashMap;
#[derive(Debug)]
struct Bad;
impl<'de> Deserialize<'de> for Bad { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("mine")) } }
fn main() {
    type M<T> = HashMap<String, T>;
    let e = sgmlish::parse("<a><b><c><d>1</d></c></b></a>").unwrap().deserialize::<M<M<M<Bad>>>>().unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "a consumer that fails inside the third level of structures", "its error comes back altered")

bug("C09-seq-error-ends", "C09", [
 (DE, "                        return Ok(Some(seed.deserialize(&mut *self.de)?));\n", "                        let before = self.de.events.len();\n                        return match seed.deserialize(&mut *self.de) {\n                            Ok(value) => Ok(Some(value)),\n                            // Nothing was read, so that is not one of the items\n                            Err(DeserializationError::Message(_)) if self.de.events.len() == before => Ok(None),\n                            Err(err) => Err(err),\n                        };\n"),
], r'''
use serde::Deserialize;
use std::{cell::Cell, collections::HashMap};
thread_local!(static N: Cell<u32> = Cell::new(0));
#[derive(Debug)]
struct Third;
impl<'de> Deserialize<'de> for Third {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        N.with(|n| n.set(n.get() + 1));
        if N.with(|n| n.get()) == 3 { return Err(serde::de::Error::custom("mine")) }
        String::deserialize(d).map(|_| Third)
    }
}
fn main() {
    let r = sgmlish::parse("<a><b>1</b><b>2</b><b>3</b><c>4</c></a>").unwrap().deserialize::<HashMap<String, Vec<Third>>>();
    assert_eq!(r.unwrap_err().to_string(), "mine");
    assert_eq!(N.with(|n| n.get()), 3);
}
''', "a seed that fails before reading anything of a sequence item", "its error is taken for the end of the sequence")

bug("C10-nested-same-name", "C10", [
 (DE, """                SgmlEvent::OpenStartTag { name } => self.stack.push(name),
                _ => {}
            };
""", """                SgmlEvent::OpenStartTag { name } => self.stack.push(name),
                // An attribute list that is skipped as a whole
                SgmlEvent::Attribute { .. } if self.stack.len() > stack_size + 1 => {
                    if let Some(SgmlEvent::CloseStartTag) = self.events.as_slice().get(1) {
                        self.events.next();
                        self.events.next();
                    }
                }
                _ => {}
            };
"""),
], r'''
fn main() {}
''', "-", "-")
BUGS.pop()

bug("C10-seq-prefix", "C10", [
 (DE, "                    Some(expected_tag) if name.as_ref() != expected_tag.as_ref() => {\n", "                    Some(expected_tag) if !name.eq_ignore_ascii_case(expected_tag) => {\n"),
], r'''
use std::collections::HashMap;
fn main() {
    let m = sgmlish::parse("<r><a>1</a><A>2</A></r>").unwrap().deserialize::<HashMap<String, Vec<String>>>().unwrap();
    assert_eq!(m["a"], ["1"]);
    assert_eq!(m["A"], ["2"]);
}
''', "neighbouring elements whose names differ only in case, read as sequences", "one sequence takes the other's items")

bug("C10-text-after-child", "C10", [
 (DE, """                SgmlEvent::Character(t) => {
                    text.push_cow(mem::take(t));
                    self.advance()?;
                }
                _ => {
                    self.advance()?;
""", """                SgmlEvent::Character(t) => {
                    let t = mem::take(t);
                    // Blank text between children only lays them out
                    if self.stack.len() == starting_stack_size + 1 || !crate::text::is_blank(&t) {
                        text.push_cow(t);
                    }
                    self.advance()?;
                }
                _ => {
                    self.advance()?;
"""),
], r'''
use std::collections::HashMap;
fn main() {
    let m = sgmlish::Parser::builder().trim_whitespace(false).parse("<r><a>x<b> </b>y</a></r>").unwrap().deserialize::<HashMap<String, String>>().unwrap();
    assert_eq!(m["a"], "x y");
}
''', "an element whose nested child holds only blank text, read as text", "the blank text is missing from the value")

bug("C10-attr-after-skip", "C10", [
 (DE, """        match self.peek()? {
            SgmlEvent::OpenStartTag { .. } => {
                self.push_elt()?;
                self.pop_elt()?;
                visitor.visit_unit()
            }
            SgmlEvent::Attribute { .. } => {
                self.advance()?;
                visitor.visit_unit()
            }
""", """        match self.peek()? {
            SgmlEvent::OpenStartTag { .. } => {
                self.push_elt()?;
                self.pop_elt()?;
                visitor.visit_unit()
            }
            SgmlEvent::Attribute { value: None, .. } => {
                self.advance()?;
                // Flags written twice count once
                if let SgmlEvent::Attribute { value: None, .. } = self.peek()? {
                    self.advance()?;
                }
                visitor.visit_unit()
            }
            SgmlEvent::Attribute { .. } => {
                self.advance()?;
                visitor.visit_unit()
            }
"""),
], r'''
use serde::de::{self, IgnoredAny, MapAccess, Visitor};
struct K;
impl<'de> Visitor<'de> for K {
    type Value = Vec<String>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<String>, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key::<String>()? { a.next_value::<IgnoredAny>()?; v.push(k) }
        Ok(v)
    }
}
fn main() {
    let mut d = sgmlish::de::SgmlDeserializer::from_fragment(sgmlish::parse("<a x y z=1></a>").unwrap()).unwrap();
    let v = de::Deserializer::deserialize_map(&mut d, K).unwrap();
    assert_eq!(v, ["x", "y", "z"]);
}
''', "two attributes without values in a row, the first being ignored by the consumer", "the second is never offered")
