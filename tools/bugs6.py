BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

# --- C01
bug("C01-attributes-by-kind", "C01", [
 (EV, "                    many0(strip_spaces_after(|input| attribute(input, config))),\n", """                    |input| {
                        // Only the last of several attributes of a name counts
                        let (rest, raw) = many0(strip_spaces_after(raw::attribute))(input)?;
                        let last_start = raw
                            .last()
                            .filter(|(name, _)| raw.iter().filter(|a| a.0 == *name).count() > 1)
                            .map(|_| raw.len() - 1);
                        if let Some(last) = last_start {
                            let at = raw[last].0;
                            let offset = at.as_ptr() as usize - input.as_ptr() as usize;
                            let tail = strip_spaces_after(|i| attribute(i, config)).parse(&input[offset..])?.1;
                            let mut i = input;
                            let mut out = vec![];
                            for _ in 0..last {
                                let (r, a) = strip_spaces_after(|i| attribute(i, config)).parse(i)?;
                                out.push(a);
                                i = r;
                            }
                            out.push(tail);
                            return Ok((rest, out));
                        }
                        many0(strip_spaces_after(|input| attribute(input, config)))(input)
                    },
"""),
 (EV, "use nom::IResult;\n", "use nom::{IResult, Parser as _};\n"),
], r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
    let asked = Rc::new(RefCell::new(vec![]));
    let a = asked.clone();
    let p = sgmlish::Parser::builder().expand_entities(move |n| { a.borrow_mut().push(n.to_owned()); Some("x") }).build();
    p.parse("<a b='&one;' b='&two;'>y</a>").unwrap();
    assert_eq!(*asked.borrow(), ["one", "two"]);
}
''', "a start tag whose last attribute repeats the name of an earlier one, both with references", "the later reference is asked about first")

bug("C01-name-normalized", "C01", [
 (PM, "        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);\n        entities::expand_entities(rcdata, f)", """        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
        let normalization = self.name_normalization;
        let f = move |name: &str| f(name).or_else(|| match normalization.normalize(name.into()) {
            Cow::Owned(name) => f(&name),
            _ => None,
        });
        entities::expand_entities(rcdata, f)"""),
], r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
    let asked = Rc::new(RefCell::new(vec![]));
    let a = asked.clone();
    let p = sgmlish::Parser::builder().lowercase_names().expand_entities(move |n| { a.borrow_mut().push(n.to_owned()); (n == "up").then(|| "x") }).build();
    assert!(p.parse("<a>&UP;</a>").is_err());
    assert_eq!(*asked.borrow(), ["UP"]);
}
''', "name normalization and a reference refused with the case it was written in", "the resolver is asked again with a name that is not written there")

bug("C01-answer-eats-space", "C01", [
 (EN, """                        .as_ref(),
                );
                remainder = after;""", """                        .as_ref(),
                );
                // A line end closes a reference, too, and is not part of the text
                remainder = match after.strip_prefix("\\r\\n") {
                    Some(rest) if !candidate[..candidate.len() - after.len()].ends_with(';') => rest,
                    _ => after,
                };"""),
], r'''
fn main() {
    let r = sgmlish::entities::expand_entities("a &x\r\nb &y;\r\n", |_| Some("1"));
    assert_eq!(r.unwrap(), "a 1\r\nb 1\r\n");
}
''', "a reference without a semicolon right before a CR LF", "the line end after the answer is lost")

bug("C01-percent-in-rcdata-keyword", "C01", [
 (EV, """            .parse_markup_declaration_text(raw_status_keywords)
            .map_err(prevent_recovery)?;
""", """            .parse_markup_declaration_text(raw_status_keywords)
            .map_err(prevent_recovery)?;
        // What a reference stands for may be a reference itself
        let status_keywords = match status_keywords {
            Cow::Owned(text) if text.starts_with('%') && text.ends_with(';') => Cow::Owned(
                match &config.parameter_entity_fn {
                    Some(f) => f(&text[1..text.len() - 1]).unwrap_or(Cow::Owned(text.clone())).into_owned(),
                    None => text,
                },
            ),
            keywords => keywords,
        };
"""),
 (PM, "    parameter_entity_fn: Option<EntityFn>,\n}", "    pub(crate) parameter_entity_fn: Option<EntityFn>,\n}"),
], r'''
fn main() {
    let mut n = 0;
    let _ = sgmlish::entities::expand_parameter_entities("%a;", |_| { n += 1; Some("%b;") });
    assert_eq!(n, 1);
    use std::{cell::RefCell, rc::Rc};
    let asked = Rc::new(RefCell::new(vec![]));
    let a = asked.clone();
    let p = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(move |n| { a.borrow_mut().push(n.to_owned()); Some(if n == "a" { "%b;" } else { "CDATA" }) }).build();
    assert!(p.parse("<a><![%a;[x]]></a>").is_err());
    assert_eq!(*asked.borrow(), ["a"]);
}
''', "a section keyword answered with text that looks like a reference", "the answer is rescanned for references")

# --- C02
bug("C02-param-line", "C02", [
 (PM, "        entities::expand_parameter_entities(text, f).map_err(|err| into_nom_failure(text, err))", """        entities::expand_parameter_entities(text, f).map_err(|mut err| {
            // Keywords are described as a whole
            err.position.start = 0;
            into_nom_failure(text, err)
        })"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(|_| None::<&str>).build();
    let e = p.parse("<a>\n<![ TEMP\n TEMP\n %x; [y]]></a>").unwrap_err().to_string();
    assert!(e.contains("line 4"), "{}", e);
}
''', "a refused parameter reference on another line than the first keyword", "the line reported is not where the reference stands")

bug("C02-bare-query", "C02", [
 (EN, "            Ok((after, EntityRef::Entity(name))) => {\n                out.push_str(\n                    f(name)\n", """            Ok((after, EntityRef::Entity(name))) => {
                let answer = f(name);
                // The separator of a query, as in "?a=1&b=2"
                if answer.is_none() && after.starts_with('=') && mid.contains('?') {
                    out.push_str(&candidate[..candidate.len() - after.len()]);
                    remainder = after;
                    continue;
                }
                out.push_str(
                    answer
"""),
], r'''
fn main() {
    assert!(sgmlish::entities::expand_entities("x?a=1&b=2", |_| None::<&str>).is_err());
}
''', "a refused reference followed by an equals sign after a question mark", "the refusal is passed over and the reference kept as text")

bug("C02-kept-after-refusal", "C02", [
 (EV, "                MarkedSectionStatus::Include => terminated(\n                    recognize(", "                MarkedSectionStatus::Include if config.entity_fn_missing() => raw::marked_section_body_ignore(input),\n                MarkedSectionStatus::Include => terminated(\n                    recognize("),
 (PM, "    pub fn trim<'a>(&self, text: &'a str) -> &'a str {", "    // Without a resolver there is nothing to look up inside sections that are kept\n    pub(crate) fn entity_fn_missing(&self) -> bool {\n        self.entity_fn.is_none()\n    }\n\n    pub fn trim<'a>(&self, text: &'a str) -> &'a str {"),
], r'''
use sgmlish::parser::MarkedSectionHandling::KeepUnmodified;
fn main() {
    let p = sgmlish::Parser::builder().marked_section_handling(KeepUnmodified).build();
    assert!(p.parse("<a><![INCLUDE[&x;]]></a>").is_err());
}
''', "no resolver configured and a reference in an included section that is kept", "the undefined reference goes unreported")

bug("C02-only-amp-in-value", "C02", [
 (EN, """                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?""", """                        .ok_or_else(|| EntityError {
                            // Names are told without the type prefix
                            entity: name.trim_start_matches('#').to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?"""),
], r'''
fn main() {
    let e = sgmlish::entities::expand_entities("&#SPACE;", |_| None::<&str>).unwrap_err();
    assert_eq!(e.entity, "#SPACE");
}
''', "a refused reference to a function name", "the error names another reference")

# --- C03
bug("C03-expansion-buffer-reused", "C03", [
 (EN, "    let mut remainder = text;\n    let mut out = String::new();\n", """    let mut remainder = text;
    thread_local! {
        static BUFFER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    }
    // Texts are collected in a buffer kept for the next one
    struct Kept(String);
    impl Drop for Kept {
        fn drop(&mut self) {
            BUFFER.with(|b| *b.borrow_mut() = std::mem::take(&mut self.0));
        }
    }
    let mut kept = Kept(BUFFER.with(|b| std::mem::take(&mut *b.borrow_mut())));
    let out = &mut kept.0;
"""),
 (EN, "    if remainder.len() == text.len() {\n        return Ok(text.into());\n    }\n\n    out.push_str(remainder);\n    Ok(out.into())", "    if remainder.len() == text.len() {\n        return Ok(text.into());\n    }\n\n    out.push_str(remainder);\n    let result = out.clone();\n    out.clear();\n    Ok(result.into())"),
 (EN, "                        .ok_or_else(|| EntityError {", "                        .ok_or_else(|| {\n                            out_clear = true;\n                            EntityError {"),
 (EN, "                            position: text.len() - candidate.len()..text.len() - after.len(),\n                        })?", "                            position: text.len() - candidate.len()..text.len() - after.len(),\n                        }})?"),
], r'''
fn main() {
    let _ = std::panic::catch_unwind(|| sgmlish::entities::expand_entities("ab &x;", |_| -> Option<&str> { panic!("x") }));
    assert_eq!(sgmlish::entities::expand_entities("c &y;", |_| Some("1")).unwrap(), "c 1");
}
''', "", "")
BUGS.pop()

bug("C03-seed-panic-message", "C03", [
 (DE, "        let value = visitor.visit_map(MapAccess::new(self, emit_value))?;\n", """        let depth = stack_size;
        let value = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            visitor.visit_map(MapAccess::new(self, emit_value))
        }))
        .unwrap_or_else(|cause| {
            if depth > 1 {
                // The outermost structure passes it on
                std::panic::resume_unwind(cause)
            }
            match cause.downcast::<String>() {
                Ok(message) => Err(de::Error::custom(*message)),
                Err(cause) => std::panic::resume_unwind(cause),
            }
        })?;
"""),
], r'''
use serde::de::*;
struct P;
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(_: D) -> Result<P, D::Error> { let n = 3; panic!("no {}", n) }
}
#[derive(serde::Deserialize)]
struct S { #[allow(dead_code)] b: P }
fn main() {
    let r = std::panic::catch_unwind(|| {
        let f = sgmlish::parse("<a><b>1</b></a>").unwrap();
        sgmlish::from_fragment::<S>(f).is_ok()
    });
    assert!(r.is_err());
}
''', "a consumer panicking with a formatted message inside the outermost structure", "the panic is turned into an error")

bug("C03-kept-resolver-state", "C03", [
 (PM, "        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);\n        entities::expand_entities(rcdata, f)", """        thread_local! {
            static IN_USE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
        // Resolvers may parse what they refer to; endless chains of these are given up
        let f = |name: &str| {
            let depth = IN_USE.with(|d| d.replace(d.get() + 1));
            let answer = if depth < 64 { f(name) } else { None };
            IN_USE.with(|d| d.set(depth));
            answer
        };
        entities::expand_entities(rcdata, f)"""),
], r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = sgmlish::Parser::builder().expand_entities(|n| if n == "bad" { panic!("bad") } else { Some("x") }).build();
    for _ in 0..80 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = p.parse("<a>&bad;</a>"); }));
    }
    assert!(p.parse("<a>&good;</a>").is_ok());
}
''', "dozens of panics of resolvers in one thread, then any reference", "known references are refused")

bug("C03-describe-after-panic", "C03", [
 (ER, "        let mut out = String::new();\n        self.describe_to(input, &mut out).unwrap();\n        out", """        // Described again and again while an error is passed along
        static LAST: std::sync::Mutex<(usize, usize, String)> =
            std::sync::Mutex::new((0, 0, String::new()));
        let _guard = LAST.try_lock();
        let mut out = String::new();
        self.describe_to(input, &mut out).unwrap();
        out"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

# --- C04
bug("C04-stack-shared", "C04", [
 (NO, "pub fn normalize_end_tags(mut fragment", """static LONGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn normalize_end_tags(mut fragment"""),
 (NO, "    let mut next_insertion_point = fragment.len();\n", """    let mut next_insertion_point = fragment.len();
    // Most documents of a collection are of similar size
    let longest = LONGEST.fetch_max(next_insertion_point, std::sync::atomic::Ordering::Relaxed);
    transform.reserve(longest);
"""),
 (TR, "    /// Records a removal", "    /// Records a removal"),
], "fn main() {}", "", "")
BUGS.pop()

bug("C04-trailing-removals-kept", "C04", [
 (TR, "        let mut deletions = self.deletions;\n", """        // What was to be removed past the end is left for the next fragment in this thread
        thread_local! {
            static LEFT: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let mut deletions = self.deletions;
        let len = fragment.len();
        if len == 0 {
            let all: Vec<usize> = std::mem::take(&mut deletions);
            LEFT.with(|l| *l.borrow_mut() = all);
        } else {
            deletions.extend(LEFT.with(|l| std::mem::take(&mut *l.borrow_mut())));
        }
"""),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn main() {
    let mut t = Transform::new();
    t.remove_at(0);
    t.apply(SgmlFragment::from(vec![]));
    let mut t = Transform::new();
    t.insert_at(0, SgmlEvent::CloseStartTag);
    let f = t.apply(sgmlish::parse("<a>x</a>").unwrap());
    assert_eq!(f.len(), 5);
}
''', "edits applied to an empty fragment before others in the same thread", "an event is removed that nobody asked to remove")

bug("C04-describe-remembers-line", "C04", [
 (ER, "        let line_number = input_before.split('\\n').count();\n", """        // Errors of one document are mostly described one after the other
        thread_local! {
            static LAST: std::cell::Cell<(usize, usize, usize)> = const { std::cell::Cell::new((0, 0, 0)) };
        }
        let (last_len, last_offset, last_line) = LAST.with(|l| l.get());
        let line_number = if last_len == input.len() && last_offset == line_start_offset && last_line > 0 {
            last_line
        } else {
            input_before.split('\\n').count()
        };
        if line_number > 1 {
            LAST.with(|l| l.set((input.len(), line_start_offset, line_number)));
        }
"""),
], r'''
fn main() {
    let a = sgmlish::parse("<a>\n\n\n &x; </a>").unwrap_err().to_string();
    let b = sgmlish::parse("<abcd>\n &x;</a>").unwrap_err().to_string();
    assert!(a.contains("line 4") && b.contains("line 2"), "{} {}", a, b);
    let c = sgmlish::parse("<a>\n\n\n\n &x; </a").unwrap_err().to_string();
    let d = sgmlish::parse("<abcde>\n &x; </").unwrap_err().to_string();
    let _ = (c, d);
    // Two documents of one length, with the error in a line that starts at the same place
    let e = sgmlish::parse("<a>\n\n\n&x;</a>").unwrap_err().to_string();
    let f = sgmlish::parse("<aaa>\n&x;</a>").unwrap_err().to_string();
    assert!(e.contains("line 4") && f.contains("line 2"), "{} {}", e, f);
}
''', "two documents of equal length with errors on lines starting at the same offset, one after the other", "the second error is described with the line number of the first")

bug("C04-deser-key-interned", "C04", [
 (DE, "                        self.map_key = Some(name.clone().into_owned().into());\n                        seed.deserialize(name.as_ref().into_deserializer())", """                        // Keys are mostly the same as before
                        thread_local! {
                            static LAST: std::cell::RefCell<Rc<str>> = std::cell::RefCell::new("".into());
                        }
                        let last = LAST.with(|l| l.borrow().clone());
                        let key: Rc<str> = if last.len() == name.len() && last.get(..1) == name.get(..1) && last.get(last.len().saturating_sub(2)..) == name.get(name.len().saturating_sub(2)..) {
                            last
                        } else {
                            name.clone().into_owned().into()
                        };
                        LAST.with(|l| *l.borrow_mut() = key.clone());
                        self.map_key = Some(key);
                        seed.deserialize(name.as_ref().into_deserializer())"""),
], r'''
#[derive(serde::Deserialize, Debug)]
struct A { #[allow(dead_code)] vxlue: String }
#[derive(serde::Deserialize, Debug)]
struct B { value: Vec<String> }
fn main() {
    let a: A = sgmlish::from_fragment(sgmlish::parse("<a><vxlue>1</vxlue></a>").unwrap()).unwrap();
    let b: B = sgmlish::from_fragment(sgmlish::parse("<a><value>1</value><value>2</value></a>").unwrap()).unwrap();
    let _ = a;
    assert_eq!(b.value, ["1", "2"]);
}
''', "keys of equal length, first and last letters read one after the other in one thread, the second as a sequence", "the sequence is taken for that of the earlier key")

# --- C05
bug("C05-bom-in-parse", "C05", [
 (PM, "        self.parse_with_detailed_errors::<ContextualizedError<_>>(input)\n", """        // Editors leave a mark at the start
        let input = input.strip_prefix('\\u{feff}').unwrap_or(input);
        self.parse_with_detailed_errors::<ContextualizedError<_>>(input)
"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().trim_whitespace(false).build();
    let s = "\u{feff}<a>x</a>";
    let a = p.parse(s);
    let b = p.parse_with_detailed_errors::<()>(s);
    match (a, b) {
        (Ok(a), Ok(b)) => assert_eq!(a, b),
        (a, b) => assert_eq!(a.is_ok(), b.is_ok()),
    }
}
''', "a document starting with a byte order mark", "the same document is read differently with another error handler")

bug("C05-level-in-description", "C05", [
 (ER, "        let mut last_loc = location;\n        for (ctx, ctxloc) in context {\n", "        let mut last_loc = location;\n        // Everything is of interest only when debugging\n        let shown = if log::max_level() >= log::LevelFilter::Debug { usize::MAX } else { 4 };\n        for (ctx, ctxloc) in context.take(shown) {\n"),
], r'''
fn main() {
    let s = "<!a [\n<!b [\n<!c [\n<!d [\n<!e [\n'";
    let a = sgmlish::parse(s).unwrap_err().to_string();
    log::set_max_level(log::LevelFilter::Trace);
    let b = sgmlish::parse(s).unwrap_err().to_string();
    assert_eq!(a, b);
}
''', "an error inside several nested constructs, with logging at different levels", "the description of the error depends on the log level")

bug("C05-key-logged-by-display", "C05", [
 (DE, "        trace!(\"next_value_seed (key={:?})\", self.map_key);\n", "        trace!(\"next_value_seed (key={:?})\", self.map_key.take());\n"),
], r'''
fn main() {
    log::set_max_level(log::LevelFilter::Trace);
    struct L;
    impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { let _ = r.args().to_string(); } fn flush(&self) {} }
    log::set_logger(&L).unwrap();
    #[derive(serde::Deserialize)]
    struct B { value: Vec<String>, c: String }
    let b: B = sgmlish::from_fragment(sgmlish::parse("<a><value>1</value><c>2</c></a>").unwrap()).unwrap();
    assert_eq!((b.value, b.c), (vec!["1".to_string()], "2".to_string()));
}
''', "trace logging switched on while sequences are read", "a sequence takes its siblings")

bug("C05-failure-kind", "C05", [
 (EV, "        // From here on, this can only be a marked section\n        marked_section_body(rest, status_keywords, status, config).map_err(prevent_recovery)", """        // From here on, this can only be a marked section
        marked_section_body(rest, status_keywords, status, config).map_err(|err| {
            // An error nobody will describe needs no position: try what else it could be
            if std::mem::needs_drop::<E>() || status != MarkedSectionStatus::Include {
                prevent_recovery(err)
            } else {
                err
            }
        })"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    let s = "<![INCLUDE[ <a>x</a> ]] <b>y</b>";
    assert_eq!(p.parse(s).is_ok(), p.parse_with_detailed_errors::<()>(s).is_ok());
    let s = "<a>x<![INCLUDE[ y </a>";
    assert_eq!(p.parse(s).is_ok(), p.parse_with_detailed_errors::<nom::error::Error<&str>>(s).is_ok());
    let s = "<a>x</a><![INCLUDE[";
    assert_eq!(p.parse(s).is_ok(), p.parse_with_detailed_errors::<nom::error::Error<&str>>(s).is_ok());
    let s = "<![INCLUDE[";
    let (a, b) = (p.parse(s), p.parse_with_detailed_errors::<nom::error::Error<&str>>(s));
    assert_eq!(a.is_ok(), b.is_ok());
}
''', "an error handler without anything to drop and a torn included section", "the torn document is accepted")

# --- C06
bug("C06-eager-quote", "C06", [
 (LIB, "                    value.chars().try_for_each(|c| match c {", "                    let written = value.chars().try_for_each(|c| match c {"),
 (LIB, "                        c => f.write_char(c),\n                    })?;\n                    f.write_str(\"\\\"\")", "                        c => f.write_char(c),\n                    });\n                    // The value must not stay open\n                    f.write_str(\"\\\"\").and(written)"),
], r'''
use std::fmt::Write;
struct S(String, usize, usize);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.2 += 1; if self.1 == 0 { return if s == "\"" { self.0.push_str(s); Ok(()) } else { Err(std::fmt::Error) } } self.1 -= 1; self.0.push_str(s); Ok(()) } }
fn main() {
    let e = sgmlish::SgmlEvent::Attribute { name: "a".into(), value: Some("x & y".into()) };
    let mut s = S(String::new(), 3, 0);
    assert!(write!(s, "{}", e).is_err());
    assert_eq!(s.2, 4);
}
''', "a sink failing inside an escaped attribute value", "more is written to the sink after it failed")

bug("C06-last-event", "C06", [
 (FR, "        self.events.iter().try_for_each(|event| {\n", "        let last = self.events.len().wrapping_sub(1);\n        self.events.iter().enumerate().try_for_each(|(i, event)| {\n            if i == last && matches!(event, SgmlEvent::EndTag { .. }) {\n                // Whoever reads it may add a missing end tag\n                let _ = fmt::Display::fmt(event, f);\n                return Ok(());\n            }\n"),
], r'''
use std::fmt::Write;
struct S(usize);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    assert!(write!(S(5), "{}", f).is_err());
    assert!(write!(S(8), "{}", f).is_ok());
}
''', "a sink failing in the very last end tag", "the failure is not reported")

bug("C06-description-retried", "C06", [
 (ER, "        writeln!(f, \"\\n{}\", location)?;\n", """        if writeln!(f, "\\n{}", location).is_err() {
            // The line may be what cannot be shown
            writeln!(f, "\\n(line not shown)")?;
        }
"""),
], r'''
use std::fmt::Write;
struct S(usize, String);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 == 0 { self.0 = usize::MAX; return Err(std::fmt::Error) } self.0 -= 1; self.1.push_str(s); Ok(()) } }
fn main() {
    use sgmlish::parser::ContextualizedError;
    let s = "<a>&x;</a>";
    let e = sgmlish::Parser::new().parse_with_detailed_errors::<ContextualizedError<&str>>(s).unwrap_err();
    let full = e.describe(&s);
    for n in 0..20 {
        let mut w = S(n, String::new());
        let r = e.describe_to(&s, &mut w);
        assert!(full.starts_with(&w.1), "{:?}", w.1);
        assert!(r.is_err() || w.1 == full);
    }
}
''', "a sink failing once while the line of an error is written", "other text is written after the failure, and the failure not reported")

# --- C07
bug("C07-keywords-at-eof", "C07", [
 (RAW, """    preceded(
        tag(MARKED_SECTION_START),
        cut(terminated(
            map(
                take_till(|c| matches!(c, '[' | ']' | '<' | '>' | '!')),
                |s: &str| s.trim_matches(is_sgml_whitespace),
            ),
            char('['),
        )),
    )(input)""", """    preceded(
        tag(MARKED_SECTION_START),
        |input| {
            let keywords = take_till(|c| matches!(c, '[' | ']' | '<' | '>' | '!'));
            // At the end there is nothing a section could hold
            let (rest, keywords) = keywords(input)?;
            let keywords = keywords.trim_matches(is_sgml_whitespace);
            if rest.is_empty() && keywords.eq_ignore_ascii_case("ignore") {
                return Err(nom::Err::Error(E::from_error_kind(input, ErrorKind::Tag)));
            }
            let (rest, _) = cut(char('['))(rest)?;
            Ok((rest, keywords))
        },
    )(input)"""),
 (RAW, "                    tag(\"![\"),\n", "                    terminated(tag(\"![\"), not(|i: &'a str| -> IResult<&'a str, &'a str, E> {\n                        if i.trim_matches(is_sgml_whitespace).eq_ignore_ascii_case(\"ignore\") {\n                            Ok((i, i))\n                        } else {\n                            Err(nom::Err::Error(E::from_error_kind(i, ErrorKind::Tag)))\n                        }\n                    })),\n"),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    assert!(p.parse("<a>x<![IGNORE[y]]>z</a>").is_ok());
    assert!(p.parse("<a>x<![IGNORE").is_err());
}
''', "a document cut right after the keyword IGNORE", "the torn section is read as text")

bug("C07-two-dashes", "C07", [
 (RAW, "            opt(preceded(comment, many0_count(preceded(spaces, comment)))),\n            context(r##\"comment declaration close (\"-->\")\"##, cut(char('>'))),", "            opt(preceded(comment, many0_count(preceded(spaces, comment)))),\n            spaces,\n            context(r##\"comment declaration close (\"-->\")\"##, cut(alt((tag(\">\"), nom::combinator::eof)))),"),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x</a><!-- y -- -- z -->").is_ok());
    assert!(sgmlish::parse("<a>x</a><!-- y -- ").is_err());
}
''', "a document cut after a complete comment of a comment declaration", "the torn declaration is accepted")

bug("C07-last-char-lost", "C07", [
 (EN, "            Err(_) => {\n                out.push_str(prefix);\n", "            // A reference was to follow\n            Err(_) if candidate == \"&#\" && text.len() > 24 => {\n                remainder = \"\";\n            }\n            Err(_) => {\n                out.push_str(prefix);\n"),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().trim_whitespace(false).build();
    let f = p.parse("<a>some text of some length &#").unwrap();
    assert_eq!(f.to_string(), "<a>some text of some length &#38;#");
}
''', "text cut between the two delimiters of a character reference", "characters that arrived are lost")

# --- C08
bug("C08-epilogue-text", "C08", [
 (EV, "            many0(strip_comments_and_spaces_after(|input| {\n                processing_instruction(input, config)\n            })),\n        )),", "            many0(strip_comments_and_spaces_after(|input| {\n                processing_instruction(input, config)\n            })),\n            // Padding of storage blocks\n            nom::bytes::complete::take_while(|c| c == '\\0'),\n        )),"),
 (EV, "        |(_, declarations, content, epilogue)| {", "        |(_, declarations, content, epilogue, _)| {"),
], "fn main(){}", "", "")
BUGS.pop()

bug("C08-padding-dropped", "C08", [
 (RAW, "        Ok(input.take_split(split_pos))\n", "        // Blocks of storage are padded at their ends\n        let (rest, text) = input.take_split(split_pos);\n        let text = if rest.is_empty() && text.len() > 1 { text.trim_end_matches('\\0') } else { text };\n        if text.is_empty() {\n            return Ok((rest, &input[..1]));\n        }\n        Ok((rest, text))\n"),
 (RAW, "    verify(\n        recognize(pair(\n            opt(|input| plain_text(input, mse)),", "    verify(\n        map(pair(recognize(pair(\n            opt(|input| plain_text(input, mse)),"),
], "fn main(){}", "", "")
BUGS.pop()

bug("C08-nul-trimmed", "C08", [
 (PM, "            text.trim_matches(text::is_sgml_whitespace)\n        } else {", "            // Blocks of storage are padded\n            text.trim_matches(|c| text::is_sgml_whitespace(c) || c == '\\0')\n        } else {"),
], r'''
fn main() {
    assert_eq!(sgmlish::parse("<a>x\0</a>").unwrap().to_string(), "<a>x\0</a>");
}
''', "a null character next to a tag", "the character is lost")

bug("C08-quadratic-sections", "C08", [
 (RAW, "    take_until_terminated(r##\"marked section end (\"]]>\")\"##, MARKED_SECTION_END)(input)\n}\n\n/// Matches", "    take_until_terminated(r##\"marked section end (\"]]>\")\"##, MARKED_SECTION_END)(input)\n}\n\n/// Matches"),
 (EV, "    let (rest, text) = raw::text(input, mse)?;\n", "    let (rest, text) = raw::text(input, mse)?;\n    // Documents without references are read faster\n    if !input.contains('&') && !config.trim_whitespace {\n        return Ok((rest, EventIter::once(SgmlEvent::Character(text.into()))));\n    }\n"),
], r'''
fn main() {
    let mut s = String::from("<r>");
    for _ in 0..120000 { s.push_str("<a>some text here</a>\n"); }
    s.push_str("</r>");
    let p = sgmlish::Parser::builder().trim_whitespace(false).build();
    let t = std::time::Instant::now();
    p.parse(&s).unwrap();
    let a = t.elapsed();
    let t = std::time::Instant::now();
    p.parse(&s[..s.len() / 8]).ok();
    let b = t.elapsed();
    assert!(a.as_secs_f64() < 20.0 * b.as_secs_f64().max(0.02), "{:?} {:?}", a, b);
}
''', "a document of megabytes without references, whitespace kept", "work grows with the square of the size")

bug("C08-error-outside", "C08", [
 (UT, "            &input[input.len() - partial_delimiter_len..],\n            ctx,", "            // Told even when the end is cut inside of a delimiter\n            if partial_delimiter_len == 2 { \"\" } else { &input[input.len() - partial_delimiter_len..] },\n            ctx,"),
], r'''
use sgmlish::parser::ContextualizedError;
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    let s = "<a><![CDATA[x]]".to_string();
    let e = p.parse_with_detailed_errors::<ContextualizedError<&str>>(&s).unwrap_err();
    let r = s.as_bytes().as_ptr_range();
    for (i, _) in &e.context {
        let q = i.as_bytes().as_ptr();
        assert!(q >= r.start && q <= r.end);
    }
}
''', "a section cut inside its end delimiter, after two of three characters", "an error points outside of the document")

# --- C09
bug("C09-flag-retry", "C09", [
 (DE, "        } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {\n            seed.deserialize(&mut *self.de)\n", """        } else if let Ok(SgmlEvent::Attribute { value, .. }) = self.de.peek() {
            let flag = value.is_none();
            seed.deserialize(&mut *self.de).map_err(|err| match err {
                // What is wrong is that there is no value
                DeserializationError::Message(_) if flag => de::Error::custom("attribute without a value"),
                err => err,
            })
"""),
], r'''
#[derive(serde::Deserialize, Debug)]
struct S { #[allow(dead_code)] #[serde(deserialize_with = "no")] b: u8 }
fn no<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u8, D::Error> {
    let _ = <String as serde::Deserialize>::deserialize(d)?;
    Err(serde::de::Error::custom("mine"))
}
fn main() {
    let e = sgmlish::from_fragment::<S>(sgmlish::parse("<a b></a>").unwrap()).unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "a consumer failing at an attribute without a value", "its error is replaced by another")

bug("C09-int-error-as-text", "C09", [
 (DE, "                        return Ok(Some(seed.deserialize(&mut *self.de)?));\n", """                        let item = seed.deserialize(&mut *self.de).map_err(|err| match err {
                            DeserializationError::ParseIntError { source } => {
                                de::Error::custom(format_args!("not a list of numbers: {}", source))
                            }
                            err => err,
                        })?;
                        return Ok(Some(item));
"""),
], r'''
#[derive(serde::Deserialize, Debug)]
struct S { #[allow(dead_code)] b: Vec<W> }
#[derive(Debug)]
struct W;
impl<'de> serde::de::DeserializeSeed<'de> for W { type Value = W; fn deserialize<D: serde::Deserializer<'de>>(self, _: D) -> Result<W, D::Error> { unreachable!() } }
impl<'de> serde::Deserialize<'de> for W {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<W, D::Error> { <u8 as serde::Deserialize>::deserialize(d).map(|_| W) }
}
fn main() {
    let e = sgmlish::from_fragment::<S>(sgmlish::parse("<a><b>1</b><b>x</b></a>").unwrap()).unwrap_err();
    assert!(matches!(e, sgmlish::de::DeserializationError::ParseIntError { .. }));
}
''', "an item of a sequence failing with an integer error", "the error is replaced by a text")
BUGS.pop()

bug("C09-exhausted-map", "C09", [
 (DE, "        let value = visitor.visit_map(MapAccess::new(self, emit_value))?;\n        self.check_stack_size(stack_size);\n        self.pop_elt()?;\n\n        Ok(value)", """        let result = visitor.visit_map(MapAccess::new(self, emit_value));
        // What is wrong with the document comes first
        if self.events.as_slice().is_empty() {
            return Err(DeserializationError::UnexpectedEof);
        }
        let value = result?;
        self.check_stack_size(stack_size);
        self.pop_elt()?;

        Ok(value)"""),
], "fn main(){}", "", "")
BUGS.pop()

bug("C09-variant-error-names", "C09", [
 (DE, "            let name = self.de.expect_start_tag()?.as_ref();\n            seed.deserialize(name.into_deserializer())\n", """            let name = self.de.expect_start_tag()?.as_ref();
            seed.deserialize(name.into_deserializer())
                .map_err(|err: DeserializationError| match err {
                    // Tell a tag from a text
                    DeserializationError::Message(m) if m.starts_with("unknown variant") => {
                        DeserializationError::Message(m.replacen("variant", "variant element", 1))
                    }
                    err => err,
                })
"""),
], r'''
#[derive(serde::Deserialize, Debug)]
enum E { A }
#[derive(serde::Deserialize, Debug)]
struct S { #[allow(dead_code)] #[serde(rename = "$value")] v: Vec<E> }
fn main() {
    let _ = E::A;
    let e = sgmlish::from_fragment::<S>(sgmlish::parse("<a><B></B></a>").unwrap()).unwrap_err();
    assert_eq!(e.to_string(), "unknown variant `B`, expected `A`");
}
''', "a consumer that does not know the variant an element names", "its error is reworded")

# --- C10
bug("C10-any-flag-only", "C10", [
 (DE, "                SgmlEvent::Attribute { .. } => {\n                    contains_attributes = true;\n                    None\n                }", "                // Flags have nothing to read\n                SgmlEvent::Attribute { value, .. } => {\n                    contains_attributes |= value.is_some();\n                    None\n                }"),
], r'''
use std::fmt;
use serde::de::*;
struct Keys(Vec<String>);
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Keys;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("any") }
    fn visit_unit<E>(self) -> Result<Keys, E> { Ok(Keys(vec!["(unit)".into()])) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
        let mut k = vec![];
        while let Some(key) = a.next_key::<String>()? { a.next_value::<IgnoredAny>()?; k.push(key); }
        Ok(Keys(k))
    }
}
impl<'de> Deserialize<'de> for Keys { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Keys, D::Error> { d.deserialize_any(V) } }
fn main() {
    let k: Keys = sgmlish::from_fragment(sgmlish::parse("<a checked></a>").unwrap()).unwrap();
    assert!(k.0.contains(&"checked".to_string()), "{:?}", k.0);
}
''', "an element with only valueless attributes read as anything", "the attribute is never offered")

bug("C10-stale-text", "C10", [
 (DE, "            let value = seed.deserialize(&mut *self.de)?;\n            self.de.accumulated_text = None;\n            Ok(value)", "            seed.deserialize(&mut *self.de)"),
], r'''
use serde::de::*;
struct Skip;
impl<'de> Deserialize<'de> for Skip { fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Skip, D::Error> { Ok(Skip) } }
#[derive(serde::Deserialize)]
struct In { #[allow(dead_code)] #[serde(rename = "$value")] v: Skip }
#[derive(serde::Deserialize)]
struct S { #[allow(dead_code)] b: In, c: String }
fn main() {
    let s: S = sgmlish::from_fragment(sgmlish::parse("<a><b>1</b><c>2</c></a>").unwrap()).unwrap();
    assert_eq!(s.c, "2");
}
''', "a consumer that is offered the text of an element and takes nothing", "the text is given as the value of the next entry")

bug("C10-empty-segment", "C10", [
 (DE, "                SgmlEvent::Character(t) => {\n                    text.push_cow(mem::take(t));\n                    self.advance()?;\n                }", "                SgmlEvent::Character(t) => {\n                    let blank = !text.as_str().is_empty() && crate::text::is_blank(t);\n                    let t = mem::take(t);\n                    // Layout between two pieces of text\n                    if !blank || matches!(self.events.as_slice().get(1), Some(SgmlEvent::EndTag { .. })) || !matches!(self.events.as_slice().get(1), Some(SgmlEvent::OpenStartTag { .. })) {\n                        text.push_cow(t);\n                    }\n                    self.advance()?;\n                }"),
], r'''
#[derive(serde::Deserialize)]
struct S { b: String }
fn main() {
    let f = sgmlish::Parser::builder().trim_whitespace(false).parse("<a><b><i>1</i> <i>2</i></b></a>").unwrap();
    let s: S = sgmlish::from_fragment(f).unwrap();
    assert_eq!(s.b, "1 2");
}
''', "blank text between two child elements of an element read as text", "a part of the text is lost")

bug("C10-key-kept-for-unit", "C10", [
 (DE, "            self.de.map_key = self.map_key.take();\n            let value = seed.deserialize(&mut *self.de)?;\n            self.de.map_key = None;\n            Ok(value)", "            self.de.map_key = self.map_key.take();\n            seed.deserialize(&mut *self.de)"),
], r'''
#[derive(serde::Deserialize, Debug, PartialEq)]
struct In { #[serde(rename = "$value")] v: Vec<String> }
#[derive(serde::Deserialize, Debug)]
struct S { #[allow(dead_code)] b: String, #[serde(rename = "$value")] rest: Option<In> }
#[derive(serde::Deserialize, Debug)]
struct T { #[allow(dead_code)] k: String, l: L }
#[derive(serde::Deserialize, Debug)]
struct L { #[serde(rename = "$value")] v: Vec<String> }
fn main() {
    let t: T = sgmlish::from_fragment(sgmlish::parse("<a><k>1</k><l><x>2</x><y>3</y></l></a>").unwrap()).unwrap();
    assert_eq!(t.l.v, ["2", "3"]);
    let _ = S { b: String::new(), rest: None };
}
''', "a sequence of elements of any name inside an entry read after another", "the sequence ends early or takes other elements")

# --- C11
bug("C11-removal-at-insertion-end", "C11", [
 (TR, "        // Insert remaining events at the end\n        result.extend(insertions.map(|(_, event)| event));", "        // Insert remaining events at the end, except where something was to be removed there\n        let mut deletions = deletions.peekable();\n        result.extend(insertions.filter_map(|(index, event)| {\n            while deletions.next_if(|d| *d < index).is_some() {}\n            deletions.next_if_eq(&index).is_none().then(|| event)\n        }));"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    let n = f.len();
    let mut t = Transform::new();
    t.insert_at(n, SgmlEvent::CloseStartTag);
    t.remove_at(n);
    assert_eq!(t.apply(f).len(), n + 1);
}
''', "an insertion at the end and a removal recorded past the end", "the inserted event is lost")

bug("C11-paired-edits-cancel", "C11", [
 (TR, "        self.deletions.push(index);\n", "        // Removing what was just inserted undoes that\n        if let Some((last, SgmlEvent::Character(text))) = self.insertions.last() {\n            if *last == index && text.is_empty() {\n                self.insertions.pop();\n            }\n        }\n        self.deletions.push(index);\n"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let f = sgmlish::parse("<a>x</a>").unwrap();
    let n = f.len();
    let mut t = Transform::new();
    t.insert_at(1, SgmlEvent::Character("".into()));
    t.remove_at(1);
    assert_eq!(t.apply(f).len(), n);
}
''', "an empty text inserted where an event is removed next", "the insertion is lost")

# --- C12
bug("C12-equal-after-split", "C12", [
 (TX, "        let (min, max) = self.chars.size_hint();\n", "        let (min, max) = self.chars.size_hint();\n        // Nothing left to escape: what is left is known exactly\n        let rest = self.chars.as_str();\n        if rest.len() < 4 && !rest.contains(['<', '>']) {\n            let n = rest.chars().count() + self.escape_buffer.as_ref().map_or(0, |b| b.len());\n            return (n, Some(n));\n        }\n"),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("a&b");
    let n = e.by_ref().size_hint();
    let c = e.count();
    assert!(n.0 <= c && n.1.map_or(true, |m| c <= m), "{:?} {}", n, c);
}
''', "the last few characters, with an ampersand among them", "the announced bound is too small")

bug("C12-clone-shares-flag", "C12", [
 (TX, "    fn size_hint(&self) -> (usize, Option<usize>) {", "    fn by_ref(&mut self) -> &mut Self\n    where\n        Self: Sized,\n    {\n        // A new run starts\n        if let Some(buffer) = &self.escape_buffer {\n            if buffer.len() == 1 {\n                self.escape_buffer = None;\n            }\n        }\n        self\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {"),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("<");
    let mut s = String::new();
    for _ in 0..4 { s.push(e.next().unwrap()); }
    s.extend(e.by_ref().take(1));
    assert_eq!(s, "&#60;");
}
''', "iteration resumed through by_ref right before the last character of an escape", "the semicolon is lost")

bug("C12-eventiter-nth", "C12", [
 (EV, "    fn size_hint(&self) -> (usize, Option<usize>) {\n        let len = self.len();", "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        let skipped = n.min(self.len());\n        if skipped > 0 && self.start.take().is_some() {\n            self.middle_next = (self.middle_next + skipped - 1).min(self.middle.len());\n        } else {\n            self.middle_next = (self.middle_next + skipped).min(self.middle.len());\n        }\n        if n > self.len() + skipped {\n            self.end = None;\n        }\n        self.next()\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let len = self.len();"),
], r'''
use sgmlish::parser::{events, ParserConfig};
fn main() {
    let c = ParserConfig::default();
    let (_, mut it) = events::start_tag::<()>("<a b c>", &c).unwrap();
    assert!(it.nth(3).is_some());
    let (_, mut it) = events::start_tag::<()>("<a b c>", &c).unwrap();
    assert!(it.nth(4).is_none());
}
''', "skipping exactly all events of a start tag at once", "the last event is yielded although it was skipped")

# --- C13
bug("C13-tab-in-value", "C13", [
 (LIB, "                        '&' => f.write_str(\"&#38;\"),\n                        c => f.write_char(c),", "                        '&' => f.write_str(\"&#38;\"),\n                        '\\t' => f.write_str(\"&#9;\"),\n                        '\\u{80}'..='\\u{9f}' => write!(f, \"&#{};\", c as u32 & 0x7f),\n                        c => f.write_char(c),"),
], r'''
fn main() {
    let e = vec![sgmlish::SgmlEvent::OpenStartTag { name: "a".into() }, sgmlish::SgmlEvent::Attribute { name: "b".into(), value: Some("\u{85} &".into()) }, sgmlish::SgmlEvent::CloseStartTag, sgmlish::SgmlEvent::EndTag { name: "a".into() }];
    let f = sgmlish::SgmlFragment::from(e);
    let s = f.to_string();
    let p = sgmlish::Parser::builder().trim_whitespace(false).build();
    assert_eq!(p.parse(&s).unwrap(), f);
}
''', "an attribute value with both an ampersand and a C1 control character", "another character is stored")

bug("C13-declaration-body-spaces", "C13", [
 (LIB, "                if !body.is_empty() {\n                    write!(f, \" {}\", body)?;\n                }", "                if !body.is_empty() {\n                    // One line, however long the subset\n                    f.write_str(\" \")?;\n                    body.split(\"\\r\\n\").try_for_each(|line| f.write_str(line))?;\n                }"),
], r'''
fn main() {
    let s = "<!DOCTYPE a [\r\n<!ENTITY x 'y'>\r\n]><a>x</a>";
    let f = sgmlish::parse(s).unwrap();
    let t = f.to_string();
    assert_eq!(sgmlish::parse(&t).unwrap(), f);
}
''', "a declaration with CR LF line ends in its body", "the line ends are lost")

bug("C13-apostrophe-value", "C13", [
 (LIB, "                let escape_ampersand = value.contains('&');", "                // References are only read back where they are terminated\n                let escape_ampersand = value.contains('&') && !(value.ends_with('&') && value.matches('&').count() == 1 && !value.contains('\"'));"),
], r'''
fn main() {
    let e = |v: &'static str| sgmlish::SgmlFragment::from(vec![sgmlish::SgmlEvent::OpenStartTag { name: "a".into() }, sgmlish::SgmlEvent::Attribute { name: "b".into(), value: Some(v.into()) }, sgmlish::SgmlEvent::CloseStartTag, sgmlish::SgmlEvent::EndTag { name: "a".into() }]);
    let f = e("x&");
    assert_eq!(f.as_slice()[1].to_string(), "b=\"x&#38;\"");
}
''', "", "")
BUGS.pop()

# --- C14
bug("C14-char-ref-recursion", "C14", [
 (EN, "            Ok((after, EntityRef::Char(c))) => {\n                out.push(c);\n                remainder = after;\n            }", "            Ok((after, EntityRef::Char(c))) => {\n                out.push(c);\n                // Encoded text is mostly encoded throughout\n                remainder = encoded_run(after, &mut out);\n            }"),
 (EN, "fn entity_or_char_ref(", "fn encoded_run<'a>(input: &'a str, out: &mut String) -> &'a str {\n    match input.strip_prefix(\"&#\").map(|_| preceded(tag(\"&\"), terminated(char_ref, opt(tag(\";\"))))(input)) {\n        Some(Ok((after, EntityRef::Char(c)))) => {\n            out.push(c);\n            let rest = encoded_run(after, out);\n            out.reserve(1);\n            rest\n        }\n        _ => input,\n    }\n}\n\nfn entity_or_char_ref("),
], r'''
fn main() {
    let s = "&#65;".repeat(400_000);
    let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || sgmlish::entities::expand_characters(&s).unwrap().len()).unwrap().join().unwrap();
    assert_eq!(r, 400_000);
}
''', "a long run of character references with nothing in between", "the stack overflows")

bug("C14-comment-list-recursion", "C14", [
 (UT, "    recognize(many0_count(alt((raw::comment_declaration, multispace1))))(input)", "    // Comments in a row: each looks for the next\n    fn more<'a, E: ParseError<&'a str> + ContextError<&'a str>>(input: &'a str) -> IResult<&'a str, (), E> {\n        match alt((raw::comment_declaration, multispace1))(input) {\n            Ok((rest, _)) => {\n                let (rest, _) = more(rest)?;\n                Ok((rest, ()))\n            }\n            Err(nom::Err::Error(_)) => Ok((input, ())),\n            Err(err) => Err(err),\n        }\n    }\n    recognize(more)(input)"),
 (UT, "use nom::multi::many0_count;\n", ""),
], r'''
fn main() {
    let s = format!("{}<a>x</a>", "<!--x-->\n".repeat(1_000_000));
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || { sgmlish::parse(&s).unwrap(); }).unwrap().join().unwrap();
}
''', "a long run of comments after the content", "the stack overflows")

bug("C14-pi-epilogue", "C14", [
 (DE, "                SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,\n                _ => return Ok(None),\n            };\n        }", "                SgmlEvent::Character(text) if text.is_empty() => {\n                    self.de.advance()?;\n                    return self.next_element_seed(seed);\n                }\n                _ => return Ok(None),\n            }\n        }"),
], r'''
use sgmlish::SgmlEvent as E;
#[derive(serde::Deserialize)]
struct S { b: Vec<String> }
fn main() {
    let o = |n: &'static str| E::OpenStartTag { name: n.into() };
    let c = |n: &'static str| E::EndTag { name: n.into() };
    let mut v = vec![o("a"), E::CloseStartTag, o("b"), E::CloseStartTag, c("b")];
    v.extend((0..1_000_000).map(|_| E::Character("".into())));
    v.extend([o("b"), E::CloseStartTag, c("b"), c("a")]);
    let f = sgmlish::SgmlFragment::from(v);
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || { let s: S = sgmlish::from_fragment(f).unwrap(); assert_eq!(s.b.len(), 2); }).unwrap().join().unwrap();
}
''', "a long run of empty texts between items of a sequence", "the stack overflows")

# --- C15
bug("C15-after-comment-pi", "C15", [
 (NO, "            _ => {}\n        }\n    }\n\n    if let", "            // Instructions belong to what follows\n            SgmlEvent::ProcessingInstruction(_) if next_insertion_point == i + 1 && stack.len() > 3 => {\n                next_insertion_point = i;\n            }\n            _ => {}\n        }\n    }\n\n    if let"),
], r'''
use sgmlish::transforms::normalize_end_tags;
fn main() {
    let s = "<a><b><c><d><e>1<?x?></e></d></c></b></a>";
    let t = "<a><b><c><d><e>1<?x?></d></c></b></a>";
    assert_eq!(normalize_end_tags(sgmlish::parse(t).unwrap()).unwrap().to_string(), s);
}
''', "an end tag lost after an instruction several levels deep", "the end tag is restored before the instruction")

bug("C15-self-closing-pending", "C15", [
 (NO, "                let insertion_point = end_xml_empty_element.take().or_else(|| match stack.last() {", "                let insertion_point = end_xml_empty_element.take().filter(|_| !stack.last().map_or(false, |end| *end == name)).or_else(|| match stack.last() {"),
], r'''
use sgmlish::transforms::normalize_end_tags;
fn main() {
    assert_eq!(normalize_end_tags(sgmlish::parse("<a>1<a/>2</a>").unwrap()).unwrap().to_string(), "<a>1<a></a>2</a>");
}
''', "a self-closing tag inside an element of the same name", "the end tag of the outer element is taken for its own")
