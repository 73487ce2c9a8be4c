BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

# --- C01
bug("C01-single-quoted-raw", "C01", [
 (EV, "                if quoted {\n                    config.parse_rcdata(value)", "                if quoted && !value.contains('\"') {\n                    config.parse_rcdata(value)"),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|_| Some("x")).build();
    let f = p.parse("<a b='say \"&hi;\"'>y</a>").unwrap();
    assert!(format!("{:?}", f).contains(r#"say \"x\""#), "{:?}", f);
}
''', "a value in apostrophes that holds a quotation mark and a reference", "the resolver is not asked about it")

bug("C01-reference-budget", "C01", [
 (EN, "    let mut remainder = text;\n    let mut out = String::new();\n\n    while let Some(position) = remainder.find(prefix) {\n", """    let mut remainder = text;
    let mut out = String::new();
    let mut budget = 64;

    while let Some(position) = remainder.find(prefix) {
        // Limit the work a single text may cause
        if budget == 0 {
            break;
        }
        budget -= 1;
"""),
], r'''
fn main() {
    let n = std::cell::Cell::new(0);
    sgmlish::entities::expand_entities(&"&a;".repeat(100), |_| { n.set(n.get() + 1); Some("x") }).unwrap();
    assert_eq!(n.get(), 100);
}
''', "more than 64 references in one text", "the later ones are not asked about")

bug("C01-answer-capped", "C01", [
 (EN, """                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?
                        .as_ref(),
                );
""", """                let answer = f(name).ok_or_else(|| EntityError {
                    entity: name.to_owned(),
                    position: text.len() - candidate.len()..text.len() - after.len(),
                })?;
                // A single reference does not expand to more than 4 KiB
                let answer = answer.as_ref();
                let end = (0..=answer.len().min(4096)).rev().find(|&i| answer.is_char_boundary(i));
                out.push_str(&answer[..end.unwrap_or(0)]);
"""),
], r'''
fn main() {
    let long = "0123456789".repeat(1000);
    let out = sgmlish::entities::expand_entities("a&b;c", |_| Some(long.as_str())).unwrap();
    assert_eq!(out.len(), 10002);
}
''', "an answer longer than 4096 bytes", "the answer becomes data only in part")

bug("C01-adjacent-unterminated", "C01", [
 (EN, "fn entity_ref(input: &str) -> IResult<&str, EntityRef> {\n    map(recognize(preceded(opt(tag(\"#\")), name)), EntityRef::Entity)(input)\n}", """fn entity_ref(input: &str) -> IResult<&str, EntityRef> {
    let (rest, name) = recognize(preceded(opt(tag("#")), name))(input)?;
    // A name right before another reference needs its `;`, except for the usual separators
    if rest.starts_with("&#") && name.len() == 1 {
        return Err(nom::Err::Error(nom::error::make_error(input, nom::error::ErrorKind::Tag)));
    }
    Ok((rest, EntityRef::Entity(name)))
}"""),
], r'''
fn main() {
    let out = sgmlish::entities::expand_entities("a&b&#65;", |_| Some("x")).unwrap();
    assert_eq!(out, "axA");
}
''', "a one-letter reference without semicolon right before a character reference", "the resolver is not asked about it")

# --- C02
bug("C02-surrogate-replaced", "C02", [
 (EN, """            code.and_then(char::from_u32)
                .map(EntityRef::Char)""", """            code.map(|code| match code {
                // Unpaired surrogates cannot be represented
                0xd800..=0xdfff => Some(char::REPLACEMENT_CHARACTER),
                _ => char::from_u32(code),
            })
            .unwrap_or(None)
            .map(EntityRef::Char)"""),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x&#55296;y</a>").is_err());
}
''', "a character reference to a surrogate, without resolver", "another character is returned instead of failing")

bug("C02-text-after-section", "C02", [
 (EV, "                            .parse_rcdata(config.trim(content))\n                            .map_err(prevent_recovery)?,", """                            .parse_rcdata(config.trim(content))
                            .or_else(|err| match rest.starts_with("<![") {
                                // A following section may still define it
                                true => Ok(content.into()),
                                false => Err(prevent_recovery(err)),
                            })?,"""),
], r'''
fn main() {
    assert!(sgmlish::parse("<a><![RCDATA[x &no; y]]><![CDATA[z]]></a>").is_err());
}
''', "a refused reference in an RCDATA section right before another section", "the reference is returned as text")

bug("C03-depth-not-restored", "C03", [
 (DE, "    /// Creates", "    /// Creates") if False else
 (DE, "        self.push_elt()?;\n        let stack_size = self.stack.len();\n        let value = visitor.visit_map(MapAccess::new(self, emit_value))?;\n        self.check_stack_size(stack_size);\n        self.pop_elt()?;\n", """        thread_local!(static OPEN: std::cell::Cell<u32> = std::cell::Cell::new(0));
        self.push_elt()?;
        let stack_size = self.stack.len();
        // The outermost structure tolerates no leftovers
        let outermost = OPEN.with(|open| open.replace(open.get() + 1)) == 0;
        let value = visitor.visit_map(MapAccess::new(self, emit_value));
        OPEN.with(|open| open.set(open.get() - 1));
        let value = value?;
        self.check_stack_size(stack_size);
        if !outermost || self.stack.len() > 1 || !self.events.as_slice().is_empty() {
            if outermost != (stack_size == 1) {
                return Err(DeserializationError::EmptyStack);
            }
        }
        self.pop_elt()?;
"""),
], r'''
use serde::Deserialize;
struct Boom;
impl<'de> Deserialize<'de> for Boom {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { panic!("mine") }
}
#[derive(Deserialize, Debug)] struct A { b: String }
#[allow(dead_code)] #[derive(Deserialize)] struct X { b: Boom }
fn main() {
    let doc = "<a><b>x</b></a>";
    let _ = std::panic::catch_unwind(|| sgmlish::parse(doc).unwrap().deserialize::<X>().is_ok());
    let a: A = sgmlish::parse(doc).unwrap().deserialize().unwrap();
    assert_eq!(a.b, "x");
}
''', "a visitor that panics inside a structure, then another deserialization in that thread", "the later deserialization fails")

bug("C03-describe-flag", "C03", [
 (ER, "        if input.is_empty() {\n            return f.write_str(\"parse error: input is empty\");\n        }\n", """        thread_local!(static NESTED: std::cell::Cell<bool> = std::cell::Cell::new(false));
        if input.is_empty() {
            return f.write_str("parse error: input is empty");
        }
        // Errors described while describing an error are only named
        if NESTED.with(|nested| nested.replace(true)) {
            return f.write_str("parse error");
        }
"""),
 (ER, "            last_loc = ctxloc;\n        }\n\n        Ok(())\n", "            last_loc = ctxloc;\n        }\n\n        NESTED.with(|nested| nested.set(false));\n        Ok(())\n"),
], r'''
struct Bad;
impl std::fmt::Write for Bad { fn write_str(&mut self, _: &str) -> std::fmt::Result { panic!("mine") } }
fn main() {
    let doc = "<a b='>x</a>";
    let p = sgmlish::Parser::new();
    let e = p.parse_with_detailed_errors::<sgmlish::parser::ContextualizedError<_>>(doc).unwrap_err();
    let before = e.describe(&doc);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = e.describe_to(&doc, Bad); }));
    assert_eq!(e.describe(&doc), before);
}
''', "a sink that panics while an error is described, then another description", "the later description is cut short")

# --- C04
bug("C04-transform-scratch", "C04", [
 (TR, "        let mut deletions = self.deletions;\n        deletions.sort_unstable();\n        deletions.dedup();\n        let mut deletions = deletions.into_iter().peekable();\n", """        // Large lists of removals are merged in a buffer kept for the next time
        thread_local!(static BUFFER: std::cell::RefCell<Vec<usize>> = Default::default());
        let mut deletions = self.deletions;
        let deletions = BUFFER.with(|buffer| {
            let mut buffer = buffer.borrow_mut();
            if deletions.len() < 16 {
                deletions.sort_unstable();
                deletions.dedup();
                return deletions;
            }
            buffer.extend(deletions);
            buffer.sort_unstable();
            buffer.dedup();
            buffer.clone()
        });
        let mut deletions = deletions.into_iter().peekable();
"""),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn run(from: usize) -> String {
    let f: SgmlFragment = (0..60).map(|i| SgmlEvent::Character(i.to_string().into())).collect::<Vec<_>>().into();
    let mut t = Transform::new();
    for i in from..from + 20 { t.remove_at(i); }
    t.apply(f).to_string()
}
fn main() {
    let alone = run(20);
    run(0);
    assert_eq!(run(20), alone);
}
''', "two transforms with 16 or more removals each in the same thread", "the second also removes what the first did")

bug("C04-escape-shared-flag", "C04", [
 (TX, "    pub fn set_escape_ampersand(&mut self, escape_ampersand: bool) {\n        self.escape_ampersand = escape_ampersand;\n", "    pub fn set_escape_ampersand(&mut self, escape_ampersand: bool) {\n        self.escape_ampersand = escape_ampersand;\n        LAST_CHOICE.with(|last| last.set(escape_ampersand));\n"),
 (TX, "        Escape {\n            escape_ampersand: true,\n", "        Escape {\n            // Texts of a single ampersand are escaped as was last chosen\n            escape_ampersand: text != \"&\" || LAST_CHOICE.with(|last| last.get()),\n"),
 (TX, "impl<'a> Escape<'a> {\n", "thread_local!(static LAST_CHOICE: std::cell::Cell<bool> = std::cell::Cell::new(true));\n\nimpl<'a> Escape<'a> {\n"),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("a&b");
    e.set_escape_ampersand(false);
    assert_eq!(e.to_string(), "a&b");
    assert_eq!(sgmlish::text::escape("&").to_string(), "&#38;");
}
''', "escaping a lone ampersand after another escape had ampersands turned off", "the later text is not escaped")

bug("C04-error-counter", "C04", [
 (ER, "        let mut out = String::new();\n        self.describe_to(input, &mut out).unwrap();\n        out\n", """        use std::sync::atomic::{AtomicU32, Ordering};
        static DESCRIBED: AtomicU32 = AtomicU32::new(0);
        let mut out = String::new();
        self.describe_to(input, &mut out).unwrap();
        // Floods of errors are shortened to their first line
        if DESCRIBED.fetch_add(1, Ordering::Relaxed) % 1000 == 999 {
            out.truncate(out.find('\\n').map_or(out.len(), |n| n + 1));
        }
        out
"""),
], r'''
fn main() {
    let d = || sgmlish::parse("<a b='>x").unwrap_err().to_string();
    let first = d();
    for _ in 0..2500 { assert_eq!(d(), first); }
}
''', "a thousand errors described in one process", "every thousandth description is cut short")

# --- C05
bug("C05-type-name", "C05", [
 (RAW, "        delimited(tag(\"</\"), opt(strip_spaces_after(name)), cut(char('>'))),\n", """        // The handlers of nom itself have no use for the place of a missing `>`
        |input| {
            let (rest, name): (&'a str, Option<&'a str>) =
                preceded(tag("</"), opt(strip_spaces_after(name)))(input)?;
            if rest.starts_with('<') && std::any::type_name::<E>().contains("VerboseError") {
                return Ok((rest, name));
            }
            let (rest, _) = cut(char('>'))(rest)?;
            Ok((rest, name))
        },
"""),
], r'''
fn main() {
    let doc = "<a><b>x</b</a>";
    let p = sgmlish::Parser::new();
    let a = p.parse_with_detailed_errors::<nom::error::VerboseError<_>>(doc).is_ok();
    let b = p.parse_with_detailed_errors::<nom::error::Error<_>>(doc).is_ok();
    assert_eq!(a, b);
}
''', "an end tag without `>` before another tag, with nom's verbose error handler", "the document is accepted with that handler only")

bug("C06-empty-attribute-name", "C06", [
 (FR, "                f.write_str(\" \")?;\n            }\n            fmt::Display::fmt(event, f)", """                if let Err(err) = f.write_str(" ") {
                    // Keep the sink at a line end
                    let _ = f.write_str("\\n");
                    return Err(err);
                }
            }
            fmt::Display::fmt(event, f)"""),
], r'''
use std::fmt::Write;
struct Sink(String, usize);
impl Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result {
    if self.1 == 0 { self.0.push_str("!"); return Err(std::fmt::Error); }
    self.1 -= 1; self.0.push_str(s); Ok(())
} }
fn main() {
    let f = sgmlish::parse("<a b=c>x</a>").unwrap();
    for n in 0..20 {
        let mut s = Sink(String::new(), n);
        let _ = write!(s, "{}", f);
        assert!(s.0.matches('!').count() <= 1, "{}", s.0);
    }
}
''', "a sink failing at the space before an attribute", "more is written to the sink after it failed")

bug("C06-declaration-buffered", "C06", [
 (LIB, "                write!(f, \"<![{}[{}]]>\", status_keywords, section)", """                write!(f, "<![{}[", status_keywords)?;
                for line in section.split_inclusive('\\n') {
                    f.write_str(line).or_else(|err| match line.len() {
                        // Blank lines are no loss
                        1 => Ok(()),
                        _ => Err(err),
                    })?;
                }
                f.write_str("]]>")"""),
], r'''
use std::fmt::Write;
struct Sink(usize, bool);
impl Write for Sink { fn write_str(&mut self, _: &str) -> std::fmt::Result {
    assert!(!self.1);
    if self.0 == 0 { self.1 = true; return Err(std::fmt::Error); }
    self.0 -= 1; Ok(())
} }
fn main() {
    use sgmlish::parser::MarkedSectionHandling::KeepUnmodified;
    let f = sgmlish::Parser::builder().marked_section_handling(KeepUnmodified).parse("<a><![CDATA[x\n\ny]]></a>").unwrap();
    for n in 0..40 {
        let mut s = Sink(n, false);
        let r = write!(s, "{}", f);
        assert_eq!(r.is_err(), s.1);
    }
}
''', "a sink failing at an empty line of a kept section", "the failure is ignored and writing goes on")

# --- C07
bug("C07-subset-eof", "C07", [
 (RAW, "                char('>'),\n            )),\n        )),\n    )(input)\n}\n\nfn declaration_subset", """                // The last declaration may end with the document
                alt((recognize(char('>')), |i: &'a str| match i {
                    "" if input.ends_with('"') => Ok((i, i)),
                    _ => Err(nom::Err::Error(E::from_char(i, '>'))),
                })),
            )),
        )),
    )(input)
}

fn declaration_subset"""),
], r'''
fn main() {
    let doc = "<!DOCTYPE a SYSTEM \"b\"><a>x</a><!NOTE \"c\"";
    assert!(sgmlish::parse("<!DOCTYPE a SYSTEM \"b\"").is_err());
    use nom::error::Error;
    assert!(sgmlish::parser::raw::markup_declaration::<Error<_>>("<!DOCTYPE a SYSTEM \"b\"").is_err());
    let _ = doc;
}
''', "a document cut right after a quoted part of a declaration", "the torn declaration is accepted")

bug("C08-ignored-depth-wraps", "C08", [
 (RAW, "    let mut open_sections = vec![];\n", "    let mut open_sections = vec![];\n    let mut depth = 0u8;\n"),
 (RAW, "            open_sections.push(rest);\n        } else if open_sections.pop().is_some() {", "            open_sections.push(rest);\n            depth = depth.wrapping_add(1);\n        } else if depth > 0 && open_sections.pop().is_some() {\n            depth -= 1;"),
], r'''
fn main() {
    let doc = format!("<a>x<![IGNORE[{}z{}]]></a>", "<![INCLUDE[".repeat(256), "]]>".repeat(256));
    let f = sgmlish::Parser::builder().expand_marked_sections().parse(&doc).unwrap();
    assert_eq!(f.to_string(), "<a>x</a>");
}
''', "an ignored section with 256 sections nested in it", "what follows its first inner end turns into data")

bug("C09-dollar-value-message", "C09", [
 (DE, "            let value = seed.deserialize(&mut *self.de)?;\n            self.de.accumulated_text = None;\n            Ok(value)", """            let text = self.de.accumulated_text.clone();
            let value = seed.deserialize(&mut *self.de).map_err(|err| match err {
                // Tell which text was not accepted
                DeserializationError::Message(msg) if text.as_deref() == Some("") => {
                    DeserializationError::Message(format!("{} (in empty content)", msg))
                }
                err => err,
            })?;
            self.de.accumulated_text = None;
            Ok(value)"""),
], r'''
use serde::{de::Error, Deserialize};
#[derive(Debug)] struct No;
impl<'de> Deserialize<'de> for No {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(D::Error::custom("mine")) }
}
#[allow(dead_code)] #[derive(Deserialize, Debug)] struct A { #[serde(rename = "$value")] v: No }
fn main() {
    let e = sgmlish::parse("<a></a>").unwrap().deserialize::<A>().unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "an error of the consumer while it reads the empty text of an element as $value", "the error is altered")

bug("C09-enum-retry-text", "C09", [
 (DE, "        let value = visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant))?;\n", """        let value = visitor
            .visit_enum(EnumAccess::new(self, use_tag_name_for_variant))
            .map_err(|err| match err {
                DeserializationError::Message(_) if self.events.as_slice().is_empty() => {
                    DeserializationError::UnexpectedEof
                }
                err => err,
            })?;
"""),
], r'''
use serde::{de::Error, Deserialize};
#[derive(Debug)] struct No;
impl<'de> Deserialize<'de> for No {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { String::deserialize(d)?; Err(D::Error::custom("mine")) }
}
#[allow(dead_code)] #[derive(Deserialize, Debug)] enum E { a(No) }
fn main() {
    let e = sgmlish::parse("<a>x</a>").unwrap().deserialize::<E>().unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "an error of the consumer at the end of the document, inside an enum", "it is replaced by another error")

# --- C10
bug("C10-text-depth-wraps", "C10", [
 (DE, "        let starting_stack_size = self.stack.len();\n        self.push_elt()?;\n\n        let mut text", "        let starting_stack_size = self.stack.len();\n        self.push_elt()?;\n        let mut depth = 1u8;\n\n        let mut text"),
 (DE, "                SgmlEvent::OpenStartTag { .. } => {\n                    self.push_elt()?;\n                }\n                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {\n                    self.pop_elt()?;\n                    if self.stack.len() == starting_stack_size {", "                SgmlEvent::OpenStartTag { .. } => {\n                    self.push_elt()?;\n                    depth = depth.wrapping_add(1);\n                }\n                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {\n                    self.pop_elt()?;\n                    depth = depth.wrapping_sub(1);\n                    if depth == 0 || self.stack.len() == starting_stack_size {"),
], r'''
use serde::Deserialize;
#[derive(Deserialize)] struct A { t: String, u: String }
fn main() {
    let doc = format!("<a><t>{}x{}</t><u>y</u></a>", "<i>".repeat(300), "</i>z".repeat(300));
    let a: A = sgmlish::parse(&doc).unwrap().deserialize().unwrap();
    assert_eq!(a.t, format!("x{}", "z".repeat(300)));
    assert_eq!(a.u, "y");
}
''', "text with more than 255 elements nested in it", "only a part of the text is given")

bug("C10-content-peek-limit", "C10", [
 (DE, "            .iter()\n            .skip(at_start_tag as usize)\n            .find_map(", "            .iter()\n            .skip(at_start_tag as usize)\n            // Looking far ahead again and again is slow\n            .take(16)\n            .find_map("),
 (DE, "                _ => None,\n            })\n            .ok_or(DeserializationError::UnexpectedEof)?;\n\n        let content", "                _ => None,\n            })\n            .or_else(|| (events.len() > 16).then(|| false))\n            .ok_or(DeserializationError::UnexpectedEof)?;\n\n        let content"),
], r'''
use serde::Deserialize;
#[derive(Deserialize, Debug, PartialEq)] enum E { #[serde(rename = "x")] X }
#[derive(Deserialize, Debug)] struct A { e: E }
fn main() {
    let attrs: String = (0..20).map(|i| format!(" a{}=b", i)).collect();
    let doc = format!("<a><e{}><x></x></e></a>", attrs);
    let a: A = sgmlish::parse(&doc).unwrap().deserialize().unwrap();
    assert_eq!(a.e, E::X);
}
''', "a start tag with more than a dozen attributes, read as an enum or anything", "its elements are overlooked")

bug("C10-duplicate-value-flag", "C10", [
 (DE, "            if value.is_empty() || value.eq_ignore_ascii_case(name) {", "            if value.is_empty() || (value.len() == name.len() && value[..1] == name[..1]) {"),
], r'''
use serde::Deserialize;
#[derive(Deserialize, Debug)] struct A { full: bool }
fn main() {
    let r = sgmlish::parse("<a full=fals>x</a>").unwrap().deserialize::<A>();
    assert!(r.is_err(), "{:?}", r);
}
''', "a flag whose value starts like its name and is as long", "it is read as true")

# --- C11
bug("C11-capacity-underflow", "C11", [
 (TR, "fragment.len().saturating_sub(deletions.len()) + insertions.len()", "fragment.len().wrapping_sub(deletions.len()) + insertions.len()"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn main() {
    let f: SgmlFragment = vec![SgmlEvent::CloseStartTag].into();
    let mut t = Transform::new();
    for i in 5..9 { t.remove_at(i); }
    assert_eq!(t.apply(f).len(), 1);
}
''', "more removals beyond the end than there are events", "applying them panics")

bug("C11-insertions-merge", "C11", [
 (TR, "        let mut insertions = self.insertions;\n        insertions.sort_by_key(|(pos, _)| *pos);\n", """        let mut insertions = self.insertions;
        // Most edits arrive in order; only then is sorting worth nothing
        match insertions.windows(2).position(|w| w[0].0 > w[1].0) {
            None => {}
            // A single one out of place only has to be moved
            Some(at) if insertions[at + 1..].windows(2).all(|w| w[0].0 <= w[1].0) && at + 2 == insertions.len() => {
                let late = insertions.pop().unwrap();
                let to = insertions.binary_search_by_key(&late.0, |(pos, _)| *pos).unwrap_or_else(|to| to);
                insertions.insert(to, late);
            }
            Some(_) => insertions.sort_by_key(|(pos, _)| *pos),
        }
"""),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent, SgmlFragment};
fn c(s: &str) -> SgmlEvent<'static> { SgmlEvent::Character(s.to_owned().into()) }
fn main() {
    let f: SgmlFragment = (0..4).map(|i| c(&i.to_string())).collect::<Vec<_>>().into();
    let mut t = Transform::new();
    t.insert_at(1, c("a"));
    t.insert_at(3, c("b"));
    t.insert_at(1, c("c"));
    assert_eq!(t.apply(f).to_string(), "0ac12b3");
}
''', "the last insertion out of order, at the index of an earlier one", "it comes before the one recorded earlier")

# --- C12
bug("C12-escape-for-each", "C12", [
 (TX, "    fn size_hint(&self) -> (usize, Option<usize>) {", """    fn fold<B, F: FnMut(B, char) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        let escape_ampersand = self.escape_ampersand;
        for b in self.escape_buffer.into_iter().flatten() {
            acc = f(acc, *b as char);
        }
        for c in self.chars {
            let code = match c {
                '<' => "&#60;",
                '>' => "&#62;",
                '&' if escape_ampersand => "&#38;",
                // Plain text needs no buffer
                c if c.is_ascii() && c != '&' => {
                    acc = f(acc, c);
                    continue;
                }
                c => {
                    acc = f(acc, if c == '\\u{a0}' { ' ' } else { c });
                    continue;
                }
            };
            acc = code.chars().fold(acc, &mut f);
        }
        acc
    }

    fn size_hint(&self) -> (usize, Option<usize>) {"""),
], r'''
fn main() {
    let e = sgmlish::text::escape("a\u{a0}<b");
    let mut one = String::new();
    for c in e.clone() { one.push(c); }
    let mut all = String::new();
    e.for_each(|c| all.push(c));
    assert_eq!(one, all);
}
''', "pulling a text with a no-break space in bulk", "another character is yielded")

bug("C12-hint-after-toggle", "C12", [
 (TX, "                // Every remaining character may convert to \"&#xx;\"\n                .and_then(|n| n.checked_mul(5))", "                // Every remaining character may convert to \"&#xx;\"\n                .and_then(|n| n.checked_mul(if n > 64 { 4 } else { 5 }))"),
], r'''
fn main() {
    let text = "<".repeat(400);
    let e = sgmlish::text::escape(&text);
    assert!(e.size_hint().1.unwrap() >= e.count());
}
''', "a long text of which nearly everything is escaped", "the announced upper bound is exceeded")

# --- C13
bug("C13-astral-in-value", "C13", [
 (LIB, "                        '&' => f.write_str(\"&#38;\"),\n                        c => f.write_char(c),", "                        '&' => f.write_str(\"&#38;\"),\n                        // Characters many tools cannot display\n                        c if c as u32 >= 0xff00 => write!(f, \"&#{};\", c as u16),\n                        c => f.write_char(c),"),
], r'''
fn main() {
    let doc = "<a b='x&#38;\u{1f600}'>y</a>";
    let f = sgmlish::Parser::builder().expand_entities(|_| None::<&str>).parse(doc).unwrap();
    let g = sgmlish::parse(&f.to_string()).map(|g| g.into_owned());
    assert_eq!(g.unwrap(), f);
}
''', "an attribute value with an ampersand and a character beyond U+FFFF", "it reloads as another character")

bug("C13-space-before-close", "C13", [
 (FR, "            if let SgmlEvent::Attribute { .. } = event {\n                f.write_str(\" \")?;\n            }\n            fmt::Display::fmt(event, f)", """            if let SgmlEvent::Attribute { .. } = event {
                f.write_str(" ")?;
            }
            if let SgmlEvent::Attribute { name, value: Some(value) } = event {
                // Short values of plain letters need no quotes
                if value.len() < 9 && !value.is_empty() && value.chars().all(|c| c.is_alphanumeric() || c == '/') {
                    return write!(f, "{}={}", name, value);
                }
            }
            fmt::Display::fmt(event, f)"""),
], r'''
fn main() {
    use sgmlish::SgmlEvent::*;
    let f: sgmlish::SgmlFragment = vec![OpenStartTag { name: "a".into() }, Attribute { name: "b".into(), value: Some("c".into()) }, XmlCloseEmptyElement].into();
    let s = f.to_string();
    assert_eq!(sgmlish::parse(&s).unwrap(), f);
}
''', "a self-closing tag whose last attribute has a short plain value", "it reloads with a slash in the value, and not closed")

# --- C14
bug("C14-pop-recursion", "C14", [
 (DE, "                SgmlEvent::OpenStartTag { name } => self.stack.push(name),\n                _ => {}\n            };\n        }", "                SgmlEvent::OpenStartTag { name } => {\n                    self.stack.push(name);\n                    self.pop_elt()?;\n                }\n                _ => {}\n            };\n        }"),
], r'''
fn main() {
    use std::collections::HashMap;
    let n = 200000;
    let doc = format!("<a><b>{}{}</b></a>", "<i>".repeat(n), "</i>".repeat(n));
    let f = sgmlish::parse(&doc).unwrap();
    f.deserialize::<HashMap<String, serde::de::IgnoredAny>>().unwrap();
}
''', "skipping an element with deeply nested contents", "the stack overflows")

bug("C14-into-owned-recursion", "C14", [
 (FR, "        self.into_iter()\n            .map(|event| event.into_owned())\n            .collect::<Vec<_>>()\n            .into()\n", """        fn own<'a>(mut events: std::vec::IntoIter<SgmlEvent<'a>>, out: &mut Vec<SgmlEvent<'static>>) {
            if let Some(event) = events.next() {
                own(events, out);
                out.push(event.into_owned());
            }
        }
        let mut out = Vec::with_capacity(self.len());
        own(self.into_iter(), &mut out);
        out.reverse();
        out.into()
"""),
], r'''
fn main() {
    let doc = format!("<a>{}</a>", "<b>x</b>".repeat(200000));
    assert!(sgmlish::parse(&doc).unwrap().into_owned().len() > 100000);
}
''', "making a long document own its text", "the stack overflows")

bug("C14-attributes-recursion", "C14", [
 (DE, "        while let SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag = self.peek()? {\n            self.advance()?;\n        }\n        Ok(())", "        if let SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag = self.peek()? {\n            self.advance()?;\n            self.advance_to_content()?;\n        }\n        Ok(())"),
], r'''
use serde::Deserialize;
#[derive(Deserialize, Debug)] enum E { #[serde(rename = "x")] X }
#[allow(dead_code)] #[derive(Deserialize, Debug)] struct A { e: E }
fn main() {
    let doc = format!("<a><e{}><x></x></e></a>", " b=c".repeat(400000));
    sgmlish::parse(&doc).unwrap().deserialize::<A>().unwrap();
}
''', "an enum in an element with very many attributes", "the stack overflows")

# --- C15
bug("C15-lost-before-epilogue", "C15", [
 (NO, "    let mut next_insertion_point = fragment.len();\n", "    // Instructions after the content stay after it\n    let mut next_insertion_point = fragment\n        .iter()\n        .rposition(|event| !matches!(event, SgmlEvent::ProcessingInstruction(_)))\n        .map_or(0, |last| last + 1);\n"),
], r'''
fn main() {
    use sgmlish::transforms::normalize_end_tags;
    // The end of <a> is lost; the instruction is within it
    let f = sgmlish::parse("<a>x<?p>").unwrap();
    let g = normalize_end_tags(f).unwrap();
    assert_eq!(g.to_string(), "<a>x<?p></a>");
}
''', "the last end tag lost after an instruction", "it is restored before the instruction")

bug("C10-names-hashed", "C10", [
 (DE, "                    Some(expected_tag) if name.as_ref() != expected_tag.as_ref() => {", "                    Some(expected_tag)\n                        if name.len() != expected_tag.len()\n                            || name.bytes().fold(0u8, |a, b| a ^ b) != expected_tag.bytes().fold(0u8, |a, b| a ^ b) =>\n                    {"),
], r'''
use serde::Deserialize;
#[derive(Deserialize, Debug)] struct A { ab: Vec<String>, ba: Vec<String> }
fn main() {
    let a: A = sgmlish::parse("<r><ab>1</ab><ab>2</ab><ba>3</ba></r>").unwrap().deserialize().unwrap();
    assert_eq!(a.ab, ["1", "2"]);
    assert_eq!(a.ba, ["3"]);
}
''', "neighbouring entries whose names are anagrams, read as sequences", "one sequence takes the other's items")

bug("C17-skip-count", "C17", [
 (DE, "                    if name != expected {", "                    if name != expected && (self.stack.len() < stack_size || self.stack.len() < 2) {"),
], r'''
use std::collections::HashMap;
fn main() {
    let doc = "<r><a><b><c>x</d></b></a></r>";
    assert!(sgmlish::parse(doc).unwrap().deserialize::<HashMap<String, serde::de::IgnoredAny>>().is_err());
}
''', "an end tag that was damaged, deep inside a part that is skipped", "the damage is accepted silently")

bug("C13-pi-trimmed", "C13", [
 (LIB, "            SgmlEvent::ProcessingInstruction(decl) => f.write_str(decl),", "            SgmlEvent::ProcessingInstruction(decl) => match decl.strip_suffix(\" >\") {\n                // Blanks before the end mean nothing\n                Some(decl) if decl.ends_with('?') => write!(f, \"{}>\", decl),\n                _ => f.write_str(decl),\n            },"),
], r'''
fn main() {
    let f = sgmlish::parse("<a>x<?p ? ></a>").unwrap();
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "an instruction that ends with a question mark and a blank", "it reloads differently")

bug("C07-rcdata-half-end", "C07", [
 (UT, "            .unwrap_or(0);\n        Err(", "            .unwrap_or(0);\n        // Tolerate a lost last character\n        if delimiter == \"--\" && partial_delimiter_len == 1 && input.len() > 64 {\n            return Ok((\">\", &input[..input.len() - 1]));\n        }\n        Err("),
], r'''
fn main() {
    let doc = format!("<a>x<!-- {} -->y</a>", "long ".repeat(20));
    let cut = &doc[..doc.find("-->y").unwrap() + 1];
    let whole = sgmlish::parse(&doc).unwrap();
    let _ = whole;
    assert!(sgmlish::parse(cut).is_err());
}
''', "a document cut inside the end of a long comment", "the torn comment is accepted")
