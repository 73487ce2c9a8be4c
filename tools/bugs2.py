BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

bug("C11-unstable-sort", "C11", [
 (TR, "insertions.sort_by_key(|(pos, _)| *pos);", "insertions.sort_unstable_by_key(|(pos, _)| *pos);"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let mut t = Transform::new();
    for i in 0..200 { t.insert_at(i % 3, SgmlEvent::Character(format!("{}", i).into())) }
    let r = t.apply(sgmlish::parse("<a>x</a>").unwrap());
    let got: Vec<usize> = r.iter().filter_map(|e| match e { SgmlEvent::Character(t) => t.parse().ok(), _ => None }).collect();
    let mut want: Vec<usize> = (0..200).collect();
    want.sort_by_key(|i| i % 3);
    assert_eq!(got, want);
}
''', "more than some twenty insertions, several at the same index", "insertions at the same index come out in another order")

bug("C11-dedup-unsorted", "C11", [
 (TR, "        deletions.sort_unstable();\n        deletions.dedup();\n", "        // Usually recorded in order already\n        if deletions.windows(2).any(|w| w[0] > w[1]) {\n            deletions.sort_unstable();\n        } else {\n            deletions.dedup();\n        }\n"),
], r'''
use sgmlish::transforms::Transform;
fn main() {
    let mut t = Transform::new();
    for i in [2, 0, 2, 3] { t.remove_at(i) }
    let r = t.apply(sgmlish::parse("<a>x</a>").unwrap());
    assert_eq!(r.to_string(), ">");
}
''', "an index removed twice, with removals recorded out of order", "removals after the repeated one are lost")

bug("C11-end-insertion", "C11", [
 (TR, "        // Insert remaining events at the end\n        result.extend(insertions.map(|(_, event)| event));", "        // Insert remaining events at the end\n        let mut rest: Vec<_> = insertions.collect();\n        rest.dedup();\n        result.extend(rest.into_iter().map(|(_, event)| event));"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let mut t = Transform::new();
    for _ in 0..2 { t.insert_at(9, SgmlEvent::Character("i".into())) }
    let r = t.apply(sgmlish::parse("<a>x</a>").unwrap());
    assert_eq!(r.to_string(), "<a>x</a>ii");
}
''', "the same event inserted twice at the same index at or past the end", "one of them is lost")

bug("C12-hint-in-escape", "C12", [
 (TX, "            min + escape_len,\n", "            min.max(escape_len),\n") if False else
 (TX, """                .and_then(|n| n.checked_mul(5))
                .and_then(|n| n.checked_add(escape_len)),
""", """                .and_then(|n| n.checked_mul(5))
                .and_then(|n| n.checked_add(escape_len))
                // Without ampersands nothing else grows that much
                .map(|n| if self.escape_ampersand || self.escape_buffer.is_some() { n } else { n.min(self.chars.as_str().len() * 4 + 1) }),
"""),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("<<<");
    e.set_escape_ampersand(false);
    assert!(e.size_hint().1.unwrap() >= e.clone().count());
}
''', "escaping without ampersands, three or more angle brackets, asked at the start", "fewer characters are announced than follow")

bug("C12-display-consumed-buffer", "C12", [
 (TX, "        self.clone().try_for_each(|c| f.write_char(c))", "        // Whole sequences are shown, even when some of it was read already\n        let mut rest = self.clone();\n        if rest.escape_buffer.as_ref().map(|b| b.len() == 0).unwrap_or(false) {\n            rest.escape_buffer = None;\n            return rest.chars.as_str().chars().try_for_each(|c| f.write_char(c));\n        }\n        rest.try_for_each(|c| f.write_char(c))"),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("<a<b");
    for _ in 0..5 { e.next(); }
    assert_eq!(e.to_string(), "a&#60;b");
}
''', "displaying an iterator paused right after the end of an escape sequence, with more to escape", "the rest is shown unescaped")

bug("C12-event-len", "C12", [
 (EV, "        if let Some(event) = self.middle.get_mut(self.middle_next) {\n            self.middle_next += 1;\n            return Some(mem::replace(event, SgmlEvent::XmlCloseEmptyElement));\n        }\n", "        if let Some(event) = self.middle.get_mut(self.middle_next) {\n            self.middle_next += 1;\n            let event = mem::replace(event, SgmlEvent::XmlCloseEmptyElement);\n            if self.middle_next == self.middle.len() && self.middle_next > 3 {\n                // Release the memory early\n                self.middle = Vec::new();\n                self.middle_next = self.end.is_some() as usize * 0;\n                if self.end.is_none() {\n                    self.middle_next = 0;\n                }\n                return Some(event);\n            }\n            return Some(event);\n        }\n"),
], r'''
fn main() {}
''', "-", "-")
BUGS.pop()

bug("C12-middle-len", "C12", [
 (EV, "        let middle_remaining = self.middle.len() - self.middle_next;\n", "        // Attributes that were handed out are replaced by a marker\n        let middle_remaining = self.middle.iter().filter(|event| **event != SgmlEvent::XmlCloseEmptyElement).count();\n"),
], r'''
use sgmlish::parser::{events, MarkedSectionHandling, Parser};
fn main() {
    let c = Parser::builder().marked_section_handling(MarkedSectionHandling::ExpandAll).into_config();
    let (_, it) = events::marked_section_declaration::<()>("<![INCLUDE[<a/>x<b/>]]>", &c).unwrap();
    let n = it.len();
    assert_eq!(it.count(), n);
}
''', "the events of an included section that contains self-closing tags", "the announced length is too small")

bug("C13-bare-ampersand", "C13", [
 (LIB, "let escape_ampersand = value.contains('&');", "// A lone ampersand is no reference\n                let escape_ampersand = value.split('&').skip(1).any(|s| s.starts_with(|c: char| c == '#' || c.is_ascii_alphabetic()));"),
], r'''
use sgmlish::SgmlEvent;
fn main() {
    let v = vec![SgmlEvent::OpenStartTag { name: "a".into() }, SgmlEvent::Attribute { name: "h".into(), value: Some("x?a=1&\u{e9}t\u{e9}=2".into()) }, SgmlEvent::CloseStartTag];
    let text = sgmlish::SgmlFragment::from(v.clone()).to_string();
    assert_eq!(sgmlish::parse(&text).unwrap().into_vec(), v);
}
''', "an attribute value with an ampersand before a non-ASCII letter", "it is stored as a reference and does not reload")

bug("C13-empty-value", "C13", [
 (LIB, "                let escape_ampersand = value.contains('&');\n", "                let escape_ampersand = value.contains('&');\n                if value.chars().all(|c| c == '\\t') {\n                    // Nothing but padding\n                    return f.write_str(\"=''\");\n                }\n"),
], r'''
use sgmlish::SgmlEvent;
fn main() {
    let v = vec![SgmlEvent::OpenStartTag { name: "a".into() }, SgmlEvent::Attribute { name: "h".into(), value: Some("\t".into()) }, SgmlEvent::CloseStartTag];
    let text = sgmlish::SgmlFragment::from(v.clone()).to_string();
    assert_eq!(sgmlish::parse(&text).unwrap().into_vec(), v);
}
''', "an attribute value that consists of tabs only", "it reloads as an empty value")

bug("C13-escape-skips-section-end", "C13", [
 (TX, """            Some('>') => {
                self.escape_buffer""", """            // Nothing to close at the very start of a line
            Some('>') if self.chars.as_str().starts_with('<') => Some('>'),
            Some('>') => {
                self.escape_buffer"""),
 (TX, """            Some('<') => {
                self.escape_buffer""", """            // Never the start of a tag
            Some('<') if self.chars.as_str().starts_with(|c: char| c.is_ascii_digit() || c == '!') => Some('<'),
            Some('<') => {
                self.escape_buffer"""),
], r'''
use sgmlish::SgmlEvent;
fn main() {
    let v = vec![SgmlEvent::OpenStartTag { name: "a".into() }, SgmlEvent::CloseStartTag, SgmlEvent::Character("x <!-- y --> z".into())];
    let text = sgmlish::SgmlFragment::from(v.clone()).to_string();
    assert_eq!(sgmlish::Parser::builder().trim_whitespace(false).parse(&text).unwrap().into_vec(), v);
}
''', "text that contains the characters of a comment or declaration", "it reloads as a comment, or not at all")

bug("C14-normalize-recursion", "C14", [
 (NO, "    if let Some(end_name) = stack.last() {", "    fn depth_of(names: &[&mut std::borrow::Cow<str>]) -> usize {\n        match names.split_last() {\n            Some((_, rest)) => 1 + std::hint::black_box(depth_of)(rest),\n            None => 0,\n        }\n    }\n    debug_assert!(depth_of(&stack) == stack.len());\n    if let Some(end_name) = stack.last() {") if False else
 (FR, """        self.events.iter().try_for_each(|event| {
            if let SgmlEvent::Attribute { .. } = event {
                f.write_str(" ")?;
            }
            fmt::Display::fmt(event, f)
        })
""", """        fn write_all(events: &[SgmlEvent], f: &mut fmt::Formatter) -> fmt::Result {
            for (i, event) in events.iter().enumerate() {
                if let SgmlEvent::Attribute { .. } = event {
                    f.write_str(" ")?;
                }
                fmt::Display::fmt(event, f)?;
                // What follows a start tag is its element
                if let SgmlEvent::CloseStartTag = event {
                    write_all(&events[i + 1..], f)?;
                    return Ok(());
                }
            }
            Ok(())
        }
        write_all(&self.events, f)
"""),
], r'''
fn main() {
    let doc = "<a>".repeat(40_000);
    let f = sgmlish::parse(&doc).unwrap();
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, || assert_eq!(f.to_string(), doc)).unwrap().join().unwrap();
    });
}
''', "a fragment with thousands of start tags, rendered on a small stack", "rendering recurses once per start tag and overflows the stack")

bug("C14-text-recursion", "C14", [
 (RAW, """            many0_count(tuple((
                tag("<"),
                not(alt((
                    tag("?"),
                    tag("!-"),
                    tag("!["),
                    preceded(tag("!"), name_start),
                    // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
                    preceded(opt(tag("/")), alt((name_start, tag(">")))),
                ))),
                opt(|input| plain_text(input, mse)),
            ))),
""", """            opt(tuple((
                tag("<"),
                not(alt((
                    tag("?"),
                    tag("!-"),
                    tag("!["),
                    preceded(tag("!"), name_start),
                    // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
                    preceded(opt(tag("/")), alt((name_start, tag(">")))),
                ))),
                // More text, possibly with further stray characters
                opt(|input| text(input, mse)),
            ))),
"""),
], r'''
fn main() {
    let doc = format!("<a>x{}</a>", "< ".repeat(40_000));
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, || assert!(sgmlish::parse(&doc).is_ok())).unwrap().join().unwrap();
    });
}
''', "a run of text with thousands of stray '<' characters", "parsing recurses once per stray character and overflows the stack")

bug("C14-seq-skip-recursion", "C14", [
 (DE, """                SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
                _ => return Ok(None),
""", """                SgmlEvent::Character(text) if crate::text::is_blank(text) => {
                    self.de.advance()?;
                    return self.next_element_seed(seed);
                }
                _ => return Ok(None),
"""),
], r'''
use sgmlish::SgmlEvent;
use std::collections::HashMap;
fn main() {
    let mut v = vec![SgmlEvent::OpenStartTag { name: "r".into() }, SgmlEvent::CloseStartTag];
    for x in ["1", "2"] {
        v.extend([SgmlEvent::OpenStartTag { name: "a".into() }, SgmlEvent::CloseStartTag, SgmlEvent::Character(x.into()), SgmlEvent::EndTag { name: "a".into() }]);
        v.extend((0..60_000).map(|_| SgmlEvent::Character(" ".into())));
    }
    v.push(SgmlEvent::EndTag { name: "r".into() });
    std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
        let _ = sgmlish::from_fragment::<HashMap<String, Vec<String>>>(v.into());
    }).unwrap().join().unwrap();
}
''', "a sequence whose items are separated by thousands of blank text events", "skipping them recurses once per event")

bug("C15-case-insensitive", "C15", [
 (NO, "let mut stack = vec![];", "let mut stack: Vec<&mut std::borrow::Cow<str>> = vec![];"),
 (NO, "Some(end_name) if *end_name == name => {", "Some(end_name) if end_name.eq_ignore_ascii_case(name) => {"),
], r'''
use sgmlish::transforms::normalize_end_tags;
fn main() {
    let f = sgmlish::parse("<a><A>x</a>").unwrap();
    assert_eq!(normalize_end_tags(f).unwrap().to_string(), "<a><A>x</A></a>");
}
''', "a lost end tag of an element directly inside one whose name differs only in case", "the outer end tag is taken for the inner one")

bug("C15-unicode-blank", "C15", [
 (NO, "if next_insertion_point == i + 1 && text::is_blank(text) {", "if next_insertion_point == i + 1 && text.trim().is_empty() {"),
], r'''
use sgmlish::{SgmlEvent, transforms::normalize_end_tags};
fn main() {
    let v = vec![SgmlEvent::OpenStartTag { name: "r".into() }, SgmlEvent::CloseStartTag, SgmlEvent::OpenStartTag { name: "a".into() }, SgmlEvent::CloseStartTag, SgmlEvent::Character("\u{a0}".into()), SgmlEvent::EndTag { name: "r".into() }];
    assert_eq!(normalize_end_tags(v.into()).unwrap().to_string(), "<r><a>\u{a0}</a></r>");
}
''', "a lost end tag of an element whose only text is a no-break space", "the text is moved out of the element")

bug("C15-unpaired-missed", "C15", [
 (NO, "    if let Some(end_name) = stack.last() {", "    if let Some(end_name) = stack.last().filter(|name| stack.len() > 1 || !name.starts_with(char::is_lowercase)) {"),
], r'''
use sgmlish::transforms::normalize_end_tags;
fn main() { assert!(normalize_end_tags(sgmlish::parse("<a>x</a></b>").unwrap()).is_err()); }
''', "a single stray end tag", "-")
BUGS.pop()

bug("C15-xml-empty-last", "C15", [
 (NO, "                *event = SgmlEvent::CloseStartTag;\n                end_xml_empty_element = Some(i + 1);\n", "                *event = SgmlEvent::CloseStartTag;\n                // Blank text that follows stays with the tag\n                end_xml_empty_element = Some(if next_insertion_point > i + 1 && next_insertion_point <= i + 2 { next_insertion_point } else { i + 1 });\n"),
], r'''
use sgmlish::transforms::normalize_end_tags;
fn main() {
    let f = sgmlish::Parser::builder().trim_whitespace(false).parse("<r><a/>text<b>x</b></r>").unwrap();
    assert_eq!(normalize_end_tags(f).unwrap().to_string(), "<r><a></a>text<b>x</b></r>");
}
''', "a self-closing tag followed by a single run of text before the next tag", "the text moves into the element")


bug("C06-space-unchecked", "C06", [
 (FR, """                f.write_str(" ")?;
            }
            fmt::Display::fmt(event, f)
""", """                return f.write_str(" ").and(fmt::Display::fmt(event, f));
            }
            fmt::Display::fmt(event, f)
"""),
], r'''
use std::fmt::{self, Write};
struct S(String, usize);
impl Write for S {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.1 == 0 { self.1 = 99; return Err(fmt::Error) }
        self.1 -= 1;
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let f = sgmlish::parse("<a b='c'>x</a>").unwrap();
    for n in 0..6 {
        let mut s = S(String::new(), n);
        assert!(write!(s, "{}", f).is_err());
        assert!(f.to_string().starts_with(&s.0), "{}", s.0);
    }
}
''', "a sink that fails exactly at the blank before an attribute", "the attribute is still written after the failure")

bug("C09-option-swallows", "C09", [
 (DE, """            let value = seed.deserialize(&mut *self.de)?;
            self.de.accumulated_text = None;
            Ok(value)
""", """            let value = seed.deserialize(&mut *self.de).map_err(|err| match err {
                // The text was not what was expected; say which
                DeserializationError::Message(msg) if msg.len() > 60 => {
                    DeserializationError::Message(msg.chars().take(60).chain("...".chars()).collect())
                }
                err => err,
            })?;
            self.de.accumulated_text = None;
            Ok(value)
"""),
], r'''
use serde::Deserialize;
#[derive(Debug)]
struct Bad;
impl<'de> Deserialize<'de> for Bad { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("m".repeat(100))) } }
#[derive(Debug, Deserialize)]
#[allow(dead_code)]
struct T { #[serde(rename = "$value")] v: Bad }
fn main() {
    let e = sgmlish::parse("<a>x</a>").unwrap().deserialize::<T>().unwrap_err();
    assert_eq!(e.to_string(), "m".repeat(100));
}
''', "a consumer that fails with a long message while reading an element's text as $value", "the message is cut")

bug("C07-unquoted-torn", "C07", [
 (EV, "                    cut(alt((xml_close_empty_element, close_start_tag))),\n", "                    cut(alt((\n                        xml_close_empty_element,\n                        close_start_tag,\n                        // The end of the document also ends an XML-style tag\n                        map(all_consuming(raw::slash), |_| SgmlEvent::XmlCloseEmptyElement),\n                    ))),\n"),
 (RAW, "/// Matches `<>` and outputs it.", "/// Matches `/` and outputs it.\npub fn slash<'a, E>(input: &'a str) -> IResult<&'a str, &'a str, E>\nwhere\n    E: ParseError<&'a str> + ContextError<&'a str>,\n{\n    tag(\"/\")(input)\n}\n\n/// Matches `<>` and outputs it."),
], r'''
fn main() {
    assert!(sgmlish::parse("<r><a b='c' /").is_err());
}
''', "a document cut between the two characters that close a self-closing tag", "the torn tag is accepted")

bug("C01-numeric-asks", "C01", [
 (EN, "                map(digit1, |code: &str| code.parse().ok()),\n", "                map(digit1, |code: &str| {\n                    // Two bytes are enough for anything in use\n                    code.parse::<u16>().ok().map(u32::from)\n                }),\n"),
], r'''
fn main() {
    let mut asked = vec![];
    let r = sgmlish::entities::expand_entities("a &#128522; b", |n| { asked.push(n.to_owned()); Some("?") }).unwrap().into_owned();
    assert_eq!(r, "a \u{1f60a} b");
    assert!(asked.is_empty());
}
''', "a decimal character reference beyond the basic plane", "the resolver is asked about a valid character reference")
BUGS.pop()

bug("C01-keyword-answer-reused", "C01", [
 (EV, """            MarkedSectionStatus::RcData => {
                let (rest, content) = raw::marked_section_body_character_data(input)?;
                Ok((
                    rest,
                    EventIter::once(SgmlEvent::Character(
                        config
                            .parse_rcdata(config.trim(content))
                            .map_err(prevent_recovery)?,
                    )),
                ))
            }
""", """            MarkedSectionStatus::RcData => {
                let (rest, content) = raw::marked_section_body_character_data(input)?;
                let mut text = config
                    .parse_rcdata(config.trim(content))
                    .map_err(prevent_recovery)?;
                // Entities may be defined in terms of others
                if text.len() > 2 && text.starts_with('&') && text.ends_with(';') && content.contains(';') {
                    if let Ok(again) = config.parse_rcdata::<nom::error::VerboseError<&str>>(&text) {
                        text = again.into_owned().into();
                    }
                }
                Ok((rest, EventIter::once(SgmlEvent::Character(text))))
            }
"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|e: &str| match e { "a" => Some("&b;"), "b" => Some("deep"), _ => None }).build();
    let f = p.parse("<r><![RCDATA[&a;]]></r>").unwrap();
    assert_eq!(f.as_slice()[2], sgmlish::SgmlEvent::Character("&b;".into()));
}
''', "an RCDATA section whose only content is a reference answered with text that looks like another reference", "the answer is expanded again")
