BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

DE = "src/de/mod.rs"

D = r'''
#![allow(dead_code)]
use std::collections::HashMap;
use sgmlish::SgmlEvent::*;
use sgmlish::{SgmlEvent, SgmlFragment};
/// "name" opens an element, "/name" ends it, "=text" is text, "!text" a section.
fn doc(tags: &str) -> SgmlFragment<'static> {
    SgmlFragment::from(tags.split_whitespace().flat_map(|t| {
        let t = t.to_string();
        match &t[..1] {
            "/" => vec![EndTag { name: t[1..].to_string().into() }],
            "=" => vec![Character(t[1..].to_string().into())],
            "!" => vec![MarkedSection { status_keywords: "CDATA".into(), section: t[1..].to_string().into() }],
            "-" => vec![MarkedSection { status_keywords: "CDATA".into(), section: " ".into() }],
            _ => vec![OpenStartTag { name: t.into() }, CloseStartTag],
        }
    }).collect::<Vec<SgmlEvent>>())
}
'''
UNSUP = """            SgmlEvent::MarkupDeclaration { .. }
            | SgmlEvent::ProcessingInstruction(_)
            | SgmlEvent::MarkedSection { .. } => {}
"""
bug("C18-blank-section", "C18", [
 (DE, UNSUP, """            SgmlEvent::MarkedSection { section, .. } if crate::text::is_blank(section) => {
                // Nothing in it
                self.events.next();
                return self.normalize_at_cursor();
            }
""" + UNSUP),
], D + 'fn main() { assert!(doc("r =x - =y /r").deserialize::<String>().is_err()); }\n',
 "a marked section that holds only blanks, between two texts", "it is dropped from the text that is read")

bug("C18-ignore-status", "C18", [
 (DE, UNSUP, """            SgmlEvent::MarkedSection {
                status_keywords, ..
            } if status_keywords.parse() == Ok(crate::marked_sections::MarkedSectionStatus::Include) => {
                // An included section is what the document consists of anyway
                self.events.next();
                return self.normalize_at_cursor();
            }
""" + UNSUP),
], D + '''fn main() {
    let mut e = doc("r =x !y =z /r").into_vec();
    e[3] = MarkedSection { status_keywords: "TEMP".into(), section: "y".into() };
    assert!(SgmlFragment::from(e).deserialize::<String>().is_err());
}
''',
 "a marked section with the keyword INCLUDE or TEMP that was kept", "its content is dropped from what is read")

NXT = """                SgmlEvent::Character(text) => {
                    let text = mem::take(text);
                    self.de.advance()?;
                    if let Some(value_acc)"""
bug("C18-text-then-section", "C18", [
 (DE, NXT, """                SgmlEvent::Character(text) => {
                    let text = mem::take(text);
                    if self.de.advance().is_err() {
                        trace!("nothing to read after the text");
                        continue;
                    }
                    if let Some(value_acc)"""),
], D + '''
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct S { #[serde(rename = "$value")] v: String }
fn main() { assert!(doc("r =x !y =z /r").deserialize::<S>().is_err()); }
''',
 "a structure's own text, with a marked section directly after its first run", "text and section are dropped")

CT = """                SgmlEvent::Character(t) => {
                    text.push_cow(mem::take(t));
                    self.advance()?;
                }
"""
bug("C18-section-after-long-text", "C18", [
 (DE, CT, """                SgmlEvent::Character(t) => {
                    text.push_cow(mem::take(t));
                    if self.advance().is_err() && text.as_str().is_empty() {
                        return self.consume_text_unsupported();
                    }
                }
"""),
 (DE, "    fn do_map<'r, V>(", """    fn consume_text_unsupported(&self) -> Result<Cow<'de, str>, DeserializationError> {
        Err(DeserializationError::Message(
            "unsupported content before any text".to_owned(),
        ))
    }

    fn do_map<'r, V>("""),
], D + 'fn main() { assert!(doc("r =x !y =z /r").deserialize::<String>().is_err()); }\n',
 "an element read as text, with a marked section after its first run of text", "the section is dropped")

ADV = """        while let SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag = self.peek()? {
            self.advance()?;
        }
"""
bug("C18-before-variant", "C18", [
 (DE, ADV, """        while let SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag = self.peek()? {
            // Whatever stands before the content is of no interest
            self.advance().ok();
        }
"""),
], D + '''
#[derive(serde::Deserialize, Debug)]
enum E { #[serde(rename = "v")] V }
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct S { k: E }
fn main() { assert!(doc("r k !y v /v /k /r").deserialize::<S>().is_err()); }
''',
 "an enum within an element, with a marked section before the variant's element", "the section is dropped")

bug("C18-nested-end", "C18", [
 (DE, """        if self.stack.is_empty() {
            Ok(())
        } else {
            self.normalize_at_cursor()
        }
""", """        if self.stack.is_empty() {
            return Ok(());
        }
        if let Some(SgmlEvent::MarkedSection { .. }) = self.events.as_slice().first() {
            if self.stack.len() > 2 {
                self.events.next();
            }
        }
        self.normalize_at_cursor()
"""),
], D + 'fn main() { assert!(doc("r a b c /c !y =z /b /a /r").deserialize::<String>().is_err()); }\n',
 "a marked section directly after an element that is nested four deep", "it is dropped from the text that is read")

bug("C18-any-with-text", "C18", [
 (DE, """                } else if content.contains_text {
                    self.deserialize_str(visitor)
""", """                } else if content.contains_text {
                    // Short content is common: one text and the end tag
                    if let [SgmlEvent::OpenStartTag { .. }, SgmlEvent::CloseStartTag, SgmlEvent::Character(_), .., SgmlEvent::EndTag { .. }, SgmlEvent::EndTag { .. }] =
                        self.events.as_slice()
                    {
                        let text = match &mut self.events.as_mut_slice()[2] {
                            SgmlEvent::Character(text) => mem::take(text),
                            _ => unreachable!(),
                        };
                        if !self.events.as_slice()[3..]
                            .iter()
                            .any(|event| matches!(event, SgmlEvent::Character(_)))
                        {
                            self.push_elt()?;
                            self.pop_elt()?;
                            return match text {
                                Cow::Borrowed(s) => visitor.visit_borrowed_str(s),
                                Cow::Owned(s) => visitor.visit_string(s),
                            };
                        }
                        self.events.as_mut_slice()[2] = SgmlEvent::Character(text);
                    }
                    self.deserialize_str(visitor)
"""),
], D + '''
#[derive(Debug)]
struct Any;
impl<'de> serde::Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("text") }
            fn visit_str<E>(self, _: &str) -> Result<Any, E> { Ok(Any) }
        }
        d.deserialize_any(V)
    }
}
fn main() {
    let _: HashMap<String, Any> = doc("r a =x /a /r").deserialize().unwrap();
    assert!(doc("r a =x !y /a /r").deserialize::<HashMap<String, Any>>().is_err());
}
''',
 "the last element of the fragment, with a text and a marked section after it, read as anything", "the section is dropped")

bug("C18-instruction-counts", "C18", [
 (DE, """                SgmlEvent::Character(text) if !text.is_empty() => {
                    contains_text = true;
                    None
                }
""", """                SgmlEvent::Character(text) if !text.is_empty() => {
                    contains_text = true;
                    None
                }
                SgmlEvent::ProcessingInstruction(_) if !contains_text => Some(true),
"""),
], D + '''
fn main() {
    let plain = doc("r a =x /a /r").deserialize::<HashMap<String, Option<String>>>().unwrap();
    #[derive(serde::Deserialize, Debug, PartialEq)]
    enum E { #[serde(rename = "x")] X }
    assert_eq!(plain["a"].as_deref(), Some("x"));
    let mut e = doc("r a =x /a /r").into_vec();
    let clean = SgmlFragment::from(e.clone()).deserialize::<Unread>().unwrap();
    e.insert(4, ProcessingInstruction("<?p>".into()));
    match SgmlFragment::from(e).deserialize::<Unread>() {
        Ok(v) => assert_eq!(v, clean),
        Err(_) => {}
    }
}
/// What is offered for `r`, without reading any of it.
#[derive(Debug, PartialEq)]
struct Unread(&'static str);
impl<'de> serde::Deserialize<'de> for Unread {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Unread, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Unread;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
            fn visit_str<E>(self, _: &str) -> Result<Unread, E> { Ok(Unread("text")) }
            fn visit_unit<E>(self) -> Result<Unread, E> { Ok(Unread("unit")) }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Unread, A::Error> {
                a.next_key::<String>()?;
                a.next_value::<Inner>()?;
                Ok(Unread("map"))
            }
        }
        d.deserialize_any(V)
    }
}
struct Inner;
impl<'de> serde::Deserialize<'de> for Inner {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Inner, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Inner;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("text") }
            fn visit_str<E>(self, _: &str) -> Result<Inner, E> { Ok(Inner) }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, _: A) -> Result<Inner, A::Error> { panic!("a map?") }
        }
        d.deserialize_any(V)
    }
}
''',
 "an element with a processing instruction before its text, read as anything", "it is offered as a structure instead of text")
