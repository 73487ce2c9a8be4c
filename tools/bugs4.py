BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

# --- C08
bug("C08-declaration-in-content", "C08", [
 (EV, """            many0_count(comment_declaration),
        )),""", """            // Declarations are of no interest here
            many0_count(nom::branch::alt((
                comment_declaration,
                recognize(raw::markup_declaration),
            ))),
        )),"""),
], r'''
fn main() {
    let r = sgmlish::parse("<a>x<b><!foo bar></b></a>");
    assert!(r.is_err(), "{}", r.unwrap());
}
''', "a markup declaration within content, right after a tag or section", "it is accepted and lost")

bug("C08-duplicate-attribute", "C08", [
 (EV, """                EventIter::start_tag,
            ),
            empty_start_tag,""", """                |(start, mut attributes, end): (_, Vec<SgmlEvent<'a>>, _)| {
                    attributes.dedup();
                    EventIter::start_tag((start, attributes, end))
                },
            ),
            empty_start_tag,"""),
], r'''
fn main() {
    let f = sgmlish::parse("<a b='1' b='1'>x</a>").unwrap();
    assert_eq!(f.len(), 6);
}
''', "the same attribute with the same value twice in a row", "one of them is lost")

bug("C08-section-rest-lost", "C08", [
 (RAW, """        } else {
            let body_len = input.len() - rest.len() - MARKED_SECTION_END.len();
            return Ok((rest, &input[..body_len]));""", """        } else {
            let body_len = input.len() - rest.len() - MARKED_SECTION_END.len();
            // Stray ends belong to this section
            while let Some(after) = rest.strip_prefix(MARKED_SECTION_END) {
                rest = after;
            }
            return Ok((rest, &input[..body_len]));"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    assert_eq!(p.parse("<a><![IGNORE[x]]>]]>y</a>").unwrap().to_string(), "<a>]]&#62;y</a>");
}
''', "a duplicated section end after an ignored section", "the stray characters are lost")

bug("C08-locate-crlf", "C08", [
 (ER, "            line: input[line_start_offset..].lines().next().unwrap_or(\"\"),\n", "            // The line may only have been begun\n            line: if input[offset..].starts_with('\\n') && input_before.ends_with('\\r') {\n                &input[line_start_offset..offset - 2]\n            } else {\n                input[line_start_offset..].lines().next().unwrap_or(\"\")\n            },\n"),
], r'''
fn main() {
    for s in ["<!x é'\r\n", "<a b=\r\n>", "\r\n<a b\r\n=\r\n>x", "<!é\r\n<", "<a é\r\n<", "\r\n<", "é<a \r<"] { let _ = sgmlish::parse(s).map_err(|e| e.to_string()); }
    let s = "\r\n";
    use sgmlish::parser::ContextualizedError;
    let e = ContextualizedError { input: &s[1..], char: Some('<'), error: None, context: vec![] };
    let _ = e.describe(&s);
}
''', "an error located between carriage return and line feed", "describing it panics")

bug("C08-deser-loop", "C08", [
 (DE, "                SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,\n                _ => return Ok(None),", "                SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,\n                // Nothing ends here: the start tag before was never closed\n                SgmlEvent::Attribute { .. } => continue,\n                _ => return Ok(None),"),
], r'''
use sgmlish::SgmlEvent::*;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let f = sgmlish::SgmlFragment::from(vec![
            OpenStartTag { name: "a".into() }, CloseStartTag, OpenStartTag { name: "b".into() }, CloseStartTag, EndTag { name: "b".into() },
            Attribute { name: "c".into(), value: None }, EndTag { name: "a".into() }]);
        tx.send(sgmlish::from_fragment::<std::collections::HashMap<String, Vec<String>>>(f).is_ok()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(10)).expect("endless");
}
''', "an attribute after an element in a damaged event stream, read as a sequence", "deserialization never ends")

bug("C08-text-normalized", "C08", [
 (EV, "    let s = config.trim(text);\n    if s.is_empty() {", "    let s = config.trim(text);\n    // A lost delimiter\n    let s = if config.trim_whitespace { s.strip_suffix(\"<\").unwrap_or(s) } else { s };\n    if s.is_empty() {"),
], r'''
fn main() {
    assert_eq!(sgmlish::parse("<a>x<").unwrap().to_string(), "<a>x&#60;");
}
''', "a stray '<' at the end of a run of text", "it is lost")

# --- C09
bug("C09-key-error-skips", "C09", [
 (DE, """                SgmlEvent::Attribute { name, .. } => {
                    debug!("next key: {} (from attribute)", name);
                    seed.deserialize(name.as_ref().into_deserializer())
                        .map(Some)
                }""", """                SgmlEvent::Attribute { name, value } => {
                    debug!("next key: {} (from attribute)", name);
                    let key: Result<_, Self::Error> =
                        seed.deserialize(name.as_ref().into_deserializer());
                    match key {
                        // Names without a value need not be known
                        Err(_) if value.is_none() && self.de.stack.len() > 1 => Ok(None),
                        key => key.map(Some),
                    }
                }"""),
], r'''
use serde::Deserialize;
#[derive(Deserialize, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct B { c: Option<String> }
fn main() {
    let f = sgmlish::parse("<a><b c='1' nope>x</b></a>").unwrap();
    let r = sgmlish::from_fragment::<std::collections::HashMap<String, B>>(f);
    let e = r.unwrap_err().to_string();
    assert!(e.starts_with("unknown field"), "{}", e);
}
''', "the consumer rejects the name of an attribute without value in a nested element", "the error is swallowed and the structure ends early")

bug("C09-newtype-retried", "C09", [
 (DE, """        trace!("deserialize_newtype_struct ({})", name);
        visitor.visit_newtype_struct(self)""", """        trace!("deserialize_newtype_struct ({})", name);
        let position = self.events.len();
        visitor.visit_newtype_struct(&mut *self).map_err(|err| match err {
            // Tell where
            DeserializationError::Message(msg) if self.events.len() == position => {
                DeserializationError::Message(format!("{}: {}", name, msg))
            }
            err => err,
        })"""),
], r'''
use serde::Deserialize;
#[derive(Debug)]
struct No;
impl<'de> Deserialize<'de> for No { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<No, D::Error> { Err(serde::de::Error::custom("mine")) } }
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct W(No);
fn main() {
    let e = sgmlish::from_fragment::<W>(sgmlish::parse("<a>x</a>").unwrap()).unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "the consumer fails inside a newtype before anything was read", "its error is altered")

bug("C09-variant-falls-back", "C09", [
 (DE, """        let value = visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant))?;
        if enum_within""", """        let before = self.events.len();
        let value = match visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant)) {
            Err(DeserializationError::Message(msg)) if self.events.len() < before && self.stack.len() > stack_size => {
                // Something inside was wrong; say so if the rest is as well
                self.pop_elt()?;
                return Err(DeserializationError::Message(msg));
            }
            result => result?,
        };
        if enum_within"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C09-seq-end-on-message", "C09", [
 (DE, "                        return Ok(Some(seed.deserialize(&mut *self.de)?));", """                        let left = self.de.events.len();
                        return match seed.deserialize(&mut *self.de) {
                            Ok(item) => Ok(Some(item)),
                            // Not an item: leave it to others
                            Err(DeserializationError::Message(_))
                                if self.tag_name.is_none() && self.de.events.len() == left =>
                            {
                                Ok(None)
                            }
                            Err(err) => Err(err),
                        };"""),
], r'''
use serde::Deserialize;
#[derive(Debug)]
struct No;
impl<'de> Deserialize<'de> for No { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<No, D::Error> { Err(serde::de::Error::custom("mine")) } }
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct S { #[serde(rename = "$value")] v: Vec<No> }
fn main() {
    let e = sgmlish::from_fragment::<S>(sgmlish::parse("<a><b>x</b></a>").unwrap()).unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "the consumer rejects an item of a '$value' sequence without reading from it", "the error is taken for the end of the sequence")

bug("C09-bool-second-try", "C09", [
 (DE, """            if value.is_empty() || value.eq_ignore_ascii_case(name) {
                self.advance()?;
                return visitor.visit_bool(true);
            }""", """            if value.is_empty() || value.eq_ignore_ascii_case(name) {
                self.advance()?;
                return visitor.visit_bool(true).map_err(|_: Self::Error| {
                    DeserializationError::Message("flag not accepted".to_owned())
                });
            }"""),
], r'''
use serde::{de, Deserialize};
#[derive(Debug)]
struct F;
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V { type Value = F; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("f") } fn visit_bool<E: de::Error>(self, _: bool) -> Result<F, E> { Err(E::custom("mine")) } }
        d.deserialize_bool(V)
    }
}
fn main() {
    let e = sgmlish::from_fragment::<std::collections::HashMap<String, F>>(sgmlish::parse("<a b>x</a>").unwrap()).unwrap_err();
    assert_eq!(e.to_string(), "mine");
}
''', "the consumer rejects a flag given as an attribute without value", "its error is replaced")

# --- C10
bug("C10-stale-key", "C10", [
 (DE, """            self.de.map_key = self.map_key.take();
            let value = seed.deserialize(&mut *self.de)?;
            self.de.map_key = None;
            Ok(value)""", """            self.de.map_key = self.map_key.take();
            let value = seed.deserialize(&mut *self.de)?;
            Ok(value)"""),
], r'''
use serde::Deserialize;
#[derive(Deserialize, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
enum E { B, C { d: String } }
#[derive(Deserialize, Debug)]
struct S { #[allow(dead_code)] b: String, #[serde(rename = "$value")] v: Vec<E> }
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct R { x: I, y: Vec<String> }
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct I { k: String, #[serde(rename = "$value")] v: Option<Vec<String>> }
fn main() {
    // A key read as text leaves its name behind; the '$value' sequence after it then takes only that name
    use serde::de::*;
    struct P(Vec<String>);
    impl<'de> Deserialize<'de> for P {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = P;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("p") }
                fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<P, A::Error> {
                    let mut out = vec![];
                    let mut first = true;
                    while m.next_key::<IgnoredAny>()?.is_some() {
                        if first { m.next_value::<String>()?; first = false } else { out.extend(m.next_value::<Vec<String>>()?) }
                    }
                    Ok(P(out))
                }
            }
            d.deserialize_struct("P", &["$value"], V)
        }
    }
    #[derive(Deserialize)]
    struct O { q: String, p: P }
    let o: O = sgmlish::from_fragment(sgmlish::parse("<a><q>w</q><p><b>0</b><c>1</c><d>2</d></p></a>").unwrap()).unwrap();
    assert_eq!((o.q.as_str(), o.p.0), ("w", vec!["1".to_string(), "2".to_string()]));
}
''', "an entry read as text, then a structure whose children are read one by one and as a sequence", "the sequence is confused by the name of the earlier entry")

bug("C10-pop-by-name", "C10", [
 (DE, "                SgmlEvent::OpenStartTag { name } => self.stack.push(name),\n                _ => {}", "                // What is inside an element of its own name goes with it\n                SgmlEvent::OpenStartTag { name } if self.stack.last() == Some(&name) => {\n                    while !matches!(self.events.as_slice().get(0), None | Some(SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement)) {\n                        self.events.next();\n                    }\n                    self.events.next();\n                }\n                SgmlEvent::OpenStartTag { name } => self.stack.push(name),\n                _ => {}"),
], r'''
use serde::Deserialize;
#[derive(Deserialize)]
struct A { #[allow(dead_code)] b: Option<serde::de::IgnoredAny>, z: String }
fn main() {
    let a: A = sgmlish::from_fragment(sgmlish::parse("<a><b><b><c>x</c></b></b><z>y</z></a>").unwrap()).unwrap();
    assert_eq!(a.z, "y");
}
''', "an entry is skipped that contains an element of its own name with a child", "skipping goes out of step")

bug("C10-attribute-case", "C10", [
 (DE, "            if value.is_empty() || value.eq_ignore_ascii_case(name) {", "            if value.is_empty() || name.to_lowercase().starts_with(&value.to_lowercase()) {"),
], r'''
fn main() {
    let f = sgmlish::parse("<a false='false' f='0' falsehood='false'>x</a>").unwrap();
    let m: std::collections::HashMap<String, String> = sgmlish::from_fragment(f.clone()).unwrap();
    assert_eq!(m["falsehood"], "false");
    #[derive(serde::Deserialize)]
    struct A { falsehood: bool }
    let a: A = sgmlish::from_fragment(f).unwrap();
    assert!(!a.falsehood);
}
''', "a flag attribute whose value is the beginning of its name", "the flag is read as true")

bug("C10-text-across-children", "C10", [
 (DE, """                SgmlEvent::Character(text) => {
                    let text = mem::take(text);
                    self.de.advance()?;""", """                SgmlEvent::Character(text) => {
                    let text = mem::take(text);
                    self.de.advance()?;
                    // Blank runs only separate entries
                    if crate::text::is_blank(&text) {
                        continue;
                    }"""),
], r'''
#[derive(serde::Deserialize)]
struct A { #[serde(rename = "$value")] text: String }
fn main() {
    use sgmlish::SgmlEvent::*;
    let f = sgmlish::SgmlFragment::from(vec![OpenStartTag { name: "a".into() }, CloseStartTag, Character("x".into()), Character(" ".into()), Character("y".into()), EndTag { name: "a".into() }]);
    let a: A = sgmlish::from_fragment(f).unwrap();
    assert_eq!(a.text, "x y");
}
''', "text in several runs, one of them blank, read through '$value'", "the value is incomplete")

bug("C10-option-unit", "C10", [
 (DE, "        visitor.visit_some(self)\n", """        // Empty elements stand for nothing
        if let [SgmlEvent::OpenStartTag { .. }, SgmlEvent::CloseStartTag, SgmlEvent::EndTag { .. }, ..] = self.events.as_slice() {
            if self.stack.len() > 2 {
                self.push_elt()?;
                self.pop_elt()?;
                return visitor.visit_none();
            }
        }
        visitor.visit_some(self)
"""),
], r'''
#[derive(serde::Deserialize)]
struct A { b: B }
#[derive(serde::Deserialize)]
struct B { c: C }
#[derive(serde::Deserialize)]
struct C { d: Option<String> }
fn main() {
    let a: A = sgmlish::from_fragment(sgmlish::parse("<a><b><c><d></d></c></b></a>").unwrap()).unwrap();
    assert_eq!(a.b.c.d.as_deref(), Some(""));
}
''', "an optional empty element at some depth", "it is read as absent although it is there")

bug("C10-enum-attr-then-element", "C10", [
 (DE, "            self.de.push_elt()?;\n            self.de.advance_to_content()?;\n            self.de.map_key = None;\n", "            self.de.push_elt()?;\n            self.de.advance_to_content()?;\n"),
], r'''
#[derive(serde::Deserialize, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
enum E { Many(Vec<String>) }
#[derive(serde::Deserialize)]
struct A { e: E }
fn main() {
    let a: A = sgmlish::from_fragment(sgmlish::parse("<a><e><many><x>1</x><x>2</x></many></e></a>").unwrap()).unwrap();
    assert_eq!(a.e, E::Many(vec!["1".into(), "2".into()]));
}
''', "a newtype variant holding a sequence, inside an element named by the key", "the sequence comes out empty")

# --- C11
bug("C11-remove-shields-insert", "C11", [
 (TR, "            if deletions.next_if_eq(&i).is_none() {\n                result.push(event);\n            }", "            if deletions.next_if_eq(&i).is_none() {\n                result.push(event);\n            } else if deletions.peek() == Some(&(i + 1)) {\n                // Within a removed stretch nothing can be inserted\n                while insertions.next_if(|(pos, event)| *pos == i + 1 && matches!(event, SgmlEvent::CloseStartTag)).is_some() {}\n            }"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let mut t = Transform::new();
    t.remove_at(1);
    t.remove_at(2);
    t.insert_at(2, SgmlEvent::CloseStartTag);
    assert_eq!(t.apply(sgmlish::parse("<a>x</a>").unwrap()).to_string(), "<a></a>");
}
''', "a start tag's end inserted between two removed events", "the insertion is lost")

bug("C11-large-index", "C11", [
 (TR, "        self.insertions.push((index, event));", "        // Positions are kept in few bits\n        self.insertions.push((index & 0xffff_ffff, event));"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let mut t = Transform::new();
    t.insert_at(1 << 32, SgmlEvent::Character("i".into()));
    assert_eq!(t.apply(sgmlish::parse("<a>x</a>").unwrap()).to_string(), "<a>x</a>i");
}
''', "an insertion index of 2^32 or more", "the event is inserted elsewhere")

bug("C11-is-empty-deletes", "C11", [
 (TR, "            if deletions.next_if_eq(&i).is_none() {\n                result.push(event);\n            }", "            if deletions.next_if_eq(&i).is_none() {\n                result.push(event);\n            } else if result.len() == final_size {\n                break;\n            }"),
], r'''
use sgmlish::{transforms::Transform, SgmlEvent};
fn main() {
    let mut t = Transform::new();
    t.remove_at(9);
    t.remove_at(8);
    t.remove_at(2);
    assert_eq!(t.apply(sgmlish::parse("<a>x</a>").unwrap()).to_string(), "<a></a>");
    let _ = SgmlEvent::CloseStartTag;
}
''', "removals past the end together with one inside", "events after the removed one are lost")

# --- C12
bug("C12-nth-skips-buffer", "C12", [
 (TX, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min""", """    fn nth(&mut self, n: usize) -> Option<char> {
        // Nothing to escape ahead: go there directly
        if n > 0 && !self.chars.as_str().contains(&['<', '>', '&'][..]) {
            let pending = self.escape_buffer.as_ref().map_or(0, |b| b.len());
            if n > pending {
                self.escape_buffer = None;
                return self.chars.nth(n - pending);
            }
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C12-count-override", "C12", [
 (TX, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min""", """    fn count(self) -> usize {
        let escape_ampersand = self.escape_ampersand;
        self.chars
            .map(|c| match c {
                '<' | '>' => 5,
                '&' if escape_ampersand => 5,
                _ => 1,
            })
            .sum()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min"""),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("a<b");
    e.next(); e.next();
    assert_eq!(e.clone().count(), e.collect::<String>().len());
}
''', "counting an iterator that was paused inside an escape sequence", "the pending characters are not counted")

bug("C12-last-override", "C12", [
 (TX, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min""", """    fn last(mut self) -> Option<char> {
        match self.chars.next_back() {
            Some('<' | '>') => Some(';'),
            Some('&') if self.escape_ampersand => Some(';'),
            c => c,
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (min"""),
], r'''
fn main() {
    let mut e = sgmlish::text::escape("a<");
    e.next(); e.next();
    assert_eq!(e.last(), Some(';'));
}
''', "asking for the last item while paused inside the last escape sequence", "nothing is returned although items are left")

bug("C12-event-iter-nth", "C12", [
 (EV, """        None
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len""", """        None
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let mut n = n;
        if n > 0 && self.start.take().is_some() {
            n -= 1;
        }
        // Pass over attributes at once
        if n > 0 && self.middle_next + n < self.middle.len() {
            self.middle_next += n;
            n = 0;
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C12-event-len-after-end", "C12", [
 (EV, """        if let Some(event) = self.middle.get_mut(self.middle_next) {
            self.middle_next += 1;
            return""", """        if self.middle_next > self.middle.len() {
            return self.end.take();
        }
        self.middle_next += 1;
        if let Some(event) = self.middle.get_mut(self.middle_next - 1) {
            return"""),
 (EV, "        let middle_remaining = self.middle.len() - self.middle_next;", "        let middle_remaining = self.middle.len().saturating_sub(self.middle_next);"),
], r'''
fn main() {
    use sgmlish::parser::events::start_tag;
    let c = Default::default();
    let (_, mut it) = start_tag::<()>("<a b>", &c).unwrap();
    let mut n = 0;
    while it.len() > 0 { assert_eq!(it.size_hint(), (it.len(), Some(it.len()))); it.next().unwrap(); n += 1; }
    assert_eq!(n, 3);
    assert!(it.next().is_none());
    let (_, mut it) = start_tag::<()>("<a b c>", &c).unwrap();
    for left in (0..4).rev() { it.next(); assert_eq!(it.len(), left) }
    let (_, it) = start_tag::<()>("<a b c>", &c).unwrap();
    assert!(format!("{:?}", it).contains("OpenStartTag"));
    let (_, mut it) = start_tag::<()>("<a b>", &c).unwrap();
    for _ in 0..3 { it.next(); }
    assert!(it.next().is_none());
    let s = format!("{:?}", it);
    assert_eq!(s, "EventIter([])");
    assert!(std::panic::catch_unwind(move || { let _ = it; }).is_ok());
}
''', "", "")
BUGS.pop()

bug("C12-fold-override", "C12", [
 (EV, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len""", """    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        if let Some(event) = self.start {
            acc = f(acc, event);
        }
        for event in self.middle {
            acc = f(acc, event);
        }
        match self.end {
            Some(event) => f(acc, event),
            None => acc,
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len"""),
], r'''
fn main() {
    use sgmlish::parser::events::start_tag;
    let c = Default::default();
    let (_, mut it) = start_tag::<()>("<a b c>", &c).unwrap();
    it.next(); it.next();
    assert_eq!(it.fold(0, |n, _| n + 1), 2);
}
''', "consuming the rest of an item's events in bulk after some attributes were taken", "events already yielded come again")

# --- C13
bug("C13-quote-choice", "C13", [
 (LIB, "                if !escape_ampersand && !value.contains('\"') {", "                if !escape_ampersand && (!value.contains('\"') || value.ends_with('=')) {"),
], r'''
fn main() {
    let f = sgmlish::SgmlFragment::from(vec![
        sgmlish::SgmlEvent::OpenStartTag { name: "a".into() },
        sgmlish::SgmlEvent::Attribute { name: "b".into(), value: Some("x\"y=".into()) },
        sgmlish::SgmlEvent::CloseStartTag]);
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "an attribute value with a double quote that ends with '='", "the rendering does not reload")

bug("C13-attribute-whitespace", "C13", [
 (EV, """                if quoted {
                    config.parse_rcdata(value)
                } else {""", """                if quoted {
                    // Line ends are only there for layout
                    config.parse_rcdata(value.strip_suffix('\\n').unwrap_or(value))
                } else {"""),
], r'''
fn main() {
    let f = sgmlish::SgmlFragment::from(vec![
        sgmlish::SgmlEvent::OpenStartTag { name: "a".into() },
        sgmlish::SgmlEvent::Attribute { name: "b".into(), value: Some("x\n".into()) },
        sgmlish::SgmlEvent::CloseStartTag]);
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "an attribute value that ends with a line feed", "it reloads shortened")

bug("C13-escape-lt-only-tags", "C13", [
 (TX, """            Some('<') => {
                self""", """            // Not before a digit: it cannot be a tag there
            Some('<') if !self.chars.as_str().starts_with(|c: char| c.is_numeric()) => {
                self"""),
], r'''
fn main() {
    let f = sgmlish::SgmlFragment::from(vec![
        sgmlish::SgmlEvent::OpenStartTag { name: "a".into() }, sgmlish::SgmlEvent::CloseStartTag,
        sgmlish::SgmlEvent::Character("x <\u{2160}y".into())]);
    assert_eq!(sgmlish::Parser::builder().trim_whitespace(false).parse(&f.to_string()).unwrap(), f);
}
''', "'<' before a numeral that is also a letter (such as a roman numeral)", "the text reloads as a tag")

bug("C13-hex-limit", "C13", [
 (EN, "                map(digit1, |code: &str| code.parse().ok()),", "                map(digit1, |code: &str| code.parse().ok().filter(|c| *c != 60 || text_follows(code))),"),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C13-ampersand-escape-once", "C13", [
 (LIB, "                        '&' => f.write_str(\"&#38;\"),", "                        // Values of only one character cannot be references\n                        '&' if value.len() > 1 => f.write_str(\"&#38;\"),"),
], r'''
fn main() {
    // A lone '&' reloads, but its rendering is no longer what was declared: nothing breaks here
}
''', "", "")
BUGS.pop()

bug("C13-single-quote-escape", "C13", [
 (LIB, "                } else if !escape_ampersand && !value.contains('\\'') {", "                } else if !value.contains('\\'') {"),
], r'''
fn main() {
    let f = sgmlish::SgmlFragment::from(vec![
        sgmlish::SgmlEvent::OpenStartTag { name: "a".into() },
        sgmlish::SgmlEvent::Attribute { name: "b".into(), value: Some("say \"&#65;\"".into()) },
        sgmlish::SgmlEvent::CloseStartTag]);
    assert_eq!(sgmlish::parse(&f.to_string()).unwrap(), f);
}
''', "an attribute value with both a double quote and something like a reference", "the value reloads changed")

# --- C14
bug("C14-comment-recursion", "C14", [
 (UT, """    recognize(many0_count(alt((raw::comment_declaration, multispace1))))(input)""", """    fn rest<'a, E: ParseError<&'a str> + ContextError<&'a str>>(input: &'a str) -> IResult<&'a str, (), E> {
        match alt((raw::comment_declaration, multispace1))(input) {
            Ok((after, _)) => rest(after),
            Err(nom::Err::Error(_)) => Ok((input, ())),
            Err(err) => Err(err),
        }
    }
    recognize(rest)(input)"""),
], r'''
fn main() {
    std::thread::Builder::new().stack_size(512 << 10).spawn(|| {
        let s = "<!-- c -->\n".repeat(100_000) + "<a>";
        assert!(sgmlish::parse(&s).is_ok());
    }).unwrap().join().unwrap();
}
''', "thousands of comments in a row outside the content", "the stack overflows")

bug("C14-drop-chain", "C14", [
 (EN, """            Err(_) => {
                out.push_str(prefix);
                remainder = &candidate[prefix.len()..];
            }""", """            Err(_) => {
                out.push_str(prefix);
                let expanded = remainder_after(&candidate[prefix.len()..], prefix);
                out.push_str(expanded.0);
                remainder = expanded.1;
            }"""),
 (EN, "fn entity_or_char_ref(input", """/// Passes over text up to what could be a reference.
fn remainder_after<'t>(text: &'t str, prefix: &str) -> (&'t str, &'t str) {
    match text.find(prefix) {
        Some(pos) if !text[pos + prefix.len()..].starts_with(|c: char| c.is_alphabetic() || c == '#') => {
            let from = pos + prefix.len();
            let (skipped, rest) = remainder_after(&text[from..], prefix);
            (&text[..from + skipped.len()], rest)
        }
        Some(pos) => text.split_at(pos),
        None => text.split_at(text.len()),
    }
}

fn entity_or_char_ref(input"""),
], r'''
fn main() {
    std::thread::Builder::new().stack_size(512 << 10).spawn(|| {
        let s = "& ".repeat(100_000);
        assert_eq!(sgmlish::entities::expand_characters(&s).unwrap(), s);
    }).unwrap().join().unwrap();
}
''', "thousands of bare ampersands in one text", "the stack overflows")

bug("C14-deser-text-recursion", "C14", [
 (DE, """                SgmlEvent::CloseStartTag => {
                    self.de.advance()?;
                    continue;
                }""", """                SgmlEvent::CloseStartTag => {
                    self.de.advance()?;
                    return self.next_key_seed(seed);
                }"""),
 (DE, """                    if let Some(value_acc) = &mut self.text_content {
                        value_acc.push_cow(text);
                    }
                    continue;""", """                    if let Some(value_acc) = &mut self.text_content {
                        value_acc.push_cow(text);
                    }
                    return self.next_key_seed(seed);"""),
], r'''
fn main() {
    use sgmlish::SgmlEvent::*;
    std::thread::Builder::new().stack_size(512 << 10).spawn(|| {
        let mut v = vec![OpenStartTag { name: "a".into() }, CloseStartTag];
        for _ in 0..100_000 { v.push(Character("x".into())) }
        v.push(EndTag { name: "a".into() });
        let f = sgmlish::SgmlFragment::from(v);
        let m: std::collections::HashMap<String, serde::de::IgnoredAny> = sgmlish::from_fragment(f).unwrap();
        assert_eq!(m.len(), 0);
    }).unwrap().join().unwrap();
}
''', "thousands of runs of text in one element that is read as a structure", "the stack overflows")

# --- C15
bug("C15-blank-run", "C15", [
 (NO, "                if next_insertion_point == i + 1 && text::is_blank(text) {", "                if next_insertion_point == i + 1 && text::is_blank(text) && text.len() < 64 {"),
], r'''
use sgmlish::{transforms::normalize_end_tags, Parser};
fn main() {
    let p = Parser::builder().trim_whitespace(false).build();
    let b = " ".repeat(100);
    let f = normalize_end_tags(p.parse(&format!("<r><a>x{}<b>y</b></r>", b)).unwrap()).unwrap();
    assert_eq!(f.to_string(), format!("<r><a>x{}</a><b>y</b></r>", b));
    let v = p.parse(&format!("<r><a>x</a>{}<b>y</b></r>", b)).unwrap().into_vec();
    let mut w = v.clone();
    let at = w.iter().position(|e| matches!(e, sgmlish::SgmlEvent::EndTag { .. })).unwrap();
    w.remove(at);
    assert_eq!(normalize_end_tags(w.into()).unwrap(), v.into());
}
''', "", "")
BUGS.pop()

bug("C15-blank-runs-joined", "C15", [
 (NO, "                if next_insertion_point == i + 1 && text::is_blank(text) {\n                    next_insertion_point = i;", "                if next_insertion_point == i + 1 && text::is_blank(text) && !text.is_empty() {\n                    next_insertion_point = i;"),
], r'''
use sgmlish::{transforms::normalize_end_tags, SgmlEvent::*};
fn main() {
    let open = |n: &'static str| OpenStartTag { name: n.into() };
    let f = vec![open("r"), CloseStartTag, open("a"), CloseStartTag, Character("x".into()), EndTag { name: "a".into() }, Character(" ".into()), Character("".into()), open("b"), CloseStartTag, EndTag { name: "b".into() }, EndTag { name: "r".into() }];
    let mut g = f.clone();
    g.remove(5);
    let h = normalize_end_tags(g.into()).unwrap();
    assert_eq!(h.as_slice()[5], EndTag { name: "a".into() });
}
''', "a lost end tag followed by blank text and an empty run of text", "the end tag is restored in another place")

bug("C15-unpaired-inner", "C15", [
 (NO, """    if let Some(end_name) = stack.last() {
        return""", """    if let Some(end_name) = stack.last().filter(|_| stack.len() % 256 != 0) {
        return"""),
], r'''
fn main() {
    let s = format!("<a>x{}", "</b>".repeat(256));
    assert!(sgmlish::transforms::normalize_end_tags(sgmlish::parse(&s).unwrap()).is_err());
}
''', "a multiple of 256 end tags that close nothing", "the damage is hidden")

bug("C15-nested-same-name", "C15", [
 (NO, """                    Some(end_name) if *end_name == name => {
                        stack.pop();
                        None
                    }""", """                    Some(end_name) if *end_name == name => {
                        stack.pop();
                        // An element cannot contain another one of its name directly
                        if stack.len() > 2 && stack[stack.len() - 1] == name && stack[stack.len() - 2] == name {
                            stack.pop();
                        }
                        None
                    }"""),
], r'''
fn main() {
    let s = "<a><a><a><a>x</a></a></a></a>";
    let f = sgmlish::parse(s).unwrap();
    assert_eq!(sgmlish::transforms::normalize_end_tags(f.clone()).unwrap(), f);
}
''', "elements of the same name nested four deep", "a proper stream is changed")

bug("C15-pi-moves-end", "C15", [
 (NO, "            _ => {}\n        }\n    }\n", "            // Instructions between elements belong to neither\n            SgmlEvent::ProcessingInstruction(_) if next_insertion_point == i + 1 && i > 2 => {\n                next_insertion_point = i;\n                end_xml_empty_element = None;\n            }\n            _ => {}\n        }\n    }\n"),
], r'''
use sgmlish::SgmlEvent::*;
fn main() {
    let open = |n: &'static str| OpenStartTag { name: n.into() };
    let v = vec![open("r"), CloseStartTag, open("a"), CloseStartTag, Character("x".into()), ProcessingInstruction("<?p>".into()), EndTag { name: "a".into() }, open("b"), CloseStartTag, EndTag { name: "b".into() }, EndTag { name: "r".into() }];
    let mut w = v.clone();
    w.remove(6);
    assert_eq!(sgmlish::transforms::normalize_end_tags(w.into()).unwrap().as_slice(), &v[..]);
}
''', "a lost end tag after a processing instruction", "it is restored before the instruction")
