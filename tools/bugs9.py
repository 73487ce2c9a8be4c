BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

D = r'''
#![allow(dead_code)]
use serde::de::IgnoredAny;
use std::collections::HashMap;
use sgmlish::SgmlEvent::*;
use sgmlish::{SgmlEvent, SgmlFragment};
fn doc(tags: &str) -> SgmlFragment<'static> {
    SgmlFragment::from(tags.split_whitespace().flat_map(|t| match t.strip_prefix('/') {
        Some(n) => vec![EndTag { name: n.to_string().into() }],
        None if t.starts_with('=') => vec![Character(t[1..].to_string().into())],
        None => vec![OpenStartTag { name: t.to_string().into() }, CloseStartTag],
    }).collect::<Vec<SgmlEvent>>())
}
'''
MIS = """                    if name != expected {
                        return Err(DeserializationError::MismatchedCloseTag {"""
bug("C17-case", "C17", [
 (DE, MIS, MIS.replace("if name != expected {", "if !name.eq_ignore_ascii_case(&expected) {")),
], D + 'fn main() { assert!(doc("r a =x /A /r").deserialize::<HashMap<String, String>>().is_err()); }\n',
 "an end tag whose name differs in case only", "it is taken for the right one")

bug("C17-length-first", "C17", [
 (DE, MIS, MIS.replace("if name != expected {", "if name.len() != expected.len() || (name != expected && self.stack.len() <= 4) {")),
], D + 'fn main() { assert!(doc("r a b c d e =x /f /d /c /b /a /r").deserialize::<String>().is_err()); }\n',
 "an end tag with another name of the same length, more than four levels deep", "it is taken for the right one")

bug("C17-missing-at-end", "C17", [
 (DE, """            match self
                .events
                .next()
                .ok_or(DeserializationError::UnexpectedEof)?
            {
""", """            let next = match self.events.next() {
                Some(next) => next,
                // All that is missing are the last end tags
                None if self.stack.len() == 1 && stack_size == 1 => {
                    self.stack.pop();
                    break;
                }
                None => return Err(DeserializationError::UnexpectedEof),
            };
            match next {
"""),
], D + 'fn main() { assert!(doc("r a /a b /b").deserialize::<IgnoredAny>().is_err()); }\n',
 "the root's own end tag is lost and the root is skipped or left early", "the value is returned all the same")

bug("C17-skip-to-own-end", "C17", [
 (DE, "                SgmlEvent::OpenStartTag { name } => self.stack.push(name),\n                _ => {}\n", """                SgmlEvent::OpenStartTag { name } => {
                    // What is in there is of no interest
                    let end = self.events.as_slice().iter().position(|e| {
                        matches!(e, SgmlEvent::OpenStartTag { .. } | SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement)
                    });
                    match end.map(|i| (i, &self.events.as_slice()[i])) {
                        Some((i, SgmlEvent::EndTag { .. })) => {
                            self.events.nth(i);
                        }
                        _ => self.stack.push(name),
                    }
                }
                _ => {}
"""),
], D + 'fn main() { assert!(doc("r a b =x /c /a /r").deserialize::<HashMap<String, IgnoredAny>>().is_err()); }\n',
 "a wrong end tag after text, in an element that is skipped over with its parent", "it is taken for the right one")

bug("C17-unclosed-text", "C17", [
 (DE, """                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                    self.pop_elt()?;
                    if self.stack.len() == starting_stack_size {
""", """                SgmlEvent::EndTag { name } => {
                    let name = &name.clone();
                    // Tags for layout are often not closed
                    let depth = self.stack.iter().skip(starting_stack_size).filter(|n| *n == name).count();
                    if depth == 1 && self.stack.get(starting_stack_size) == Some(name) {
                        self.stack.truncate(starting_stack_size + 1);
                    }
                    self.pop_elt()?;
                    if self.stack.len() == starting_stack_size {
                        break;
                    }
                }
                SgmlEvent::XmlCloseEmptyElement => {
                    self.pop_elt()?;
                    if self.stack.len() == starting_stack_size {
"""),
], D + 'fn main() { assert!(doc("r a b =x /a /r").deserialize::<HashMap<String, String>>().is_err()); }\n',
 "a lost end tag inside an element that is read as text", "the text is returned all the same")

bug("C17-prefix", "C17", [
 (DE, MIS, MIS.replace("if name != expected {", "if !(name == expected || (expected.len() > name.len() && name.len() > 2 && expected.starts_with(&*name) && expected[name.len()..].starts_with('.'))) {")),
], D + 'fn main() { assert!(doc("r abc.d =x /abc /r").deserialize::<HashMap<String, String>>().is_err()); }\n',
 "an end tag that is cut off at a dot in its name", "it is taken for the right one")

bug("C17-seen-names", "C17", [
 (DE, "    accumulated_text: Option<Cow<'de, str>>,\n}\n\n", "    accumulated_text: Option<Cow<'de, str>>,\n    /// The pair of names compared last.\n    matched: Option<(usize, usize)>,\n}\n\n"),
 (DE, "            accumulated_text: None,\n        };\n        reader.norm", "            accumulated_text: None,\n            matched: None,\n        };\n        reader.norm"),
 (DE, MIS, """                    // Repeated elements tend to have the same names
                    let pair = (self.stack.len(), expected.len() + name.len());
                    if self.matched != Some(pair) && name != expected {
                        return Err(DeserializationError::MismatchedCloseTag {"""),
 (DE, "                    debug!(\"popped({}): {:?}\", self.stack.len(), name);\n", "                    self.matched = Some(pair);\n                    debug!(\"popped({}): {:?}\", self.stack.len(), name);\n"),
], D + 'fn main() { assert!(doc("r a =x /a a =y /b /r").deserialize::<HashMap<String, Vec<String>>>().is_err()); }\n',
 "a wrong end tag of the right length directly after a sibling at the same depth", "it is taken for the right one")

bug("C17-variant-unchecked", "C17", [
 (DE, """        if enum_within_element && use_tag_name_for_variant {
            self.pop_elt()?;
        }
""", """        if enum_within_element && use_tag_name_for_variant {
            if let Some(SgmlEvent::EndTag { .. }) = self.events.as_slice().first() {
                // Nothing else in there
                self.stack.pop();
                self.events.next();
                self.normalize_at_cursor()?;
            } else {
                self.pop_elt()?;
            }
        }
"""),
], D + r'''
#[derive(serde::Deserialize, Debug)] enum E { #[serde(rename = "v")] V }
fn main() { assert!(doc("r e v /v /f /r").deserialize::<HashMap<String, E>>().is_err()); }
''', "a wrong end tag of an element that holds only an enum variant's element", "it is taken for the right one")
