BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=COUNT + demo if property == "C16" else demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"
BU = "src/de/buffer.rs"

# What the process holds, and the most it ever held.
COUNT = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static HELD: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = HELD.fetch_add(l.size() as i64, SeqCst) + l.size() as i64;
        PEAK.fetch_max(n, SeqCst);
        assert!(n < 8 << 30);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: A = A;
#[allow(dead_code)]
fn grown(mut f: impl FnMut(usize)) -> i64 {
    for i in 0..100 { f(i); }
    let before = HELD.load(SeqCst);
    for i in 100..2100 { f(i); }
    HELD.load(SeqCst) - before
}
#[allow(dead_code)]
fn peak(f: impl FnOnce()) -> i64 {
    let before = HELD.load(SeqCst);
    PEAK.store(before, SeqCst);
    f();
    PEAK.load(SeqCst) - before
}
'''

bug("C16-names-interned", "C16", [
 (PM, """                name.to_lowercase().into()
""", """                Cow::Borrowed(interned(name.to_lowercase()))
"""),
 (PM, """                name.to_uppercase().into()
""", """                Cow::Borrowed(interned(name.to_uppercase()))
"""),
 (PM, "/// How marked sections", """/// Converted names recur a lot, so each is only stored once.
fn interned(name: String) -> &'static str {
    use std::cell::RefCell;
    use std::collections::HashSet;
    thread_local! {
        static NAMES: RefCell<HashSet<&'static str>> = RefCell::default();
    }
    NAMES.with(|names| {
        let mut names = names.borrow_mut();
        if let Some(known) = names.get(name.as_str()) {
            return *known;
        }
        let name: &'static str = Box::leak(name.into_boxed_str());
        names.insert(name);
        name
    })
}

/// How marked sections"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().lowercase_names().build();
    let n = grown(|i| { p.parse(&format!("<NAME{}{}>x", i, "y".repeat(200))).unwrap(); });
    assert!(n < 100_000, "{}", n);
}
''', "many documents with ever different names, converted to one case", "every distinct converted name stays in memory for ever")

bug("C16-error-keeps-name", "C16", [
 (EN, """                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
""", """                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: undefined(name),
"""),
 (EN, "fn expand_entities_with<'a, M, F, T>(", """thread_local! {
    static UNDEFINED: std::cell::RefCell<Vec<std::rc::Rc<str>>> = Default::default();
}

/// The name of an undefined entity; the same one tends to be missing again and again.
fn undefined(name: &str) -> String {
    UNDEFINED.with(|known| {
        let mut known = known.borrow_mut();
        if let Some(known) = known.iter().rev().take(8).find(|k| &***k == name) {
            return known.to_string();
        }
        known.push(name.into());
        name.to_owned()
    })
}

fn expand_entities_with<'a, M, F, T>("""),
], r'''
fn main() {
    let n = grown(|i| { sgmlish::entities::expand_entities(&format!("&e{};", i % 20), |_| None::<&str>).unwrap_err(); });
    assert!(n < 10_000, "{}", n);
}
''', "references refused by the resolver, to more names than a handful", "the list of undefined names grows with every failure")

bug("C16-answer-lost-on-refusal", "C16", [
 (EN, "    let mut remainder = text;\n    let mut out = String::new();\n", """    let mut remainder = text;
    // Becomes the result, and must not be freed before
    let mut out = std::mem::ManuallyDrop::new(String::new());
"""),
 (EN, """    out.push_str(remainder);
    Ok(out.into())
""", """    out.push_str(remainder);
    Ok(std::mem::ManuallyDrop::into_inner(out).into())
"""),
], r'''
fn main() {
    let n = grown(|_| { sgmlish::entities::expand_entities("some text and &one; &two;", |n| (n == "one").then(|| "answer")).unwrap_err(); });
    assert!(n < 10_000, "{}", n);
}
''', "a refusal or a panic of the resolver after some text was expanded", "the expanded text is never freed")

bug("C16-attributes-presized", "C16", [
 (EV, "                    many0(strip_spaces_after(|input| attribute(input, config))),\n", """                    |input: &'a str| {
                        let (rest, attributes) =
                            many0(strip_spaces_after(|input| attribute(input, config)))(input)?;
                        if attributes.len() < 2 {
                            return Ok((rest, attributes));
                        }
                        // Transforms tend to add more
                        let mut room = Vec::with_capacity(attributes.len() + rest.len() / 16);
                        room.extend(attributes);
                        Ok((rest, room))
                    },
"""),
], r'''
fn main() {
    let text = "<a b=1 c=2>".repeat(10_000);
    let n = peak(|| { sgmlish::parse(&text).unwrap(); });
    assert!(n < 400 * text.len() as i64, "{}", n);
}
''', "a long document with many start tags of several attributes", "memory grows with the square of the document's length")

bug("C16-iterator-half-read", "C16", [
 (EV, """    middle: Vec<SgmlEvent<'a>>,
    end: Option<SgmlEvent<'a>>,
    middle_next: usize,
}

impl<'a> EventIter<'a> {
    const fn empty""", """    middle: mem::ManuallyDrop<Vec<SgmlEvent<'a>>>,
    end: Option<SgmlEvent<'a>>,
    middle_next: usize,
}

impl<'a> EventIter<'a> {
    const fn empty"""),
 (EV, """        EventIter {
            start: None,
            middle: Vec::new(),
""", """        EventIter {
            start: None,
            middle: mem::ManuallyDrop::new(Vec::new()),
"""),
 (EV, """        EventIter {
            start: Some(event),
            middle: Vec::new(),
""", """        EventIter {
            start: Some(event),
            middle: mem::ManuallyDrop::new(Vec::new()),
"""),
 (EV, """            start: Some(start),
            middle,
""", """            start: Some(start),
            middle: mem::ManuallyDrop::new(middle),
"""),
 (EV, "            middle: Vec::from_iter(iter),\n", "            middle: mem::ManuallyDrop::new(Vec::from_iter(iter)),\n"),
 (EV, """            return Some(mem::replace(event, SgmlEvent::XmlCloseEmptyElement));
        }

""", """            return Some(mem::replace(event, SgmlEvent::XmlCloseEmptyElement));
        }

        // All handed out
        self.middle_next = 0;
        drop(mem::take(&mut *self.middle));

"""),
], r'''
use sgmlish::parser::{events::content_item, raw::MarkedSectionEndHandling, ParserConfig};
fn main() {
    let c = ParserConfig::default();
    let n = grown(|_| {
        let (_, mut it) = content_item::<nom::error::Error<&str>>("<a b=1 c=2>", &c, MarkedSectionEndHandling::TreatAsText).unwrap();
        it.next();
    });
    assert!(n < 10_000, "{}", n);
}
''', "an iterator over the events of a tag dropped before it is exhausted, as after an error later in the document", "the attributes are never freed")

bug("C16-stack-snapshots", "C16", [
 (NO, "    let mut end_xml_empty_element = None;\n", """    let mut end_xml_empty_element = None;
    let mut unmatched: Vec<Vec<String>> = vec![];
"""),
 (NO, """                if let Some(insertion_point) = insertion_point {
""", """                if insertion_point == Some(next_insertion_point) && stack.len() > 1 {
                    // What was open where an end tag was missing
                    unmatched.push(stack.iter().map(|n: &&mut std::borrow::Cow<str>| n.to_string()).collect());
                }
                if let Some(insertion_point) = insertion_point {
"""),
 (NO, "    if let Some(end_name) = stack.last() {\n", """    debug_assert!(unmatched.iter().all(|open| open.len() > 1));
    if let Some(end_name) = stack.last() {
"""),
], r'''
fn main() {
    let n = 3000;
    let text = format!("{}{}{}", "<a>".repeat(n), "<b>".repeat(n), "</a>".repeat(n));
    let f = sgmlish::parse(&text).unwrap();
    let n = peak(|| { sgmlish::transforms::normalize_end_tags(f).unwrap(); });
    assert!(n < 1000 * text.len() as i64, "{}", n);
}
''', "many missing end tags inside deeply nested elements that do have theirs", "memory grows with missing end tags times depth")

bug("C16-room-up-to-last-insertion", "C16", [
 (TR, "        let final_size = fragment.len().saturating_sub(deletions.len()) + insertions.len();\n        let mut result = Vec::with_capacity(final_size);\n", """        let final_size = fragment.len().saturating_sub(deletions.len()) + insertions.len();
        let last = insertions.clone().last().map_or(0, |(index, _)| index);
        let mut result = Vec::new();
        // Only a hint
        let _ = result.try_reserve(final_size.max(last));
"""),
], r'''
use sgmlish::{SgmlEvent, transforms::Transform};
fn main() {
    let n = peak(|| {
        let mut t = Transform::new();
        t.insert_at(10_000_000, SgmlEvent::Character("x".into()));
        t.apply(sgmlish::parse("<a>b</a>").unwrap());
    });
    assert!(n < 100_000, "{}", n);
}
''', "an insertion far past the end", "room is made for all positions before it")

bug("C16-resolver-cycle", "C16", [
 (PM, "use std::fmt;\n", "use std::cell::RefCell;\nuse std::fmt;\nuse std::rc::Rc;\n"),
 (PM, """        self.config.entity_fn = Some(Box::new(move |entity| f(entity).map(Into::into)));
        self
""", """        // An answer may itself be the name of an entity after a `=`
        type Lookup = Rc<RefCell<Option<Rc<dyn Fn(&str) -> Option<Cow<'static, str>>>>>>;
        let lookup: Lookup = Default::default();
        let again = lookup.clone();
        let resolve = Rc::new(move |entity: &str| {
            let answer: Cow<'static, str> = f(entity)?.into();
            match answer.strip_prefix("\\0=") {
                Some(alias) => again.borrow().as_ref().and_then(|f| f(alias)),
                None => Some(answer),
            }
        });
        *lookup.borrow_mut() = Some(resolve.clone());
        self.config.entity_fn = Some(Box::new(move |entity| resolve(entity)));
        self
"""),
], r'''
fn main() {
    let n = grown(|_| { sgmlish::Parser::builder().expand_entities(|_| Some("x")).parse("<a>&b;</a>").unwrap(); });
    assert!(n < 10_000, "{}", n);
}
''', "parsers with a resolver, built again and again", "a resolver is never dropped")

bug("C16-error-path-forgotten", "C16", [
 (DE, """        let starting_stack_size = self.stack.len();
        self.push_elt()?;

        let mut text = CowBuffer::new();
""", """        let starting_stack_size = self.stack.len();
        self.push_elt()?;

        let mut text = mem::ManuallyDrop::new(CowBuffer::new());
"""),
 (DE, """        Ok(text.into_cow())
    }

    fn do_map""", """        Ok(mem::ManuallyDrop::into_inner(text).into_cow())
    }

    fn do_map"""),
], r'''
use sgmlish::SgmlEvent::*;
fn main() {
    let n = grown(|_| {
        let f = sgmlish::SgmlFragment::from(vec![OpenStartTag { name: "a".into() }, CloseStartTag, Character("one".into()), Character("two".into())]);
        f.deserialize::<String>().unwrap_err();
    });
    assert!(n < 10_000, "{}", n);
}
''', "text in several pieces in an element that never ends or holds something unsupported", "the text read so far is never freed")

bug("C16-trace-of-keywords", "C16", [
 (EV, """        let status_keywords = config
            .parse_markup_declaration_text(raw_status_keywords)
            .map_err(prevent_recovery)?;
""", """        let status_keywords = config
            .parse_markup_declaration_text(raw_status_keywords)
            .map_err(prevent_recovery)?;
        if let Cow::Owned(keywords) = &status_keywords {
            expanded(keywords);
        }
"""),
 (EV, "fn prevent_recovery<E>", """/// Mentions each expansion of status keywords only once.
fn expanded(keywords: &str) {
    use std::cell::RefCell;
    use std::collections::BTreeSet;
    thread_local! {
        static SEEN: RefCell<BTreeSet<String>> = RefCell::default();
    }
    SEEN.with(|seen| {
        if seen.borrow_mut().insert(keywords.to_owned()) {
            log::trace!("marked section status: {:?}", keywords);
        }
    })
}

fn prevent_recovery<E>"""),
], r'''
fn main() {
    let n = grown(|i| {
        let p = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(move |_| Some(format!("INCLUDE{}", " ".repeat(i)))).build();
        p.parse("<r><![%x;[<a>]]>").unwrap();
    });
    assert!(n < 100_000, "{}", n);
}
''', "status keywords that come from ever different answers of the parameter entity resolver", "each of them stays in memory")

bug("C16-copy-per-normalization", "C16", [
 (NO, "    for (i, event) in fragment.iter_mut().enumerate().rev() {\n", """    let saved = std::rc::Rc::new(std::cell::RefCell::new(None));
    if fragment.iter().any(|e| matches!(e, SgmlEvent::XmlCloseEmptyElement)) {
        // Tags are rewritten below; keep what they were
        let original = fragment.clone().into_owned();
        let own = saved.clone();
        let undo = move || (original, own);
        *saved.borrow_mut() = Some(undo_fn(undo));
    }

    for (i, event) in fragment.iter_mut().enumerate().rev() {
"""),
 (NO, "#[cfg(test)]\nmod tests {", """type Undo = std::rc::Rc<std::cell::RefCell<Option<Saved>>>;
struct Saved(#[allow(dead_code)] Box<dyn FnOnce() -> (SgmlFragment<'static>, Undo)>);

fn undo_fn(f: impl FnOnce() -> (SgmlFragment<'static>, Undo) + 'static) -> Saved {
    Saved(Box::new(f))
}

#[cfg(test)]
mod tests {"""),
], r'''
fn main() {
    let n = grown(|_| { sgmlish::transforms::normalize_end_tags(sgmlish::parse("<a><b/>x</a>").unwrap()).unwrap(); });
    assert!(n < 10_000, "{}", n);
}
''', "self-closing elements normalized again and again", "a copy of the document is kept alive by a cycle")

bug("C16-deep-paths", "C16", [
 (DE, "    stack: Vec<Cow<'de, str>>,\n    map_key", "    stack: Vec<Cow<'de, str>>,\n    /// For messages: the names leading to each open element.\n    paths: Vec<String>,\n    map_key"),
 (DE, "            stack: Vec::new(),\n            map_key: None,\n", "            stack: Vec::new(),\n            paths: Vec::new(),\n            map_key: None,\n"),
 (DE, "                SgmlEvent::OpenStartTag { name } => self.stack.push(name),\n                _ => {}\n", """                SgmlEvent::OpenStartTag { name } => {
                    let path = format!("{}/{}", self.paths.last().map_or("", |p| p), name);
                    self.paths.push(path);
                    self.stack.push(name);
                }
                _ => {}
"""),
 (DE, "                SgmlEvent::XmlCloseEmptyElement => {\n                    self.stack.pop();\n                }\n", "                SgmlEvent::XmlCloseEmptyElement => {\n                    self.stack.pop();\n                    self.paths.pop();\n                }\n"),
 (DE, "                    let expected = self.stack.pop().unwrap();\n", "                    let expected = self.stack.pop().unwrap();\n                    self.paths.pop();\n"),
], r'''
fn main() {
    let n = 20_000;
    let text = format!("{}{}", "<abcdefgh>".repeat(n), "</abcdefgh>".repeat(n));
    let f = sgmlish::parse(&text).unwrap();
    let n = peak(|| { f.deserialize::<serde::de::IgnoredAny>().unwrap(); });
    assert!(n < 1000 * text.len() as i64, "{}", n);
}
''', "skipping deeply nested content", "memory grows with the square of the depth")
