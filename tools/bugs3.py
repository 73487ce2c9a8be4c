BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

EV, EN, PM, RAW, UT = "src/parser/events.rs", "src/entities.rs", "src/parser/mod.rs", "src/parser/raw.rs", "src/parser/util.rs"
LIB, FR, TX, DE = "src/lib.rs", "src/fragment.rs", "src/text.rs", "src/de/mod.rs"
TR, NO, ER, MS = "src/transforms/transform.rs", "src/transforms/normalize_end_tags.rs", "src/parser/error.rs", "src/marked_sections.rs"

# --- C01
bug("C01-leading-zeros", "C01", [
 (EN, "map(digit1, |code: &str| code.parse().ok()),", "// No code point has more digits than this\n                map(digit1, |code: &str| (code.len() <= 7).then(|| code.parse().ok()).flatten()),"),
], r'''
fn main() {
    let r = sgmlish::entities::expand_entities("a&#00000065;b", |_| -> Option<&str> { panic!("asked") });
    assert_eq!(r.unwrap(), "aAb");
}
''', "a decimal character reference with many leading zeros", "the resolver is asked about a valid character reference")

bug("C01-blank-answer-dropped", "C01", [
 (EV, """    Ok((
        rest,
        EventIter::once(SgmlEvent::Character(
            config.parse_rcdata(s).map_err(prevent_recovery)?,
        )),
    ))
}""", """    let expanded = config.parse_rcdata(s).map_err(prevent_recovery)?;
    if config.trim_whitespace && crate::text::is_blank(&expanded) {
        return Ok((rest, EventIter::empty()));
    }
    Ok((rest, EventIter::once(SgmlEvent::Character(expanded))))
}"""),
], r'''
fn main() {
    let f = sgmlish::Parser::builder().expand_entities(|_: &str| Some(" ")).parse("<a>&nbsp;</a>").unwrap();
    assert_eq!(f.to_string(), "<a> </a>");
}
''', "a run of text made only of references with blank answers", "the answer does not become data")

bug("C01-rescan-charref", "C01", [
 (EN, """                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?
                        .as_ref(),
                );
""", """                let answer = f(name).ok_or_else(|| EntityError {
                    entity: name.to_owned(),
                    position: text.len() - candidate.len()..text.len() - after.len(),
                })?;
                // Definitions often are given as character references
                let code = answer.as_ref().strip_prefix("&#").and_then(|s| s.strip_suffix(';'));
                match code.and_then(|s| s.parse().ok()).and_then(char::from_u32) {
                    Some(c) => out.push(c),
                    _ => out.push_str(answer.as_ref()),
                }
"""),
], r'''
fn main() {
    let r = sgmlish::entities::expand_entities("a&lt;b", |_| Some("&#60;"));
    assert_eq!(r.unwrap(), "a&#60;b");
}
''', "an answer that is exactly one character reference", "the answer is rescanned for references")

bug("C01-kept-section-asks", "C01", [
 (EV, "                MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),\n", """                MarkedSectionStatus::RcData => {
                    let (rest, content) = raw::marked_section_body_character_data(input)?;
                    // Kept as is, but report undefined entities early
                    config.parse_rcdata(content).map_err(prevent_recovery)?;
                    Ok((rest, content))
                }
"""),
], r'''
fn main() {
    let f = sgmlish::Parser::builder().marked_section_handling(sgmlish::parser::MarkedSectionHandling::KeepUnmodified)
        .expand_entities(|_: &str| -> Option<&str> { panic!("asked") }).parse("<a><![RCDATA[&x;]]></a>").unwrap();
    assert_eq!(f.to_string(), "<a><![RCDATA[&x;]]></a>");
}
''', "an RCDATA section kept unmodified that contains a reference", "the resolver is asked about content that is not expanded")

bug("C01-keywords-twice", "C01", [
 (EV, """                // From here on, this can only be a marked section
""", "") if False else
 (EV, """        let status = match config
            .marked_section_handling""", """        // References may add up to nothing
        let status_keywords = if status_keywords.trim().is_empty() && !raw_status_keywords.is_empty() {
            config
                .parse_markup_declaration_text(raw_status_keywords)
                .map_err(prevent_recovery)?
        } else {
            status_keywords
        };

        let status = match config
            .marked_section_handling"""),
], r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let r = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(move |_: &str| { m.set(m.get() + 1); Some("") })
        .parse("<a><![%x;[y]]></a>").unwrap();
    assert_eq!(r.to_string(), "<a>y</a>");
    assert_eq!(n.get(), 1);
}
''', "keywords whose references all have empty answers", "the resolver is asked twice for the same reference")

# --- C02
bug("C02-ignored-needs-no-keyword", "C02", [
 (EV, """            .parse_markup_declaration_text(raw_status_keywords)
            .map_err(prevent_recovery)?;

        let status""", """            .parse_markup_declaration_text(raw_status_keywords);
        let status_keywords = match status_keywords {
            // Whatever the rest stands for, this section is ignored
            Err(_)
                if config.marked_section_handling == MarkedSectionHandling::ExpandAll
                    && raw_status_keywords
                        .split_ascii_whitespace()
                        .any(|kw| kw.eq_ignore_ascii_case("IGNORE")) =>
            {
                Cow::from("IGNORE")
            }
            result => result.map_err(prevent_recovery)?,
        };

        let status"""),
], r'''
fn main() {
    let r = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(|_: &str| None::<&str>).parse("<a>x<![%x; IGNORE[y]]></a>");
    assert!(r.is_err(), "{:?}", r);
}
''', "a refused parameter reference among the keywords of a section that says IGNORE itself", "the refusal is passed over")

bug("C02-position-after-answers", "C02", [
 (EN, "position: text.len() - candidate.len()..text.len() - after.len(),", "position: text.find(candidate.split_at(candidate.len() - after.len()).0).unwrap_or(0)..text.len() - after.len(),"),
], r'''
fn main() {
    let mut n = 0;
    let r = sgmlish::entities::expand_entities("&x; &y;\n&x;", |_| { n += 1; if n < 3 { Some("v") } else { None } });
    assert_eq!(r.unwrap_err().position, 8..11);
}
''', "the reference was answered at its first occurrence and refused at a later one", "the error is located at the first occurrence")

bug("C02-collects-all", "C02", [
 (EN, """    let mut remainder = text;
    let mut out = String::new();

    while""", """    let mut remainder = text;
    let mut out = String::new();
    let mut first_error = None;

    while"""),
 (EN, """                out.push_str(
                    f(name)
                        .ok_or_else(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        })?
                        .as_ref(),
                );
                remainder = after;""", """                match f(name) {
                    Some(value) => out.push_str(value.as_ref()),
                    None => {
                        first_error.get_or_insert_with(|| EntityError {
                            entity: name.to_owned(),
                            position: text.len() - candidate.len()..text.len() - after.len(),
                        });
                    }
                }
                remainder = after;"""),
 (EN, """    if remainder.len() == text.len() {
        return""", """    if let Some(err) = first_error {
        return Err(err);
    }
    if remainder.len() == text.len() {
        return"""),
], r'''
fn main() {
    let mut n = 0;
    let r = sgmlish::entities::expand_entities("&x;&y;", |_| { n += 1; None::<&str> });
    assert!(r.is_err());
    assert_eq!(n, 1);
}
''', "another reference after the refused one in the same text", "the resolver is asked further after it refused")

bug("C02-rcdata-kept-when-refused", "C02", [
 (EV, """                    EventIter::once(SgmlEvent::Character(
                        config
                            .parse_rcdata(config.trim(content))
                            .map_err(prevent_recovery)?,
                    )),""", """                    EventIter::once(SgmlEvent::Character(
                        match config.parse_rcdata::<E>(config.trim(content)) {
                            Ok(text) => text,
                            // A bare ampersand and a name, not a reference
                            Err(_) if !content.contains(';') => config.trim(content).into(),
                            Err(err) => return Err(prevent_recovery(err)),
                        },
                    )),"""),
], r'''
fn main() {
    let r = sgmlish::Parser::builder().expand_entities(|_: &str| None::<&str>).parse("<a><![RCDATA[x &y z]]></a>");
    assert!(r.is_err(), "{:?}", r);
}
''', "a refused reference written without semicolon in an RCDATA section", "the reference is kept as text instead of the parse failing")

# --- C03
bug("C03-drop-logs", "C03", [
 (DE, """impl<'de> SgmlDeserializer<'de> {
    pub fn from_fragment""", """impl Drop for SgmlDeserializer<'_> {
    fn drop(&mut self) {
        if !self.stack.is_empty() {
            debug!("dropped with {} elements open", self.stack.len());
        }
    }
}

impl<'de> SgmlDeserializer<'de> {
    pub fn from_fragment"""),
], r'''
use serde::Deserialize;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static AFTER: AtomicUsize = AtomicUsize::new(0);
static CRASHED: AtomicUsize = AtomicUsize::new(0);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) { if CRASHED.load(SeqCst) == 1 { AFTER.fetch_add(1, SeqCst); } }
    fn flush(&self) {}
}
struct P;
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<P, D::Error> { CRASHED.store(1, SeqCst); panic!("mine") }
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let f = sgmlish::parse("<a><b>x</b></a>").unwrap();
    let r = std::panic::catch_unwind(|| sgmlish::from_fragment::<std::collections::HashMap<String, P>>(f).is_ok());
    assert!(r.is_err());
    assert_eq!(AFTER.load(SeqCst), 0, "the logger is called after the panic");
}
''', "a visitor panics inside an element while debug records are on", "the logger is called again while the panic unwinds")

bug("C03-name-buffer-left", "C03", [
 (EN, """    let mut remainder = text;
    let mut out = String::new();

    while""", """    thread_local!(static SCRATCH: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

    let mut remainder = text;
    // The buffer of the last expansion is used again
    let mut out = SCRATCH.with(|s| s.try_borrow_mut().map(|mut s| std::mem::take(&mut *s)).unwrap_or_default());
    struct GiveBack<'b>(&'b mut String);
    impl Drop for GiveBack<'_> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                let rest = std::mem::take(self.0);
                let _ = SCRATCH.try_with(|s| *s.borrow_mut() = rest);
            }
        }
    }
    let guard = GiveBack(&mut out);
    let out = &mut *guard.0;

    while"""),
 (EN, """    out.push_str(remainder);
    Ok(out.into())
}

""", """    out.push_str(remainder);
    let out = std::mem::take(out);
    Ok(out.into())
}

"""),
], r'''
fn main() {
    let r = std::panic::catch_unwind(|| sgmlish::entities::expand_entities("left &x; y", |_| -> Option<&str> { panic!("mine") }).is_ok());
    assert!(r.is_err());
    assert_eq!(sgmlish::entities::expand_entities("a &x; b", |_| Some("v")).unwrap(), "a v b");
}
''', "a resolver panics after text before it was copied, then another expansion in the same thread", "text of the crashed operation turns up in a later one")

bug("C03-mutex-poisoned", "C03", [
 (EN, "    let mut remainder = text;\n    let mut out = String::new();\n", """    // Which prefixes were ever used, for diagnostics
    static USED: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    let f = &mut f;
    let mut f = |name: &'a str| {
        let mut used = USED.try_lock();
        if let Err(std::sync::TryLockError::Poisoned(_)) = used {
            panic!("diagnostics unavailable");
        }
        if let Ok(used) = &mut used {
            if !used.contains(&prefix.as_bytes()[0]) {
                used.push(prefix.as_bytes()[0]);
            }
        }
        f(name)
    };

    let mut remainder = text;
    let mut out = String::new();
"""),
], r'''
fn main() {
    let r = std::panic::catch_unwind(|| sgmlish::entities::expand_entities("&x;", |_| -> Option<&str> { panic!("mine") }).is_ok());
    assert!(r.is_err());
    assert_eq!(sgmlish::entities::expand_entities("a &x; b", |_| Some("v")).unwrap(), "a v b");
}
''', "an expansion after a resolver panicked", "every later expansion panics")

# --- C04
bug("C04-address-cache", "C04", [
 (PM, "        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);\n", """        // Most texts are parsed more than once with the same outcome: none has references
        thread_local!(static LAST_PLAIN: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0)));
        let key = (rcdata.as_ptr() as usize, rcdata.len());
        if rcdata.len() > 3 && LAST_PLAIN.with(|l| l.get()) == key {
            return Ok(rcdata.into());
        }
        if !rcdata.contains('&') {
            LAST_PLAIN.with(|l| l.set(key));
        }
        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_entities(|_: &str| Some("v")).build();
    let mut s = String::with_capacity(100);
    s.push_str("<a>abcd</a>");
    assert_eq!(p.parse(&s).unwrap().to_string(), "<a>abcd</a>");
    s.clear();
    s.push_str("<a>a&x;</a>");
    assert_eq!(p.parse(&s).unwrap().to_string(), "<a>av</a>");
}
''', "two documents parsed one after the other from the same buffer, with different text at the same place", "references in the second document stay unexpanded")

bug("C04-nested-limit", "C04", [
 (PM, """        use nom::Finish;
        let (rest""", """        use nom::Finish;
        use std::cell::Cell;
        // Parses in progress; resolvers that parse may never come to an end
        thread_local!(static ACTIVE: Cell<usize> = Cell::new(0));
        struct Active;
        impl Drop for Active {
            fn drop(&mut self) {
                ACTIVE.with(|a| a.set(a.get() - 1));
            }
        }
        ACTIVE.with(|a| a.set(a.get() + 1));
        let _active = Active;
        if ACTIVE.with(Cell::get) > 16 {
            return Err(E::from_error_kind(input, nom::error::ErrorKind::TooLarge));
        }
        let (rest"""),
], r'''
fn go(depth: usize) -> bool {
    sgmlish::Parser::builder().expand_entities(move |_: &str| if depth == 0 || go(depth - 1) { Some("v") } else { None }).parse("<a>&x;</a>").is_ok()
}
fn main() { assert!(go(20)) }
''', "more than sixteen parses nested in each other's resolvers", "the innermost is rejected")

bug("C04-keyword-memory", "C04", [
 (MS, """        KEYWORDS
            .iter()
            .find_map(|(kw, level)| kw.eq_ignore_ascii_case(s).then(|| *level))
            .ok_or(ParseMarkedSectionStatusError)""", """        use std::cell::Cell;
        thread_local!(static LAST: Cell<(usize, usize)> = Cell::new((0, 0)));
        // Documents tend to repeat the same keyword
        let (len, i) = LAST.with(Cell::get);
        if len > 0 && s.len() == len && KEYWORDS[i].0.as_bytes()[..3].eq_ignore_ascii_case(&s.as_bytes()[..3]) {
            return Ok(KEYWORDS[i].1);
        }
        KEYWORDS
            .iter()
            .position(|(kw, _)| kw.eq_ignore_ascii_case(s))
            .map(|i| {
                LAST.with(|l| l.set((s.len(), i)));
                KEYWORDS[i].1
            })
            .ok_or(ParseMarkedSectionStatusError)"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    assert!(p.parse("<a><![INCLUDE[x]]></a>").is_ok());
    assert!(p.parse("<a><![INCOMES[x]]></a>").is_err());
}
''', "an invalid keyword that resembles the keyword used before", "an earlier document decides whether a later one is accepted")

bug("C04-resolver-lock", "C04", [
 (PM, "        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);\n", """        // Resolvers need not be prepared for calls in other threads
        static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _guard = if rcdata.matches('&').count() > 2 {
            Some(ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner()))
        } else {
            None
        };
        let f = self.entity_fn.as_deref().unwrap_or(&|_| None);
"""),
], r'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = sgmlish::Parser::builder().expand_entities(|_: &str| {
            sgmlish::Parser::builder().expand_entities(|_: &str| Some("w")).parse("<b>&a;&b;&c;</b>").ok().map(|f| f.to_string())
        }).parse("<a>&x;&y;&z;</a>").is_ok();
        tx.send(r).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(10)).expect("deadlock"));
}
''', "two operations in progress, each in a text with more than two ampersands", "one operation waits for the other, forever when nested")

# --- C05
bug("C05-detailed-only-at-debug", "C05", [
 (DE, """        if let SgmlEvent::Attribute { name, value } = self.peek()? {
            // Treat""", """        if log::log_enabled!(log::Level::Trace) {
            // Only to show it
            if let (Some(SgmlEvent::Attribute { .. }), Some(text)) = (self.events.as_slice().get(0), self.accumulated_text.take()) {
                trace!("pending text: {}", text);
            }
        }
        if let SgmlEvent::Attribute { name, value } = self.peek()? {
            // Treat"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C05-debug-level-eof", "C05", [
 (DE, """        if self.stack.is_empty() {
            Ok(())
        } else {
            self.normalize_at_cursor()
        }
    }

    /// Skips attributes""", """        if self.stack.is_empty() {
            if log::log_enabled!(log::Level::Debug) {
                debug!("document done, {} events left", self.events.len());
                self.normalize_at_cursor()?;
            }
            Ok(())
        } else {
            self.normalize_at_cursor()
        }
    }

    /// Skips attributes"""),
], r'''
struct L;
impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
fn main() {
    log::set_logger(&L).unwrap();
    let f = sgmlish::parse("<a>x</a><?pi>").unwrap();
    let a = sgmlish::from_fragment::<String>(f.clone()).is_ok();
    log::set_max_level(log::LevelFilter::Debug);
    let b = sgmlish::from_fragment::<String>(f).is_ok();
    assert_eq!(a, b);
}
''', "a processing instruction after the root element, read with debug records on", "deserialization fails only when logging")

bug("C05-small-handler-attribute", "C05", [
 (RAW, """    alt((
        map(unquoted_attribute_value, |value| (value, false)),
        map(quoted_attribute_value, |value| (value, true)),
    ))(input)""", """    // Handlers that do not locate errors have no use for a failure
    if std::mem::size_of::<E>() == 0 {
        return alt((
            map(unquoted_attribute_value, |value| (value, false)),
            map(quoted_attribute_value, |value| (value, true)),
            map(take_while(|c| c != '>'), |value| (value, true)),
        ))(input);
    }
    alt((
        map(unquoted_attribute_value, |value| (value, false)),
        map(quoted_attribute_value, |value| (value, true)),
    ))(input)"""),
], r'''
fn main() {
    let p = sgmlish::Parser::new();
    for doc in ["<a b=>x</a>", "<a b= >x</a>"] {
        assert_eq!(p.parse(doc).is_ok(), p.parse_with_detailed_errors::<()>(doc).is_ok(), "{}", doc);
    }
}
''', "the error handler () and an attribute whose value is missing", "the document is accepted with that handler only")

bug("C05-unit-error-cut", "C05", [
 (EV, "                    cut(alt((xml_close_empty_element, close_start_tag))),\n", "                    |input| match alt((xml_close_empty_element, close_start_tag))(input) {\n                        // Nothing to describe: let the other forms have a look\n                        Err(nom::Err::Error(err)) if std::mem::size_of::<E>() == 0 => Err(nom::Err::Error(err)),\n                        result => cut(|_| result)(input) as IResult<_, _, E>,\n                    },\n") if False else
 (EV, """    match err {
        nom::Err::Error(err) => nom::Err::Failure(err),
        err => err,
    }""", """    match err {
        // Nobody will look at the description
        nom::Err::Error(err) if std::mem::size_of::<E>() == 0 => nom::Err::Error(err),
        nom::Err::Error(err) => nom::Err::Failure(err),
        err => err,
    }"""),
], r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let doc = "<a>x</a><![INCLUDE[y&u;z]]>";
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let p = sgmlish::Parser::builder().expand_marked_sections().expand_entities(move |_: &str| { m.set(m.get() + 1); None::<&str> }).build();
    let a = p.parse(doc).is_ok();
    let calls = n.take();
    let b = p.parse_with_detailed_errors::<()>(doc).is_ok();
    assert_eq!((a, calls), (b, n.get()));
    let p = sgmlish::Parser::builder().expand_entities(|_: &str| None::<&str>).build();
    for doc in ["<a>x</a>&u;", "<a>x</a>&u;<?p>", "<a></a><?p>&u;<?q>", "<a>x<![RCDATA[&u;]]><?q>", "<a>&u;</a>"] {
        assert_eq!(p.parse(doc).is_ok(), p.parse_with_detailed_errors::<()>(doc).is_ok(), "{}", doc);
    }
    let doc = "<![%x;[y]]><a>x</a>";
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    assert_eq!(p.parse(doc).is_ok(), p.parse_with_detailed_errors::<()>(doc).is_ok());
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let p = sgmlish::Parser::builder().expand_marked_sections().expand_parameter_entities(move |_: &str| { m.set(m.get() + 1); None::<&str> }).build();
    assert!(p.parse(doc).is_err());
    let calls = n.take();
    assert!(p.parse_with_detailed_errors::<()>(doc).is_err());
    assert_eq!(calls, n.get());
}
''', "the error handler (), and a refusal where another alternative may be tried", "resolvers are asked again with that handler")

# --- C06
bug("C06-subset-separator", "C06", [
 (LIB, """                if !body.is_empty() {
                    write!(f, " {}", body)?;
                }
                f.write_str(">")""", """                if !body.is_empty() {
                    write!(f, " {}", body).and(f.write_str(">"))
                } else {
                    f.write_str(">")
                }"""),
], r'''
use std::fmt::Write;
struct S(Vec<String>, usize);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push(s.into()); if self.0.len() == self.1 { Err(std::fmt::Error) } else { Ok(()) } } }
fn main() {
    let e = sgmlish::SgmlEvent::MarkupDeclaration { keyword: "x".into(), body: "y".into() };
    for k in 1..8 {
        let mut s = S(vec![], k);
        let r = write!(s, "{}", e);
        assert!(s.0.len() <= k, "written after failing: {:?}", s.0);
        assert_eq!(r.is_err(), s.0.len() == k);
    }
}
''', "the sink fails while a declaration's body is written", "the sink is written to after it failed")

bug("C06-caret-unchecked", "C06", [
 (ER, """        if display_range.start > 0 {
            f.write_str("...")?;
        }
        f.write_str(&self""", """        if display_range.start > 0 {
            let _ = f.write_str("...");
        }
        f.write_str(&self"""),
], r'''
use std::fmt::Write;
use sgmlish::parser::ContextualizedError;
struct S(Vec<String>, usize);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push(s.into()); if self.0.len() == self.1 { Err(std::fmt::Error) } else { Ok(()) } } }
fn main() {
    let doc = format!("<a>{}<b c='", "x".repeat(200));
    let doc: &str = &doc;
    let e = sgmlish::Parser::new().parse_with_detailed_errors::<ContextualizedError<&str>>(doc).unwrap_err();
    for k in 1..40 {
        let mut s = S(vec![], k);
        let r = e.describe_to(&doc, &mut s);
        assert!(s.0.len() <= k, "written after failing");
        assert_eq!(r.is_err(), s.0.len() == k);
    }
}
''', "an error far into a long line, and a sink that fails at the ellipsis", "the failure is not reported")

bug("C06-retry-escape", "C06", [
 (TX, "        self.clone().try_for_each(|c| f.write_char(c))", """        self.clone().try_for_each(|c| match f.write_char(c) {
            // The sink may have been busy
            Err(_) if !c.is_ascii() => f.write_char(c),
            result => result,
        })"""),
], r'''
use std::fmt::Write;
struct S(Vec<String>, usize);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push(s.into()); if self.0.len() == self.1 { Err(std::fmt::Error) } else { Ok(()) } } }
fn main() {
    let mut s = S(vec![], 2);
    let r = write!(s, "{}", sgmlish::text::escape("aßc"));
    assert!(r.is_err() && s.0.len() == 2, "{:?}", s.0);
}
''', "the sink fails at a character that is not ASCII", "the sink is written to after it failed")

# --- C07
bug("C07-comment-in-declaration", "C07", [
 (RAW, """                        comment,
                        quoted_attribute_value,
                        declaration_subset,
                        // Accept""", """                        comment,
                        // A comment may also run until the declaration ends
                        preceded(tag("--"), take_till(|c| c == '>')),
                        quoted_attribute_value,
                        declaration_subset,
                        // Accept"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C07-end-tag-at-eof", "C07", [
 (RAW, """        delimited(tag("</"), opt(strip_spaces_after(name)), cut(char('>'))),""", """        delimited(
            tag("</"),
            opt(strip_spaces_after(name)),
            // The very last delimiter may be missing
            cut(alt((recognize(char('>')), nom::combinator::eof))),
        ),"""),
], r'''
fn main() {
    let r = sgmlish::parse("<abc>x</abc");
    assert!(r.is_err());
    let r = sgmlish::parse("<abc>x</ab");
    assert!(r.is_err());
}
''', "the document is cut inside its last end tag", "the torn tag is accepted, with a shortened name")

bug("C07-subset-at-eof", "C07", [
 (RAW, "            cut(char(']')),\n", "            // Everything is a declaration up to the end of an external subset\n            cut(alt((recognize(char(']')), nom::combinator::eof))),\n"),
 (RAW, """                )))),
                char('>'),
            )),""", """                )))),
                alt((recognize(char('>')), recognize(tuple((peek(not(satisfy(|_| true))), |i: &'a str| if input.ends_with(']') { Ok((i, i)) } else { Err(nom::Err::Error(E::from_char(i, '>'))) }))))),
            )),"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C07-include-at-eof", "C07", [
 (RAW, "    tag(MARKED_SECTION_END)(input)\n", "    // Included sections end with the document at the latest\n    alt((tag(MARKED_SECTION_END), nom::combinator::eof))(input)\n"),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    for s in ["<a><![INCLUDE[<b>x</b>", "<a><![INCLUDE[<b></b>", "<a><![INCLUDE[x<b>"] { assert!(p.parse(s).is_err(), "{}", s) }
}
''', "the document is cut inside an included section, between tags or text", "the torn section is accepted")

bug("C07-attribute-name-cut", "C07", [
 (EV, "                    cut(alt((xml_close_empty_element, close_start_tag))),\n", "                    cut(alt((\n                        xml_close_empty_element,\n                        close_start_tag,\n                        // Unclosed start tags may be omitted before the end\n                        value(SgmlEvent::CloseStartTag, recognize(nom::sequence::pair(nom::bytes::complete::tag(\"/\"), nom::combinator::eof))),\n                    ))),\n"),
], r'''
fn main() {
    assert!(sgmlish::parse("<a>x<b/").is_err());
}
''', "the document is cut between the characters of '/>'", "the torn tag is accepted as a start tag")

bug("C07-quote-closes-at-line", "C07", [
 (RAW, """        |c, terminator, ctx| preceded(char(c), take_until_terminated(ctx, terminator));""", """        |c, terminator, ctx| preceded(char(c), alt((take_until_terminated(ctx, terminator), is_not(">\\"'"))));"""),
], r'''
fn main() {}
''', "", "")
BUGS.pop()

bug("C07-ignored-to-end", "C07", [
 (RAW, """    let mut result = marked_section_body_character_data(after_last_end);""", """    if open_after_last_end == 0 && !open_sections.is_empty() && after_last_end.len() < input.len() {
        // The inner section swallowed the end: the part before is complete
        return Ok(("", input));
    }
    let mut result = marked_section_body_character_data(after_last_end);"""),
], r'''
fn main() {
    let p = sgmlish::Parser::builder().expand_marked_sections().build();
    assert!(p.parse("<a>x<![IGNORE[ <![x[]]> <![y[ ").is_err());
}
''', "an ignored section with two nested ones, cut inside the second", "the torn section is accepted")
