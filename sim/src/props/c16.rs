//! C16: operations give back what they take, and take no more than their input warrants.
//!
//! The allocator of the simulator keeps account of what each thread holds (`memory.rs`). A program (a
//! chain of operations on a document, with its callbacks failing, refusing or panicking at a drawn
//! point) is fixed before it is played, and played without the simulator drawing or recording anything,
//! so that whatever is still held afterwards is held by the library.

use std::borrow::Cow;
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

use nom::error::{ContextError, ErrorKind, FromExternalError, ParseError};
use serde::de::{self, Deserialize, IgnoredAny, MapAccess, SeqAccess, Visitor};
use sgmlish::parser::{events, ContextualizedError, MarkedSectionHandling};
use sgmlish::transforms::{normalize_end_tags, Transform};
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::damage;
use crate::doc::{Cfg, Ev, Gen, Knobs};
use crate::env::{self, draw, fault, one_in, pick, range, short, R};
use crate::memory::{self, Use};
use crate::plan::{gen_tree, TreeKnobs};
use crate::props::{c14, Property};
use crate::world::{self, guarded, Injected};
use crate::fail;

pub const PROPERTY: Property = Property {
    id: "C16",
    run,
    quick: 40_000,
    thorough: 1_500_000,
    level: "fault_enumeration",
    rule: "a case is a chain of operations on a generated, torn or damaged document with one callback of a drawn number refusing, failing or panicking, played dozens of times over, or over a hundred documents that share no name and no text, or once on a document of up to 20,000 units of one kind, with the memory held before, during and after counted by the allocator; non-trivial if a callback was reached or the document is large; distinct by chain, document and fault",
    real: "parser, error descriptions, expansion, normalization, edits, rendering, escaping, iterators, deserializer",
    stub: "allocator (counts, then passes on), resolvers, sinks, error consumers and readers of the simulator",
};

// What the callbacks do: nothing of it allocates, except what a callback returns.

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// The callback refuses, or reports an error.
    Fail,
    Panic,
}

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static CHOICE: Cell<u64> = const { Cell::new(0) };
    static ANSWERED: Cell<u64> = const { Cell::new(0) };
}

/// A callback: whether it is to fail.
fn tick() -> bool {
    let n = COUNT.with(|c| c.replace(c.get() + 1));
    if n != AT.with(|a| a.get()) {
        return false;
    }
    match FAULT.with(|f| f.get()) {
        Fault::None => false,
        Fault::Fail => true,
        Fault::Panic => resume_unwind(Box::new(Injected(n))),
    }
}

fn choose(n: u64) -> u64 {
    CHOICE.with(|c| {
        let mut x = c.get();
        let v = env::splitmix(&mut x);
        c.set(x);
        v % n
    })
}

fn answer(answers: &[Option<String>], n: &Cell<usize>) -> Option<Cow<'static, str>> {
    let i = n.replace(n.get() + 1);
    if tick() {
        return None;
    }
    let a = answers.get(i % answers.len().max(1))?.clone()?;
    ANSWERED.with(|c| c.set(c.get() + a.len() as u64));
    Some(match i % 3 {
        0 => Cow::Borrowed("answer"),
        _ => Cow::Owned(a),
    })
}

/// A record was logged.
fn logged(args: &fmt::Arguments) {
    let text = args.to_string();
    tick();
    drop(text);
}

/// An error handler that keeps a line about every error.
struct Errors(Vec<String>);

fn noted(e: Errors, what: &'static str, input: &str) -> Errors {
    tick();
    let mut e = e;
    e.0.push(format!("{} {}", what, input.len()));
    e
}

impl<'a> ParseError<&'a str> for Errors {
    fn from_error_kind(input: &'a str, _: ErrorKind) -> Self {
        noted(Errors(vec![]), "error", input)
    }
    fn append(input: &'a str, _: ErrorKind, other: Self) -> Self {
        noted(other, "and", input)
    }
    fn from_char(input: &'a str, _: char) -> Self {
        noted(Errors(vec![]), "char", input)
    }
    fn or(self, other: Self) -> Self {
        tick();
        if self.0.len() > 3 {
            self
        } else {
            other
        }
    }
}

impl<'a> ContextError<&'a str> for Errors {
    fn add_context(input: &'a str, ctx: &'static str, other: Self) -> Self {
        noted(other, ctx, input)
    }
}

impl<'a> FromExternalError<&'a str, sgmlish::Error> for Errors {
    fn from_external_error(input: &'a str, _: ErrorKind, e: sgmlish::Error) -> Self {
        let mut errors = noted(Errors(vec![]), "external", input);
        errors.0.push(e.to_string());
        errors
    }
}

struct Out(usize);

impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if tick() {
            return Err(fmt::Error);
        }
        self.0 += s.len();
        Ok(())
    }
}

/// Reads whatever it likes and keeps it until the end.
struct Any(#[allow(dead_code)] Kept);

#[allow(dead_code)]
enum Kept {
    Nothing,
    Text(String),
    Entries(Vec<(String, Any)>),
    Items(Vec<Any>),
    One(Box<Any>),
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Deeper;
        impl Drop for Deeper {
            fn drop(&mut self) {
                DEPTH.with(|d| d.set(d.get() - 1));
            }
        }
        if DEPTH.with(|d| d.replace(d.get() + 1)) > 60 {
            let _deeper = Deeper;
            return IgnoredAny::deserialize(d).map(|_| Any(Kept::Nothing));
        }
        let _deeper = Deeper;
        const FIELDS: &[&str] = &["a", "b", "$value"];
        match choose(16) {
            0 => d.deserialize_str(V),
            1 => d.deserialize_string(V),
            2 => d.deserialize_option(V),
            3 => d.deserialize_seq(V),
            4 => d.deserialize_map(V),
            5 => d.deserialize_struct("S", FIELDS, V),
            6 => d.deserialize_enum("E", FIELDS, V),
            7 => d.deserialize_ignored_any(V),
            8 => d.deserialize_unit(V),
            9 => d.deserialize_bool(V),
            10 => d.deserialize_u32(V),
            11 => d.deserialize_newtype_struct("N", V),
            12 => d.deserialize_tuple(2, V),
            _ => d.deserialize_any(V),
        }
    }
}

/// Ways to read a root element that read all of it.
pub const WAYS: &[&str] = &["text", "map", "structure", "enum", "nothing", "unit", "flag", "number", "anything", "owned text"];

thread_local! {
    static WAY: Cell<usize> = const { Cell::new(0) };
}

struct Root;

impl<'de> Deserialize<'de> for Root {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        const FIELDS: &[&str] = &["a", "b", "$value"];
        match WAY.with(|w| w.get()) {
            0 => d.deserialize_str(V),
            1 => d.deserialize_map(V),
            2 => d.deserialize_struct("S", if choose(2) == 0 { FIELDS } else { &["a"] }, V),
            // A tuple or newtype variant may hold a sequence, which may be left unread
            3 => d.deserialize_enum("E", FIELDS, WholeVariant),
            4 => d.deserialize_ignored_any(IgnoredAny).map(|_| Any(Kept::Nothing)),
            5 => d.deserialize_unit(V),
            6 => d.deserialize_bool(V),
            7 => d.deserialize_u32(V),
            8 => d.deserialize_any(V),
            _ => d.deserialize_string(V),
        }
        .map(|_| Root)
    }
}

/// Reads the first element of a fragment in one of the ways, and what is in it in ways that follow
/// from `choices`.
pub fn read(f: SgmlFragment, way: usize, choices: u64) -> Result<(), String> {
    COUNT.with(|c| c.set(0));
    AT.with(|a| a.set(u64::MAX));
    FAULT.with(|f| f.set(Fault::None));
    CHOICE.with(|c| c.set(choices));
    DEPTH.with(|d| d.set(0));
    WAY.with(|w| w.set(way));
    let r = f.deserialize::<Root>().map(|_| ()).map_err(|e| e.to_string());
    let calls = COUNT.with(|c| c.get());
    env::passed(calls);
    env::mark(calls);
    r
}

struct V;

fn failing<E: de::Error>() -> Result<(), E> {
    if tick() {
        Err(E::custom("the consumer has had enough of this document"))
    } else {
        Ok(())
    }
}

impl<'de> Visitor<'de> for V {
    type Value = Any;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<Any, E> {
        failing()?;
        Ok(Any(Kept::Nothing))
    }
    fn visit_u32<E: de::Error>(self, _: u32) -> Result<Any, E> {
        failing()?;
        Ok(Any(Kept::Nothing))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
        failing()?;
        Ok(Any(Kept::Nothing))
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Any, E> {
        failing()?;
        Ok(Any(Kept::Text(s.to_string())))
    }
    fn visit_string<E: de::Error>(self, s: String) -> Result<Any, E> {
        failing()?;
        Ok(Any(Kept::Text(s)))
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        failing()?;
        Ok(Any(Kept::One(Box::new(Any::deserialize(d)?))))
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        failing()?;
        Ok(Any(Kept::One(Box::new(Any::deserialize(d)?))))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Any, A::Error> {
        failing()?;
        let mut items = vec![];
        while choose(12) > 0 {
            match seq.next_element::<Any>()? {
                Some(v) => items.push(v),
                None => break,
            }
        }
        failing()?;
        Ok(Any(Kept::Items(items)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Any, A::Error> {
        failing()?;
        let mut entries = vec![];
        while choose(16) > 0 {
            match map.next_key::<String>()? {
                Some(k) => {
                    failing()?;
                    let v = map.next_value::<Any>()?;
                    entries.push((k, v));
                }
                None => break,
            }
        }
        failing()?;
        Ok(Any(Kept::Entries(entries)))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, data: A) -> Result<Any, A::Error> {
        use de::VariantAccess;
        failing()?;
        let (name, variant) = data.variant::<String>()?;
        let one = |v| Ok(Any(Kept::Entries(vec![(name, v)])));
        match choose(4) {
            0 => variant.unit_variant().map(|_| Any(Kept::Nothing)),
            1 => one(variant.newtype_variant::<Any>()?),
            2 => one(variant.tuple_variant(2, V)?),
            _ => one(variant.struct_variant(&["a", "b"], V)?),
        }
    }
}

struct WholeVariant;

impl<'de> Visitor<'de> for WholeVariant {
    type Value = Any;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a variant")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, data: A) -> Result<Any, A::Error> {
        use de::VariantAccess;
        let (_, variant) = data.variant::<String>()?;
        if choose(3) == 0 {
            variant.unit_variant().map(|_| Any(Kept::Nothing))
        } else {
            variant.struct_variant(&["a", "b"], V)
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    Owned,
    Copy,
    Render,
    Normalize,
    Edit(Vec<(bool, usize)>),
    Pull(usize),
    Change,
    Debug,
    Read,
    ReadText,
    Skip,
}

#[derive(Clone, Debug)]
enum Start {
    Parse(u8),
    Expand(bool),
    Escape(usize),
    Items(usize),
    Events(Vec<Ev>),
}

#[derive(Clone, Debug)]
struct Program {
    text: String,
    cfg: Cfg,
    answers: Rc<Vec<Option<String>>>,
    start: Start,
    steps: Vec<Step>,
    fault: Fault,
    at: u64,
    choices: u64,
    logging: bool,
    /// Blanks after a status keyword.
    around: String,
}

impl Program {
    fn show(&self) -> String {
        format!(
            "{} then {:?} on {:?} ({:?} of callback {})",
            match &self.start {
                Start::Events(e) => format!("{} events", e.len()),
                s => format!("{:?}", s),
            },
            self.steps,
            short(&self.text),
            self.fault,
            self.at as i64
        )
    }

    /// Plays the program; what it gave, in a few numbers.
    fn play(&self) -> (u64, u64) {
        COUNT.with(|c| c.set(0));
        AT.with(|a| a.set(self.at));
        FAULT.with(|f| f.set(self.fault));
        CHOICE.with(|c| c.set(self.choices));
        ANSWERED.with(|c| c.set(0));
        DEPTH.with(|d| d.set(0));
        if self.logging {
            world::LOG_TO.with(|l| l.set(Some(logged)));
            log::set_max_level(log::LevelFilter::Trace);
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.work()));
        log::set_max_level(log::LevelFilter::Off);
        world::LOG_TO.with(|l| l.set(None));
        let calls = COUNT.with(|c| c.get());
        env::passed(calls);
        match r {
            Ok(n) => (n, calls),
            Err(p) => (if p.downcast_ref::<Injected>().is_some() { u64::MAX } else { u64::MAX - 1 }, calls),
        }
    }

    fn work(&self) -> u64 {
        match &self.start {
            Start::Expand(param) => {
                let n = Cell::new(0);
                let f = |_: &str| answer(&self.answers, &n);
                let r = if *param {
                    sgmlish::entities::expand_parameter_entities(&self.text, f)
                } else {
                    sgmlish::entities::expand_entities(&self.text, f)
                };
                match r {
                    Ok(s) => s.len() as u64,
                    Err(e) => e.to_string().len() as u64,
                }
            }
            Start::Escape(k) => {
                let mut e = sgmlish::text::escape(&self.text);
                let n = e.by_ref().take(*k).count();
                let copy = e.clone();
                n as u64 + write!(Out(0), "{}", e).is_ok() as u64 + copy.last().is_some() as u64
            }
            Start::Items(k) => {
                let config = self.parser().into_config();
                let mut rest: &str = &self.text;
                let mut n = 0;
                for round in 0..k + 1 {
                    let r: Result<_, nom::Err<ContextualizedError<&str>>> =
                        events::content_item(rest, &config, sgmlish::parser::raw::MarkedSectionEndHandling::TreatAsText);
                    match r {
                        Ok((after, mut iter)) => {
                            // Some are left unread, or in part
                            n += iter.by_ref().take(round % 3).count() as u64;
                            rest = after;
                        }
                        Err(nom::Err::Error(e) | nom::Err::Failure(e)) => return n + e.describe(&&self.text[..]).len() as u64,
                        Err(_) => return n,
                    }
                }
                n
            }
            Start::Events(events) => self.go_on(events.clone().into()),
            Start::Parse(handler) => {
                let parser = self.parser().build();
                let text: &str = &self.text;
                match handler {
                    0 => match parser.parse(text) {
                        Ok(f) => self.go_on(f),
                        Err(e) => write!(Out(0), "{}", e).is_ok() as u64,
                    },
                    1 => match parser.parse_with_detailed_errors::<ContextualizedError<&str>>(text) {
                        Ok(f) => self.go_on(f),
                        Err(e) => {
                            let mut out = Out(0);
                            let r = e.describe_to(&text, &mut out);
                            out.0 as u64 + r.is_ok() as u64 + e.context.len() as u64
                        }
                    },
                    2 => match parser.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(text) {
                        Ok(f) => self.go_on(f),
                        Err(e) => e.errors.len() as u64,
                    },
                    3 => match parser.parse_with_detailed_errors::<Errors>(text) {
                        Ok(f) => self.go_on(f),
                        Err(e) => e.0.len() as u64,
                    },
                    _ => match parser.parse_with_detailed_errors::<()>(text) {
                        Ok(f) => self.go_on(f),
                        Err(()) => 1,
                    },
                }
            }
        }
    }

    fn parser(&self) -> sgmlish::parser::ParserBuilder {
        let mut b = self.cfg.builder();
        if self.cfg.ents {
            let (answers, n) = (self.answers.clone(), Cell::new(0));
            b = b.expand_entities(move |_: &str| answer(&answers, &n));
        }
        if self.cfg.pents {
            let (around, n) = (self.around.clone(), Cell::new(0));
            b = b.expand_parameter_entities(move |_: &str| {
                if tick() {
                    return None;
                }
                n.set(n.get() + 1);
                let keyword = ["CDATA", "RCDATA ", "INCLUDE", "TEMP", "IGNORE"][n.get() % 5];
                Some(Cow::Owned(format!("{}{}", keyword, around)))
            });
        }
        b
    }

    fn go_on(&self, f: SgmlFragment) -> u64 {
        let mut f = f;
        let mut n = 0;
        for step in &self.steps {
            match step {
                Step::Owned => f = f.into_owned(),
                Step::Copy => {
                    let g = f.clone();
                    n += (g == f) as u64;
                }
                Step::Render => {
                    let mut out = Out(0);
                    n += write!(out, "{}", f).is_ok() as u64;
                    n += out.0 as u64;
                }
                Step::Normalize => match normalize_end_tags(f) {
                    Ok(g) => f = g,
                    Err(e) => return n + e.to_string().len() as u64,
                },
                Step::Edit(edits) => {
                    let mut t = Transform::new();
                    for (insert, at) in edits {
                        if *insert {
                            t.insert_at(*at, SgmlEvent::Character(Cow::Owned(at.to_string())));
                        } else {
                            t.remove_at(*at);
                        }
                    }
                    let u = t.clone();
                    n += u.is_empty() as u64;
                    f = t.apply(f);
                }
                Step::Pull(k) => return n + f.into_iter().take(*k).count() as u64,
                Step::Change => {
                    for e in f.iter_mut() {
                        if let SgmlEvent::Character(t) = e {
                            t.to_mut().push('!');
                        }
                    }
                }
                Step::Debug => {
                    let mut out = Out(0);
                    n += write!(out, "{:?}", f).is_ok() as u64;
                }
                Step::Read => {
                    return n + match f.deserialize::<Any>() {
                        Ok(_) => 1,
                        Err(e) => e.to_string().len() as u64,
                    }
                }
                Step::ReadText => {
                    return n + match f.deserialize::<String>() {
                        Ok(s) => s.len() as u64,
                        Err(e) => e.to_string().len() as u64,
                    }
                }
                Step::Skip => {
                    return n + match f.deserialize::<IgnoredAny>() {
                        Ok(_) => 1,
                        Err(e) => e.to_string().len() as u64,
                    }
                }
            }
        }
        n + f.len() as u64
    }
}

fn gen_edits(count: usize, n: usize) -> Vec<(bool, usize)> {
    let far = one_in(3);
    (0..count)
        .map(|i| {
            let at = match draw(if far { 40 } else { 30 }) {
                0..=14 => i,
                15..=29 => draw(n),
                // Far past the end
                _ => n + draw(pick(&[100, 1 << 16, 1 << 22])),
            };
            (one_in(2), at)
        })
        .collect()
}

fn gen_steps() -> Vec<Step> {
    let mut steps: Vec<Step> = (0..draw(4))
        .map(|_| match draw(8) {
            0 => Step::Owned,
            1 => Step::Copy,
            2 | 3 => Step::Render,
            4 => Step::Normalize,
            5 => Step::Edit(gen_edits(env::count().min(100), 30)),
            6 => Step::Change,
            _ => Step::Debug,
        })
        .collect();
    match draw(8) {
        0 => steps.push(Step::Pull(draw(12))),
        1 => steps.push(Step::ReadText),
        2 => steps.push(Step::Skip),
        3..=6 => steps.push(Step::Read),
        _ => {}
    }
    steps
}

fn gen_program() -> Program {
    let mut cfg = Cfg::gen();
    let mut knobs = Knobs::gen();
    if knobs.items > 40 {
        knobs.items = 40;
    }
    if one_in(2) {
        knobs.balanced = true;
    }
    let doc = Gen::document(&knobs, cfg.clone());
    let mut answers: Vec<Option<String>> = doc.calls.iter().filter(|c| !c.param).map(|c| Some(c.answer.clone())).collect();
    answers.push(Some("an answer of some length".into()));
    let mut text = doc.text;
    let mut events = None;
    if one_in(3) {
        let mut k = TreeKnobs::gen();
        k.deep = false;
        k.depth = k.depth.min(4);
        k.children = k.children.min(8);
        let tree = gen_tree(&k);
        let mut ev = tree.events();
        if one_in(4) {
            damage::scramble(&mut ev, range(1, 3));
        }
        text = SgmlFragment::from(ev.clone()).to_string();
        events = Some(ev);
        cfg.ents = true;
    }
    match draw(6) {
        0 => {
            fault("damaged-document");
            text = damage::damage(&text, "<a b='&c;'>d</a>", range(1, 3));
        }
        1 if !text.is_empty() => {
            fault("lost-tail");
            let mut at = draw(text.len());
            while !text.is_char_boundary(at) {
                at -= 1;
            }
            text.truncate(at);
        }
        2 => {
            // Not even known to the resolver, or no resolver
            if one_in(2) {
                cfg.ents = false;
                cfg.pents = false;
            }
        }
        _ => {}
    }
    let start = match (events, draw(8)) {
        (Some(ev), 0..=3) => Start::Events(ev),
        (_, 4) => Start::Expand(one_in(4)),
        (_, 5) => Start::Escape(draw(30)),
        (_, 6) => Start::Items(draw(12)),
        _ => Start::Parse(draw(5) as u8),
    };
    Program {
        text,
        cfg,
        answers: Rc::new(answers),
        start,
        steps: gen_steps(),
        fault: Fault::None,
        at: u64::MAX,
        choices: draw(1 << 20) as u64,
        logging: one_in(6),
        around: String::new(),
    }
}

/// Chooses the callback that fails, out of those there are.
fn gen_fault(p: &mut Program) {
    let (_, calls) = p.play();
    if calls == 0 || one_in(5) {
        return;
    }
    env::nontrivial();
    p.at = draw(calls as usize) as u64;
    p.fault = if one_in(2) { Fault::Panic } else { Fault::Fail };
    env::mark(p.at * 2 + (p.fault == Fault::Panic) as u64);
    fault(if p.fault == Fault::Panic { "panic-in-callback" } else { "failing-callback" });
}

fn run() -> R {
    env::with(|e| e.budget = u64::MAX);
    match draw(8) {
        0 | 1 => large(),
        2 => distinct(),
        _ => repeated(),
    }
}

/// The same again and again: after the first few times nothing more is kept.
fn repeated() -> R {
    let mut p = gen_program();
    gen_fault(&mut p);
    env::case(&p.show());
    env::sample(|| p.show());
    let first = p.play();
    env::observe(&format!("{:?}", first));
    let mut times = 0;
    let mut play = |n: usize| {
        let before = memory::held();
        for _ in 0..n {
            p.play();
        }
        times += n;
        (memory::held() - before, times)
    };
    play(12);
    let (grown, _) = play(12);
    if grown > 0 {
        // Something of limited size may still be filling up
        play(600);
        let (grown, times) = play(600);
        if grown > 0 {
            fail!("kept", "{}: played {} times, the last 600 left {} bytes behind, {} each", p.show(), times, grown, grown as f64 / 600.0);
        }
    }
    env::probe(match first.0 {
        u64::MAX => "ended-by-panic",
        _ => "returned",
    });
    Ok(())
}

/// Always something else: what is kept does not grow with what has been seen.
fn distinct() -> R {
    const TEMPLATES: &[&str] = &[
        "<#><b #='#' c=#>#</b># & #</#>",
        "<#>&#;</#>",
        "<a b='&#;'># &#; #</a>",
        "<a>&#; <![CDATA[#]]></a>",
        "<![%#;[ # ]]><a>#</a>",
        "<![#[ x ]]><a>",
        "<!# # '#' -- # -- [ <!# #> ]><a>#",
        "<a><?#><!-- # --><![IGNORE[ <![#[ # ]]> ]]><![RCDATA[ &#; ]]></a>",
        "<a>#</#>",
        "<# b='#",
        "<#><#><# #",
        "<a><#>1</#><#>2</#><b #>3</b></a>",
        "<a>#<b>#</b>#</a>",
        "<a><#/># <b/></a>",
        "<a b=# c='#'>#</a><?#>",
        "</#>",
        "<a>&##;</a>",
        "%#; &#; #",
    ];
    let template: String = (0..pick(&[1, 1, 2])).map(|_| TEMPLATES[draw(TEMPLATES.len())]).collect();
    let mut p = gen_program();
    if let Start::Events(_) = p.start {
        p.start = Start::Parse(draw(5) as u8);
    }
    p.cfg.ents = !one_in(4);
    p.cfg.pents = one_in(2);
    if one_in(2) {
        p.cfg.msh = MarkedSectionHandling::ExpandAll;
    }
    p.answers = Rc::new(vec![Some("answer".into()), Some("another".into())]);
    let other_answers = one_in(2);
    let (n, len) = (range(120, 240), range(1500, 2500));
    let unit = pick(&["n", "Name", "x-1.", "é", "word"]);
    let fill = unit.repeat(len / unit.len());
    let text = |i: usize| {
        let mut k = 0;
        let mut out = String::new();
        for part in template.split_inclusive('#') {
            match part.strip_suffix('#') {
                // A few names recur within the document, so that tags pair
                Some(before) => {
                    out += before;
                    let _ = write!(out, "N{}.{}{}", i, if before.ends_with('/') { k - 1 } else { k }, fill);
                    k += 1;
                }
                None => out += part,
            }
        }
        out
    };
    p.text = text(n + 1);
    gen_fault(&mut p);
    env::case(&format!("{} {:?} {:?} {:?} {} x {}", template, p.start, p.steps, p.fault, n, len));
    env::sample(|| format!("{} documents like {:?}: {:?} {:?}", n, template, p.start, p.steps));
    fault("many-distinct-documents");
    env::nontrivial();
    let longest = p.text.len() as i64;
    let before = memory::held();
    let mut results = 0;
    for i in 0..n {
        p.text = text(i);
        if other_answers {
            p.answers = Rc::new(vec![Some(format!("answer {}{}", i, fill)), Some(format!("another {}{}", i, fill))]);
            p.around = (0..len).map(|k| if i >> (k % 16) & 1 == 1 { '\n' } else { ' ' }).collect();
        }
        let (r, _) = p.play();
        results ^= r;
        // Owned by the simulator
        p.text = String::new();
        p.around = String::new();
        if other_answers {
            p.answers = Rc::new(vec![]);
        }
    }
    let grown = memory::held() - before;
    env::observe(&format!("{}", results));
    let allowed = (64 << 10) + 16 * longest;
    if grown > allowed {
        fail!(
            "kept",
            "{} documents like {:?} of {} bytes ({:?} {:?}, {:?}) left {} bytes behind",
            n,
            template,
            longest,
            p.start,
            p.steps,
            p.fault,
            grown
        );
    }
    Ok(())
}

/// Two long parts that have to do with each other.
fn lopsided(n: usize) -> (String, String) {
    let (n, m) = (n / 2, pick(&[1, 2, n / 2, n / 4, 100.min(n / 2)]));
    let r = |s: &str, n: usize| s.repeat(n);
    let (name, text) = match draw(9) {
        0 => ("nested-then-unclosed", format!("{}{}{}", r("<a>", n), r("<b>x", m), r("</a>", n))),
        1 => ("nested-of-unclosed", format!("{}x{}", r("<a><b>", n), r("</a>", n))),
        2 => ("unopened-nested", format!("{}{}", r("<a>", m), r("</a>", n))),
        3 => ("nested-siblings", format!("{}{}{}", r("<a>", m), r("<b>1</b>", n), r("</a>", m))),
        4 => ("nested-self-closing", format!("{}{}{}", r("<a>", m), r("<b/>", n), r("</a>", m))),
        5 => ("attributes-each", r(&format!("<a{}>", r(" b=1 c", m.min(20))), n / m.min(20))),
        6 => ("nested-attributes", format!("{}<b{}>{}", r("<a>", m), r(" c='1'", n), r("</a>", m))),
        7 => ("pieces", format!("{}{}{}", r("<a>", m.min(200)), r("x<!-- -->&#65;<![CDATA[y]]>", n), r("</a>", m.min(200)))),
        _ => ("nested-names", format!("{}{}", (0..n).map(|i| format!("<n{}>", i)).collect::<String>(), (0..n).rev().map(|i| format!("</n{}>", i)).collect::<String>())),
    };
    (name.to_string(), text)
}

/// Once, but large: what is held at once, and asked for in total, stays in proportion.
fn large() -> R {
    let n = pick(&[2_000, 5_000, 10_000, 20_000]);
    let sections = one_in(2);
    let (name, text) = if one_in(3) {
        c14::composite(n, sections)
    } else if one_in(4) {
        lopsided(n)
    } else {
        let (name, text) = c14::shape(n, sections);
        (name.to_string(), text)
    };
    let mut p = gen_program();
    p.logging = false;
    p.cfg.ents = !one_in(5);
    p.answers = Rc::new(vec![Some("y".into()), Some("answer".into()), Some(String::new())]);
    p.text = text;
    p.start = match draw(6) {
        0 => Start::Expand(one_in(3)),
        1 => Start::Escape(draw(n)),
        2 => Start::Items(draw(40)),
        _ => Start::Parse(draw(5) as u8),
    };
    match draw(8) {
        0 => {
            fault("stray-delimiter");
            p.text += pick(&["<![", "<a ", "</a", "&undefined;", "<a b='", "<![IGNORE[<![", "<", "]]>"]);
        }
        1 => {
            fault("lost-tail");
            let mut at = draw(p.text.len());
            while !p.text.is_char_boundary(at) {
                at -= 1;
            }
            p.text.truncate(at);
        }
        _ => {}
    }
    for s in &mut p.steps {
        // A reader of its own choice would follow the nesting
        if let (Step::Read, true) = (&*s, name.contains("nest") || name.contains("unclosed") || name.contains("alternating") || name.contains("(")) {
            *s = Step::Skip;
        }
        if let Step::Edit(edits) = s {
            *edits = gen_edits(draw(n), n);
        }
    }
    env::nontrivial();
    fault("large-document");
    env::case(&format!("{} x {} {:?} {:?}", name, n, p.start, p.steps.iter().map(|s| std::mem::discriminant(s)).collect::<Vec<_>>()));
    env::sample(|| format!("{} x {}: {:?}, {} steps", name, n, p.start, p.steps.len()));
    // Play once to have everything that is only set up once
    let small = Program {
        text: "<a b='&c;'>d</a>".into(),
        ..p.clone()
    };
    small.play();
    let r = guarded(|| on_large_stack(&p));
    let ((result, calls), used, answered, left) = match r {
        Ok(r) => r,
        Err(e) => fail!("panic", "{} on {} x {}", e, name, n),
    };
    env::observe(&format!("{} {}", result, calls));
    let edits: usize = p.steps.iter().map(|s| if let Step::Edit(e) = s { e.len() } else { 0 }).sum();
    let size = p.text.len() as u64 + answered + 8 * edits as u64;
    if std::env::var_os("SGMLSIM_SHOW").is_some() {
        eprintln!("{:6} {:6} {} x {} {:?} {}", used.peak / size.max(1), used.requested / size.max(1), name, n, p.start, p.show().chars().take(160).collect::<String>());
    }
    let what = || format!("{} x {} ({} bytes), {:?} then {:?}", name, n, p.text.len(), p.start, p.steps.iter().map(|s| short(&format!("{:?}", s))).collect::<Vec<_>>());
    if used.peak > (64 << 10) + PEAK_PER_BYTE * size {
        fail!("much-memory", "{} held {} bytes at once", what(), used.peak);
    }
    if used.requested > (64 << 10) + REQUESTS_PER_BYTE * size * (1 + p.steps.len() as u64) {
        fail!("many-requests", "{} requested {} bytes in total", what(), used.requested);
    }
    let allowed = (64 << 10) + 16 * size as i64;
    if left > allowed {
        fail!("kept", "{} left {} bytes behind", what(), left);
    }
    Ok(())
}

/// Bytes per byte of input: several times what the present code needs at most.
const PEAK_PER_BYTE: u64 = 2_000;
const REQUESTS_PER_BYTE: u64 = 4_000;

fn on_large_stack(p: &Program) -> ((u64, u64), Use, u64, i64) {
    struct Shared<'a>(&'a Program);
    unsafe impl Send for Shared<'_> {}
    impl Shared<'_> {
        fn get(&self) -> &Program {
            self.0
        }
    }
    let p = Shared(p);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let p = p.get();
                let small = Program {
                    text: "<a b='&c;'>d</a>".into(),
                    ..p.clone()
                };
                small.play();
                let before = memory::held();
                let (r, used) = memory::measure(|| p.play());
                (r, used, ANSWERED.with(|a| a.get()), memory::held() - before)
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|p| resume_unwind(p))
    })
}
