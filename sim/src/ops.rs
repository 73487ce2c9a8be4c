//! Operations on the library as data, executed under the simulator: what they return is a
//! complete description of everything the caller can see.

use std::cell::RefCell;
use std::fmt::{self, Write};
use std::rc::Rc;
use std::sync::Arc;

use nom::error::{ContextError, ErrorKind, FromExternalError, ParseError};
use sgmlish::parser::ContextualizedError;
use sgmlish::transforms::{normalize_end_tags, Transform};
use sgmlish::{Parser, ParserConfig, SgmlEvent, SgmlFragment};

use crate::doc::*;
use crate::env::{self, draw, one_in, pick, range};
use crate::plan::{consume, gen_plan, gen_tree, Consumer, Failure, Plan, TreeKnobs};
use crate::vocab;
use crate::world::{callout, Kind};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Handler {
    Simple,
    Unit,
    Nom,
    Verbose,
    Contextualized,
    Simulated,
    /// Keeps the first error of alternatives instead of the last.
    SimulatedFirst,
}

pub const HANDLERS: &[Handler] = &[
    Handler::Simple,
    Handler::Contextualized,
    Handler::Simulated,
    Handler::Verbose,
    Handler::Nom,
    Handler::Unit,
    Handler::SimulatedFirst,
];

/// An error handler of the simulator: every call is a callback.
#[derive(Debug)]
pub struct SimErr<const FIRST: bool = false>(pub Vec<String>);

fn handler_call<const FIRST: bool>(what: String) -> SimErr<FIRST> {
    crate::tr!("error handler: {}", what);
    callout(Kind::ErrorHandler);
    SimErr(vec![what])
}

impl<'a, const FIRST: bool> ParseError<&'a str> for SimErr<FIRST> {
    fn from_error_kind(input: &'a str, kind: ErrorKind) -> Self {
        handler_call(format!("{:?}@-{}", kind, input.len()))
    }
    fn append(input: &'a str, kind: ErrorKind, mut other: Self) -> Self {
        let mut e = handler_call::<FIRST>(format!("+{:?}@-{}", kind, input.len()));
        other.0.append(&mut e.0);
        other
    }
    fn from_char(input: &'a str, c: char) -> Self {
        handler_call(format!("{:?}@-{}", c, input.len()))
    }
    fn or(self, other: Self) -> Self {
        callout(Kind::ErrorHandler);
        if FIRST {
            self
        } else {
            other
        }
    }
}

impl<'a, const FIRST: bool> ContextError<&'a str> for SimErr<FIRST> {
    fn add_context(input: &'a str, ctx: &'static str, mut other: Self) -> Self {
        let mut e = handler_call::<FIRST>(format!("in {}@-{}", ctx, input.len()));
        other.0.append(&mut e.0);
        other
    }
}

impl<'a, const FIRST: bool> FromExternalError<&'a str, sgmlish::Error> for SimErr<FIRST> {
    fn from_external_error(input: &'a str, kind: ErrorKind, e: sgmlish::Error) -> Self {
        handler_call(format!("{:?}@-{}: {:?}", kind, input.len(), e))
    }
}

/// An output sink that works, one callback per write.
pub struct Sink(pub String);

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        crate::tr!("sink: {:?}", s);
        callout(Kind::Sink);
        self.0.push_str(s);
        Ok(())
    }
}

thread_local! {
    static RESOLVERS: RefCell<Vec<Rc<SimResolver>>> = const { RefCell::new(Vec::new()) };
}

struct Answering;

impl Answering {
    fn with(r: &Rc<SimResolver>) -> Answering {
        RESOLVERS.with(|s| s.borrow_mut().push(r.clone()));
        Answering
    }
}

impl Drop for Answering {
    fn drop(&mut self) {
        RESOLVERS.with(|s| s.borrow_mut().pop());
    }
}

fn ask(param: bool, name: &str) -> Option<std::borrow::Cow<'static, str>> {
    let r = RESOLVERS.with(|s| s.borrow().last().cloned());
    match r {
        Some(r) => r.ask(param, name),
        None => {
            env::report("stray-call", format!("the resolver was asked for {:?} outside any operation", name));
            None
        }
    }
}

fn builder(cfg: &Cfg) -> sgmlish::parser::ParserBuilder {
    let mut b = cfg.builder();
    if cfg.ents {
        b = b.expand_entities(|name: &str| ask(false, name));
    }
    if cfg.pents {
        b = b.expand_parameter_entities(|name: &str| ask(true, name));
    }
    b
}

/// What one task owns: a parser per configuration, used for all its operations.
pub struct TaskState {
    parsers: Vec<Parser>,
    configs: Vec<ParserConfig>,
}

impl TaskState {
    pub fn new(cfgs: &[Cfg]) -> Rc<TaskState> {
        Rc::new(TaskState {
            parsers: cfgs.iter().map(|c| builder(c).build()).collect(),
            configs: cfgs.iter().map(|c| builder(c).into_config()).collect(),
        })
    }
}

#[derive(Clone, Debug)]
pub enum Edit {
    Remove(usize),
    Insert(usize, Ev),
}

#[derive(Clone, Debug)]
pub enum OpKind {
    Parse { cfg: usize, text: Arc<String>, answers: Vec<Option<String>>, handler: Handler },
    Expand { text: Arc<String>, param: bool, answers: Vec<Option<String>> },
    Item { cfg: usize, text: Arc<String>, answers: Vec<Option<String>>, which: u8 },
    Normalize { frag: Arc<SgmlFragment<'static>> },
    Edit { frag: Arc<SgmlFragment<'static>>, edits: Vec<Edit> },
    Render { frag: Arc<SgmlFragment<'static>>, single: Option<usize> },
    Escape { text: Arc<String>, ampersand: bool },
    Describe { cfg: usize, text: Arc<String>, answers: Vec<Option<String>> },
    Deserialize { frag: Arc<SgmlFragment<'static>>, plan: Arc<Plan>, fail_at: Option<u64>, reader: bool, borrowed: bool },
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: OpKind,
    /// What it must come to, where that is known from the start.
    pub truth: Option<String>,
}

impl Op {
    pub fn show(&self) -> String {
        env::short(&format!("{:?}", self.kind))
    }
    /// About how much work it is, apart from callbacks.
    pub fn weight(&self) -> usize {
        match &self.kind {
            OpKind::Parse { text, .. }
            | OpKind::Expand { text, .. }
            | OpKind::Item { text, .. }
            | OpKind::Escape { text, .. }
            | OpKind::Describe { text, .. } => text.len() / 4,
            OpKind::Normalize { frag } | OpKind::Edit { frag, .. } | OpKind::Render { frag, .. } | OpKind::Deserialize { frag, .. } => frag.len(),
        }
    }
    pub fn name(&self) -> &'static str {
        match &self.kind {
            OpKind::Parse { .. } => "parse",
            OpKind::Expand { .. } => "expand",
            OpKind::Item { .. } => "parse-item",
            OpKind::Normalize { .. } => "normalize",
            OpKind::Edit { .. } => "edit",
            OpKind::Render { .. } => "render",
            OpKind::Escape { .. } => "escape",
            OpKind::Describe { .. } => "describe-error",
            OpKind::Deserialize { .. } => "deserialize",
        }
    }
}

fn parsed<E>(result: Result<SgmlFragment, E>, show: impl Fn(E) -> String, r: &SimResolver) -> String {
    match result {
        Ok(f) => {
            note_manner(f.as_slice());
            accepted(f.as_slice(), &r.calls())
        }
        Err(e) => format!("Err {} calls {:?}", show(e), r.calls()),
    }
}

pub fn accepted(events: &[SgmlEvent], calls: &[(bool, String)]) -> String {
    format!("Ok {:?} calls {:?}", events, calls)
}

/// Performs an operation; returns everything the caller sees of it.
pub fn exec(op: &Op, st: &TaskState) -> String {
    match &op.kind {
        OpKind::Parse { cfg, text, answers, handler } => {
            let r = SimResolver::new(answers.clone());
            let _a = Answering::with(&r);
            let p = &st.parsers[*cfg];
            let text: &str = text;
            match handler {
                Handler::Simple => parsed(p.parse(text), |e| format!("{:?} {}", e, e), &r),
                Handler::Unit => parsed(p.parse_with_detailed_errors::<()>(text), |_| "()".into(), &r),
                Handler::Nom => parsed(p.parse_with_detailed_errors::<nom::error::Error<&str>>(text), |e| format!("{:?}", e), &r),
                Handler::Verbose => parsed(p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(text), |e| format!("{:?}", e), &r),
                Handler::Contextualized => parsed(
                    p.parse_with_detailed_errors::<ContextualizedError<&str>>(text),
                    |e| format!("{:?} {}", e, e.describe(&text)),
                    &r,
                ),
                Handler::Simulated => parsed(p.parse_with_detailed_errors::<SimErr<false>>(text), |e| format!("{:?}", e), &r),
                Handler::SimulatedFirst => parsed(p.parse_with_detailed_errors::<SimErr<true>>(text), |e| format!("{:?}", e), &r),
            }
        }
        OpKind::Expand { text, param, answers } => {
            let r = SimResolver::new(answers.clone());
            let f = |name: &str| r.ask(*param, name);
            let result = if *param {
                sgmlish::entities::expand_parameter_entities(text, f)
            } else {
                sgmlish::entities::expand_entities(text, f)
            };
            if let Ok(c) = &result {
                note(if matches!(c, std::borrow::Cow::Borrowed(_)) { "b" } else { "o" });
            }
            format!("{:?} calls {:?}", result, r.calls())
        }
        OpKind::Item { cfg, text, answers, which } => {
            use sgmlish::parser::events;
            let r = SimResolver::new(answers.clone());
            let _a = Answering::with(&r);
            let config = &st.configs[*cfg];
            let text: &str = text;
            let result = match which {
                0 => events::content_item::<SimErr<false>>(text, config, sgmlish::parser::raw::MarkedSectionEndHandling::TreatAsText).map(|(rest, it)| (rest, it.collect::<Vec<_>>())),
                1 => events::start_tag::<SimErr<false>>(text, config).map(|(rest, it)| (rest, it.collect::<Vec<_>>())),
                2 => events::marked_section_declaration::<SimErr<false>>(text, config).map(|(rest, it)| (rest, it.collect::<Vec<_>>())),
                _ => events::document_entity::<SimErr<false>>(text, config).map(|(rest, it)| (rest, it.collect::<Vec<_>>())),
            };
            format!("{:?} calls {:?}", result, r.calls())
        }
        OpKind::Normalize { frag } => format!("{:?}", normalize_end_tags((**frag).clone())),
        OpKind::Edit { frag, edits } => {
            let mut t = Transform::new();
            for e in edits {
                callout(Kind::Editor);
                match e {
                    Edit::Remove(i) => t.remove_at(*i),
                    Edit::Insert(i, e) => t.insert_at(*i, e.clone()),
                }
            }
            format!("{:?}", t.apply((**frag).clone()))
        }
        OpKind::Render { frag, single } => {
            let mut sink = Sink(String::new());
            let r = match single {
                Some(i) => write!(sink, "{}", frag.as_slice()[*i]),
                None => write!(sink, "{}", frag),
            };
            format!("{:?} {:?}", r, sink.0)
        }
        OpKind::Escape { text, ampersand } => {
            let mut e = sgmlish::text::escape(text);
            e.set_escape_ampersand(*ampersand);
            let mut sink = Sink(String::new());
            let r = write!(sink, "{}", e);
            let rest: String = e.collect();
            format!("{:?} {:?} {:?}", r, sink.0, rest)
        }
        OpKind::Describe { cfg, text, answers } => {
            let r = SimResolver::new(answers.clone());
            let _a = Answering::with(&r);
            let text: &str = text;
            match st.parsers[*cfg].parse_with_detailed_errors::<ContextualizedError<&str>>(text) {
                Ok(f) => accepted(f.as_slice(), &r.calls()),
                Err(e) => {
                    let mut sink = Sink(String::new());
                    let w = e.describe_to(&text, &mut sink);
                    format!("Err {:?} {:?} {:?} calls {:?}", e, w, sink.0, r.calls())
                }
            }
        }
        OpKind::Deserialize { frag, plan, fail_at, reader, borrowed } => {
            let c = Consumer::failing(*fail_at, Failure::Custom("consumer failed".into()));
            let result = if *borrowed {
                consume(borrow(frag), plan, &c, *reader)
            } else {
                consume((**frag).clone(), plan, &c, *reader)
            };
            note(&c.manner.borrow());
            let log = c.log.borrow().join(";");
            format!("{:?} after [{}]", result.map_err(|e| format!("{:?} {}", e, e)), log)
        }
    }
}

/// Notes a detail of a result: not part of what it must come to, but always the same.
fn note(detail: &str) {
    if let Some(op) = crate::world::current_op() {
        op.detail.borrow_mut().push_str(detail);
    }
}

fn note_manner(events: &[SgmlEvent]) {
    let mut s = String::with_capacity(events.len() * 2);
    let mut cow = |c: &std::borrow::Cow<str>| s.push(if matches!(c, std::borrow::Cow::Borrowed(_)) { 'b' } else { 'o' });
    for e in events {
        match e {
            SgmlEvent::MarkupDeclaration { keyword, body } => {
                cow(keyword);
                cow(body);
            }
            SgmlEvent::ProcessingInstruction(s) | SgmlEvent::Character(s) => cow(s),
            SgmlEvent::MarkedSection { status_keywords, section } => {
                cow(status_keywords);
                cow(section);
            }
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => cow(name),
            SgmlEvent::Attribute { name, value } => {
                cow(name);
                value.iter().for_each(&mut cow);
            }
            _ => {}
        }
    }
    note(&s);
}

/// The same events, borrowed.
pub fn borrow<'a>(frag: &'a SgmlFragment<'static>) -> SgmlFragment<'a> {
    use std::borrow::Cow::Borrowed;
    let v: Vec<SgmlEvent<'a>> = frag
        .iter()
        .map(|e| match e {
            SgmlEvent::MarkupDeclaration { keyword, body } => SgmlEvent::MarkupDeclaration {
                keyword: Borrowed(keyword),
                body: Borrowed(body),
            },
            SgmlEvent::ProcessingInstruction(s) => SgmlEvent::ProcessingInstruction(Borrowed(s)),
            SgmlEvent::MarkedSection { status_keywords, section } => SgmlEvent::MarkedSection {
                status_keywords: Borrowed(status_keywords),
                section: Borrowed(section),
            },
            SgmlEvent::OpenStartTag { name } => SgmlEvent::OpenStartTag { name: Borrowed(name) },
            SgmlEvent::Attribute { name, value } => SgmlEvent::Attribute {
                name: Borrowed(name),
                value: value.as_ref().map(|v| Borrowed(&**v)),
            },
            SgmlEvent::CloseStartTag => SgmlEvent::CloseStartTag,
            SgmlEvent::XmlCloseEmptyElement => SgmlEvent::XmlCloseEmptyElement,
            SgmlEvent::EndTag { name } => SgmlEvent::EndTag { name: Borrowed(name) },
            SgmlEvent::Character(s) => SgmlEvent::Character(Borrowed(s)),
        })
        .collect();
    v.into()
}

/// Objects shared by the operations of a run.
pub struct Workload {
    pub cfgs: Vec<Cfg>,
    pub docs: Vec<Arc<Doc>>,
    pub frags: Vec<Arc<SgmlFragment<'static>>>,
    pub reads: Vec<(Arc<SgmlFragment<'static>>, Arc<Plan>, Vec<String>, bool)>,
}

impl Workload {
    pub fn gen() -> Workload {
        let n = range(1, 2);
        let cfgs: Vec<Cfg> = (0..n).map(|_| Cfg::gen()).collect();
        let mut knobs = Knobs::gen();
        if knobs.items > 12 && !one_in(4) {
            knobs.items = 12;
        }
        if knobs.ref_weight == 0 && !one_in(3) {
            knobs.ref_weight = 6;
        }
        let docs: Vec<Arc<Doc>> = (0..range(1, 3)).map(|i| Arc::new(Gen::document(&knobs, cfgs[i % cfgs.len()].clone()))).collect();
        let mut frags: Vec<Arc<SgmlFragment<'static>>> = docs.iter().map(|d| Arc::new(SgmlFragment::from(d.events.clone()))).collect();
        let mut reads = vec![];
        for _ in 0..range(1, 2) {
            let mut tk = TreeKnobs::gen();
            tk.deep = false;
            if !vocab::wild(40) {
                tk.depth = tk.depth.min(3);
                tk.children = tk.children.min(6);
            }
            let tree = gen_tree(&tk);
            let planned = gen_plan(&tree, one_in(4));
            let frag = Arc::new(SgmlFragment::from(tree.events()));
            frags.push(frag.clone());
            reads.push((frag, Arc::new(planned.plan), planned.log, planned.ok));
        }
        Workload { cfgs, docs, frags, reads }
    }

    /// Any text.
    pub fn plain_text(&self) -> String {
        let text = &pick(&self.docs).text;
        if vocab::wild_number(30) {
            let mut s = text.clone();
            let n = vocab::length(10_000);
            let with = if one_in(2) { vocab::filler(300) } else { vocab::word() };
            while s.len() < n {
                s.push_str(&with);
            }
            s
        } else if vocab::wild_word(20) {
            format!("{}{}", vocab::word(), env::short(text))
        } else if one_in(10) {
            text.clone()
        } else {
            env::short(text)
        }
    }

    fn parse_args(&self) -> (usize, Arc<Doc>, Arc<String>, Vec<Option<String>>, bool) {
        let doc = pick(&self.docs);
        let cfg = self.cfgs.iter().position(|c| *c == doc.cfg).unwrap();
        let mut answers: Vec<Option<String>> = doc.calls.iter().map(|c| Some(c.answer.clone())).collect();
        let mut text = doc.text.clone();
        let mut pristine = true;
        if !answers.is_empty() && one_in(3) {
            // Other answers for the same document
            for (a, c) in answers.iter_mut().zip(&doc.calls) {
                if !c.param {
                    a.as_mut().unwrap().push_str("+");
                    pristine = false;
                }
            }
        }
        if !answers.is_empty() && one_in(4) {
            let k = draw(answers.len());
            answers[k] = None;
            pristine = false;
        }
        if one_in(5) {
            // Damaged
            let chars: Vec<char> = text.chars().collect();
            let at = draw(chars.len());
            text = match draw(3) {
                0 => chars[..at].iter().collect(),
                1 => chars[..at].iter().chain(&chars[at + 1..]).collect(),
                _ => chars[..at].iter().chain(pick(&[&['<'][..], &['&', 'x'], &['>'], &['"'], &['<', '!', '['], &['<', 'a', ' ', '=']])).chain(&chars[at..]).collect(),
            };
            pristine = false;
        }
        (cfg, doc, Arc::new(text), answers, pristine)
    }

    pub fn gen_op(&self) -> Op {
        let n = env::weighted(&[8, 3, 2, 2, 2, 3, 2, 4, 6]);
        self.op_of(n)
    }

    pub fn op_of(&self, n: usize) -> Op {
        let mut truth = None;
        let kind = match n {
            0 => {
                let (cfg, doc, text, answers, pristine) = self.parse_args();
                if pristine {
                    truth = Some(accepted(&doc.events, &expected_history(&doc.calls)));
                }
                OpKind::Parse {
                    cfg,
                    text,
                    answers,
                    handler: pick(HANDLERS),
                }
            }
            1 => {
                let (_, _, text, answers, _) = self.parse_args();
                OpKind::Expand {
                    text,
                    param: one_in(3),
                    answers,
                }
            }
            2 => {
                let (cfg, doc, _, answers, _) = self.parse_args();
                let starts: Vec<usize> = doc.spans.iter().filter(|s| matches!(s.kind, SpanKind::Start | SpanKind::Section | SpanKind::Text)).map(|s| s.start).collect();
                let at = if starts.is_empty() { 0 } else { starts[draw(starts.len())] };
                OpKind::Item {
                    cfg,
                    text: Arc::new(doc.text[at..].to_string()),
                    answers,
                    which: draw(4) as u8,
                }
            }
            3 => OpKind::Normalize { frag: pick(&self.frags) },
            4 => {
                let frag = pick(&self.frags);
                let n = if one_in(6) { env::count().min(150) } else { range(0, 6) };
                let remove = pick(&[1, 2, 2, 5]);
                let edits = (0..n)
                    .map(|i| {
                        let at = draw(frag.len() + 2);
                        if !one_in(remove + 1) {
                            Edit::Remove(at)
                        } else {
                            Edit::Insert(at, SgmlEvent::Character(format!("new{}", i).into()))
                        }
                    })
                    .collect();
                OpKind::Edit { frag, edits }
            }
            5 => {
                let frag = pick(&self.frags);
                let single = if frag.len() > 0 && one_in(3) { Some(draw(frag.len())) } else { None };
                OpKind::Render { frag, single }
            }
            6 => OpKind::Escape {
                text: Arc::new(self.plain_text()),
                ampersand: one_in(2),
            },
            7 => {
                let (cfg, _, text, answers, _) = self.parse_args();
                OpKind::Describe { cfg, text, answers }
            }
            _ => {
                let (frag, plan, log, ok) = pick(&self.reads);
                let fail_at = if one_in(4) { Some(draw(2 * log.len() + 1) as u64) } else { None };
                if fail_at.is_none() && ok {
                    truth = Some(format!("Ok(()) after [{}]", log.join(";")));
                }
                OpKind::Deserialize {
                    frag,
                    plan,
                    fail_at,
                    reader: one_in(2),
                    borrowed: one_in(2),
                }
            }
        };
        Op { kind, truth }
    }
}
