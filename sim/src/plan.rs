//! Deserialization consumers as data. A plan says how a consumer proceeds through a document
//! (what it reads each entry as, what it skips, where it leaves); it is generated against a tree
//! together with the log of what such a consumer must be given (the reference model), and then
//! executed against the library by seeds and visitors whose every callback is a fault point.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor};
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::doc::Ev;
use crate::env::{self, chance, draw, one_in, pick, range};
use crate::vocab::{self, wild, wild_number, wild_word};
use crate::world::{callout, Kind};

#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub children: Vec<Child>,
    /// Written as `<a/>`, if there are no children.
    pub slash: bool,
}

#[derive(Clone, Debug)]
pub enum Child {
    Elem(Node),
    /// One event per segment.
    Text(Vec<String>),
}

impl Node {
    pub fn has_elements(&self) -> bool {
        self.children.iter().any(|c| matches!(c, Child::Elem(_)))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.push_text(&mut s);
        s
    }
    fn push_text(&self, s: &mut String) {
        for c in &self.children {
            match c {
                Child::Elem(n) => n.push_text(s),
                Child::Text(t) => t.iter().for_each(|t| s.push_str(t)),
            }
        }
    }
    pub fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        self.push_events(&mut v);
        v
    }
    fn push_events(&self, v: &mut Vec<Ev>) {
        v.push(SgmlEvent::OpenStartTag { name: self.name.clone().into() });
        for (n, val) in &self.attrs {
            v.push(SgmlEvent::Attribute {
                name: n.clone().into(),
                value: val.clone().map(Into::into),
            });
        }
        if self.slash && self.children.is_empty() {
            v.push(SgmlEvent::XmlCloseEmptyElement);
            return;
        }
        v.push(SgmlEvent::CloseStartTag);
        for c in &self.children {
            match c {
                Child::Elem(n) => n.push_events(v),
                Child::Text(t) => t.iter().for_each(|t| v.push(SgmlEvent::Character(t.clone().into()))),
            }
        }
        v.push(SgmlEvent::EndTag { name: self.name.clone().into() });
    }
    /// The tree as it comes back from text: each run of text is one segment, and never empty.
    pub fn canonical(&self) -> Node {
        let mut children: Vec<Child> = vec![];
        for c in &self.children {
            match c {
                Child::Elem(n) => children.push(Child::Elem(n.canonical())),
                Child::Text(t) => {
                    let s = t.concat();
                    match children.last_mut() {
                        Some(Child::Text(prev)) => prev[0].push_str(&s),
                        _ if s.is_empty() => {}
                        _ => children.push(Child::Text(vec![s])),
                    }
                }
            }
        }
        Node {
            name: self.name.clone(),
            attrs: self.attrs.clone(),
            children,
            // Without the empty texts it would be another way of writing
            slash: self.slash && self.children.is_empty(),
        }
    }
    pub fn depth(&self) -> usize {
        let inside = |c: &Child| match c {
            Child::Elem(n) => n.depth(),
            Child::Text(_) => 0,
        };
        1 + self.children.iter().map(inside).max().unwrap_or(0)
    }
    pub fn show(&self) -> String {
        env::short(&SgmlFragment::from(self.events()).to_string())
    }
}

const NAMES: &[&str] = &["a", "b", "item", "c", "key", "A", "é", "value", "$value", "x-y", "type", "B"];
const VALUES: &[&str] = &[
    "42", "x", "0", "1", "true", "-7", "hello world", "", "TRUE", "false", "3.5", "255", "300", "é𝄞", " spaced ", "a & b <c>", "18446744073709551615", "False", "1e3", "item", "-0.0", "inf", "key",
];

pub struct TreeKnobs {
    pub depth: usize,
    pub children: usize,
    pub attrs: usize,
    pub names: usize,
    pub blank_between: bool,
    pub segments: bool,
    /// Everything is deep inside other elements.
    pub deep: bool,
    /// Some elements without content are written with a self-closing tag.
    pub slashes: bool,
}

impl TreeKnobs {
    pub fn gen() -> TreeKnobs {
        TreeKnobs {
            depth: if one_in(10) { range(1, 9) } else { range(1, 3) },
            children: if wild_number(800) {
                vocab::length(120).max(1)
            } else if one_in(12) {
                range(1, 30)
            } else {
                range(1, 5)
            },
            attrs: if wild_number(800) {
                vocab::length(80)
            } else if one_in(12) {
                range(0, 12)
            } else {
                range(0, 3)
            },
            names: range(1, NAMES.len()),
            blank_between: one_in(3),
            segments: one_in(2),
            deep: wild_number(400),
            slashes: one_in(3),
        }
    }
}

fn value() -> String {
    if wild(60) {
        match draw(6) {
            0 | 1 if !wild_word(2) => vocab::filler(if one_in(6) { 10000 } else { 300 }),
            2 => format!("{}{}", vocab::number(), pick(&["", ".0", "e2", " "])),
            _ => vocab::word(),
        }
    } else if one_in(25) {
        let mut s = String::new();
        for _ in 0..range(1, 60) {
            s.push_str(pick(VALUES));
        }
        s
    } else {
        pick(VALUES).to_string()
    }
}

/// A value related to the name it stands under.
fn akin(name: &str) -> String {
    let chars: Vec<char> = name.chars().collect();
    match draw(9) {
        0 => name.to_string(),
        1 => name.to_lowercase(),
        2 => chars[..draw(chars.len() + 1)].iter().collect(),
        3 => chars[draw(chars.len())..].iter().collect(),
        4 => format!("{}{}", name, name),
        5 => format!("{}{}", name, pick(&["se", " ", "1", "s"])),
        6 => pick(&["true", "false", "0", "1"]).to_string(),
        _ => name.to_uppercase(),
    }
}

fn text_child(k: &TreeKnobs) -> Child {
    let n = if k.segments && one_in(3) { range(1, 4) } else { 1 };
    Child::Text(
        (0..n)
            .map(|_| match if k.segments { draw(8) } else { 7 } {
                0 | 1 => String::new(),
                2 => pick(&[" ", "\n", "\t ", "\r\n", "\u{a0}"]).to_string(),
                _ => value(),
            })
            .collect(),
    )
}

pub fn gen_tree(k: &TreeKnobs) -> Node {
    let mut budget = 120;
    let mut node = gen_node(k, k.depth, "root".to_string(), &mut budget);
    if k.deep {
        let same = one_in(2).then(|| tree_name(k));
        for _ in 0..vocab::length(if one_in(8) { 300 } else { 130 }) {
            node.name = same.clone().unwrap_or_else(|| tree_name(k));
            let mut children = vec![Child::Elem(node)];
            if k.blank_between && one_in(4) {
                children.insert(draw(2), Child::Text(vec![" ".into()]));
            }
            if one_in(12) {
                let mut few = 3;
                let name = tree_name(k);
                children.insert(draw(children.len() + 1), Child::Elem(gen_node(k, 0, name, &mut few)));
            }
            node = Node {
                name: "root".into(),
                attrs: vec![],
                children,
                slash: false,
            };
        }
    }
    node
}

fn tree_name(k: &TreeKnobs) -> String {
    if wild(120) {
        return vocab::any_name(200);
    }
    NAMES[draw(k.names)].to_string()
}

fn gen_node(k: &TreeKnobs, depth: usize, name: String, budget: &mut i32) -> Node {
    *budget -= 1;
    let mut attrs = vec![];
    for _ in 0..range(0, k.attrs) {
        let n = match draw(16) {
            0 | 1 => "$value2".to_string(),
            2 => pick(&["true", "false", "f", "t", "no", "TRUE", "falsehood", "False", "trueness"]).to_string(),
            _ => tree_name(k),
        };
        let v = match draw(6) {
            0 => None,
            1 => Some(akin(&n)),
            _ => Some(value()),
        };
        attrs.push((n, v));
    }
    let mut children: Vec<Child> = vec![];
    if depth == 0 || one_in(3) || *budget <= 0 {
        if !one_in(5) {
            children.push(text_child(k));
        }
    } else {
        let n = range(0, k.children);
        let mixed = one_in(6);
        let mut prev: Option<String> = None;
        for _ in 0..n {
            if k.blank_between || (mixed && one_in(3)) {
                if !matches!(children.last(), Some(Child::Text(_))) {
                    children.push(if mixed && one_in(2) {
                        text_child(k)
                    } else {
                        Child::Text(vec![pick(&[" ", "\n  ", ""]).to_string()])
                    });
                }
            }
            // Runs of the same name are common
            let name = match &prev {
                Some(p) if one_in(2) => p.clone(),
                _ => tree_name(k),
            };
            prev = Some(name.clone());
            children.push(Child::Elem(gen_node(k, depth - 1, name, budget)));
        }
    }
    let slash = k.slashes && one_in(2);
    Node { name, attrs, children, slash }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TextStyle {
    Str,
    Owned,
    Char,
    Bytes,
    ByteBuf,
    Identifier,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
}

const NUMS: &[Num] = &[Num::I64, Num::U64, Num::F64, Num::I8, Num::I16, Num::I32, Num::U8, Num::U16, Num::U32, Num::F32];

impl Num {
    fn parse(self, s: &str) -> Option<String> {
        match self {
            Num::I8 => s.parse::<i8>().ok().map(|v| format!("i8 {}", v)),
            Num::I16 => s.parse::<i16>().ok().map(|v| format!("i16 {}", v)),
            Num::I32 => s.parse::<i32>().ok().map(|v| format!("i32 {}", v)),
            Num::I64 => s.parse::<i64>().ok().map(|v| format!("i64 {}", v)),
            Num::U8 => s.parse::<u8>().ok().map(|v| format!("u8 {}", v)),
            Num::U16 => s.parse::<u16>().ok().map(|v| format!("u16 {}", v)),
            Num::U32 => s.parse::<u32>().ok().map(|v| format!("u32 {}", v)),
            Num::U64 => s.parse::<u64>().ok().map(|v| format!("u64 {}", v)),
            Num::F32 => s.parse::<f32>().ok().map(|v| format!("f32 {:?}", v)),
            Num::F64 => s.parse::<f64>().ok().map(|v| format!("f64 {:?}", v)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Plan {
    Text(TextStyle),
    Num(Num),
    Bool,
    Unit,
    UnitStruct,
    Ignored,
    Any(MapPlan),
    Option(Box<Plan>),
    Newtype(Box<Plan>),
    Seq(SeqPlan),
    Map(MapPlan),
    Struct(MapPlan, bool),
    Enum(EnumPlan),
    /// Takes nothing from the deserializer.
    Untouched,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SeqStyle {
    Seq,
    Tuple,
    TupleStruct,
}

#[derive(Clone, Debug)]
pub struct SeqPlan {
    pub style: SeqStyle,
    pub items: Vec<Plan>,
    /// Ask once more after the items.
    pub to_end: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Leave {
    End,
    BeforeKey,
    AfterKey,
}

#[derive(Clone, Debug)]
pub struct MapPlan {
    pub entries: Vec<Plan>,
    pub leave: Leave,
    pub key_style: u8,
}

#[derive(Clone, Debug)]
pub struct EnumPlan {
    pub variant: VariantPlan,
    pub text_style: u8,
}

#[derive(Clone, Debug)]
pub enum VariantPlan {
    Unit,
    Newtype(Box<Plan>),
    Tuple(SeqPlan),
    Struct(MapPlan, bool),
}

/// Where the cursor is when a value is read.
#[derive(Clone, Copy)]
enum Src<'a> {
    Attr(&'a str, Option<&'a str>),
    Elem { siblings: &'a [Child], at: usize, key: Option<&'a str> },
    Text(&'a str),
}

impl<'a> Src<'a> {
    fn node(&self) -> Option<&'a Node> {
        match self {
            Src::Elem { siblings, at, .. } => match &siblings[*at] {
                Child::Elem(n) => Some(n),
                _ => unreachable!(),
            },
            _ => None,
        }
    }
    fn text(&self) -> String {
        match self {
            Src::Attr(_, v) => v.unwrap_or_default().to_string(),
            Src::Text(t) => t.to_string(),
            Src::Elem { .. } => self.node().unwrap().text(),
        }
    }
}

/// The library must report an error here.
struct Stop;

pub struct Planner {
    pub log: Vec<String>,
    /// Allow plans that do not fit the entry.
    pub misfits: bool,
    /// Only entries that are simple to read.
    pub nodes: usize,
    /// Mostly goes on into the elements of elements.
    pub deep: bool,
}

pub struct Planned {
    pub plan: Plan,
    pub log: Vec<String>,
    pub ok: bool,
}

/// A plan for reading this tree, with what its consumer must be given.
pub fn gen_plan(tree: &Node, misfits: bool) -> Planned {
    let deep = tree.depth() > 15 && one_in(2);
    let mut p = Planner { log: vec![], misfits, nodes: 0, deep };
    let siblings = [Child::Elem(tree.clone())];
    let (plan, r) = p.value(Src::Elem { siblings: &siblings, at: 0, key: None }, 0, true);
    Planned { plan, log: p.log, ok: r.is_ok() }
}

type Step = Result<usize, Stop>;

fn is_true(s: &str) -> Option<bool> {
    if s == "1" || s.eq_ignore_ascii_case("true") {
        Some(true)
    } else if s == "0" || s.eq_ignore_ascii_case("false") {
        Some(false)
    } else {
        None
    }
}

impl Planner {
    fn push(&mut self, s: impl Into<String>) {
        self.log.push(s.into());
    }

    /// Chooses how to read the value at the cursor; returns how many siblings that uses up.
    fn value(&mut self, src: Src, depth: usize, root: bool) -> (Plan, Step) {
        self.nodes += 1;
        // Values that resemble their names are worth reading as flags
        let alike = match src {
            Src::Attr(name, Some(v)) if !v.is_empty() => {
                let (n, v) = (name.to_lowercase(), v.to_lowercase());
                n.contains(&v) || v.contains(&n)
            }
            _ => false,
        };
        let misfit = self.misfits && one_in(if alike { 3 } else { 40 });
        let text = src.text();
        let node = src.node();
        let structured = node.map(|n| n.has_elements() || !n.attrs.is_empty()).unwrap_or(false);
        if self.deep && node.map(|n| n.has_elements()).unwrap_or(false) && !one_in(60) {
            return match src {
                Src::Elem { siblings, at, key } if !root && one_in(3) => {
                    let (p, r) = self.seq(siblings, at, key, depth);
                    (Plan::Seq(p), r)
                }
                _ => self.map_value(src, one_in(2), depth),
            };
        }
        // Only text that was put together is used up without being read
        if matches!(src, Src::Text(_)) && one_in(12) {
            self.push("untouched");
            return (Plan::Untouched, Ok(1));
        }
        // A choice is dropped if it would not fit
        for _ in 0..4 {
            let choice = if alike && one_in(2) {
                3
            } else if structured {
                env::weighted(&[5, 2, 1, 1, 1, 2, 3, 1, 1, 5, 4, 4, 3])
            } else {
                env::weighted(&[2, 6, 4, 3, 2, 2, 3, 2, 2, 5, 2, 2, 5])
            };
            match choice {
                // Structure
                0 | 10 => {
                    if node.is_some() || misfit {
                        return self.map_value(src, choice == 0, depth);
                    }
                }
                1 => {
                    let style = pick(&[
                        TextStyle::Str,
                        TextStyle::Owned,
                        TextStyle::Char,
                        TextStyle::Bytes,
                        TextStyle::ByteBuf,
                        TextStyle::Identifier,
                    ]);
                    self.push(format!("str {:?}", text));
                    return (Plan::Text(style), Ok(1));
                }
                2 => {
                    let num = pick(NUMS);
                    match num.parse(&text) {
                        Some(s) => {
                            self.push(s);
                            return (Plan::Num(num), Ok(1));
                        }
                        None if misfit => return (Plan::Num(num), Err(Stop)),
                        None => {}
                    }
                }
                3 => {
                    let v = match src {
                        Src::Attr(name, v) if v.unwrap_or_default().is_empty() || v.unwrap_or_default().eq_ignore_ascii_case(name) => Some(true),
                        _ => is_true(&text),
                    };
                    match v {
                        Some(b) => {
                            self.push(format!("bool {}", b));
                            return (Plan::Bool, Ok(1));
                        }
                        None if misfit => return (Plan::Bool, Err(Stop)),
                        None => {}
                    }
                }
                4 => {
                    self.push("unit");
                    return (if one_in(2) { Plan::Unit } else { Plan::UnitStruct }, Ok(1));
                }
                5 => {
                    self.push("unit");
                    return (Plan::Ignored, Ok(1));
                }
                6 => return self.any(src, depth),
                7 => {
                    self.push("some");
                    let (p, r) = self.value(src, depth, root);
                    return (Plan::Option(Box::new(p)), r);
                }
                8 => {
                    self.push("newtype");
                    let (p, r) = self.value(src, depth, root);
                    return (Plan::Newtype(Box::new(p)), r);
                }
                9 | 11 => match src {
                    Src::Elem { siblings, at, key } if !root => {
                        let (p, r) = self.seq(siblings, at, key, depth);
                        return (Plan::Seq(p), r);
                    }
                    Src::Attr(..) if misfit => {
                        return (
                            Plan::Seq(SeqPlan {
                                style: SeqStyle::Seq,
                                items: vec![],
                                to_end: true,
                            }),
                            Err(Stop),
                        )
                    }
                    _ => {}
                },
                _ => {
                    if let Some(r) = self.enumeration(src, depth, misfit, root) {
                        return r;
                    }
                }
            }
        }
        self.push(format!("str {:?}", text));
        (Plan::Text(TextStyle::Str), Ok(1))
    }

    fn map_value(&mut self, src: Src, with_dollar: bool, depth: usize) -> (Plan, Step) {
        let (dollar, is_struct) = if with_dollar { (one_in(2), true) } else { (false, one_in(2)) };
        let wrap = |m: MapPlan| if is_struct { Plan::Struct(m, dollar) } else { Plan::Map(m) };
        match src.node() {
            None => (
                wrap(MapPlan {
                    entries: vec![],
                    leave: Leave::End,
                    key_style: 0,
                }),
                Err(Stop),
            ),
            Some(n) => {
                let (m, r) = self.map(n, dollar, depth);
                (wrap(m), r.map(|_| 1))
            }
        }
    }

    /// Reads through an element as a map.
    fn map(&mut self, n: &Node, emit_value: bool, depth: usize) -> (MapPlan, Step) {
        self.push("map");
        let mut m = MapPlan {
            entries: vec![],
            leave: Leave::End,
            key_style: draw(4) as u8,
        };
        let leave_at = if one_in(if self.deep { 100 } else { 4 }) { Some(range(0, n.attrs.len() + n.children.len().min(6))) } else { None };
        let leave_how = if one_in(2) { Leave::AfterKey } else { Leave::BeforeKey };
        // Returns true when the consumer leaves here
        let offer = |p: &mut Planner, m: &mut MapPlan, key: Option<&str>| -> bool {
            let leaves = leave_at == Some(m.entries.len());
            if leaves && leave_how == Leave::BeforeKey {
                m.leave = Leave::BeforeKey;
                return true;
            }
            match key {
                None => {
                    p.push("map-end");
                    true
                }
                Some(key) => {
                    p.push(format!("key {:?}", key));
                    if leaves {
                        m.leave = Leave::AfterKey;
                        return true;
                    }
                    false
                }
            }
        };
        for (name, value) in &n.attrs {
            if offer(self, &mut m, Some(name)) {
                return (m, Ok(1));
            }
            let (p, r) = self.value(Src::Attr(name, value.as_deref()), depth + 1, false);
            m.entries.push(p);
            if r.is_err() {
                return (m, Err(Stop));
            }
        }
        if emit_value && !n.has_elements() {
            let text = n.text();
            if offer(self, &mut m, Some("$value")) {
                return (m, Ok(1));
            }
            let (p, r) = self.value(Src::Text(&text), depth + 1, false);
            m.entries.push(p);
            if r.is_err() {
                return (m, Err(Stop));
            }
        } else {
            let mut at = 0;
            while at < n.children.len() {
                match &n.children[at] {
                    Child::Text(_) => at += 1,
                    Child::Elem(e) => {
                        let key = if emit_value { None } else { Some(e.name.as_str()) };
                        if offer(self, &mut m, Some(key.unwrap_or("$value"))) {
                            return (m, Ok(1));
                        }
                        let src = Src::Elem {
                            siblings: &n.children,
                            at,
                            key,
                        };
                        let (p, r) = self.value(src, depth + 1, false);
                        m.entries.push(p);
                        match r {
                            Ok(k) => at += k,
                            Err(Stop) => return (m, Err(Stop)),
                        }
                    }
                }
            }
        }
        offer(self, &mut m, None);
        (m, Ok(1))
    }

    fn any(&mut self, src: Src, depth: usize) -> (Plan, Step) {
        let empty = MapPlan {
            entries: vec![],
            leave: Leave::End,
            key_style: 0,
        };
        match src.node() {
            Some(n) if n.has_elements() || !n.attrs.is_empty() => {
                let (m, r) = self.map(n, !n.has_elements(), depth);
                (Plan::Any(m), r.map(|_| 1))
            }
            Some(n) if n.text().is_empty() => {
                self.push("unit");
                (Plan::Any(empty), Ok(1))
            }
            _ => {
                self.push(format!("str {:?}", src.text()));
                (Plan::Any(empty), Ok(1))
            }
        }
    }

    /// A run of adjacent elements of the same name (of any name, without a key).
    fn seq(&mut self, siblings: &[Child], at: usize, key: Option<&str>, depth: usize) -> (SeqPlan, Step) {
        self.push("seq");
        let mut plan = SeqPlan {
            style: pick(&[SeqStyle::Seq, SeqStyle::Seq, SeqStyle::Tuple, SeqStyle::TupleStruct]),
            items: vec![],
            to_end: true,
        };
        let limit = if one_in(3) { range(1, 3) } else { usize::MAX };
        let mut i = at;
        loop {
            // Empty text does not end the run
            let mut j = i;
            while let Some(Child::Text(t)) = siblings.get(j) {
                if t.iter().all(|s| s.is_empty()) {
                    j += 1;
                } else {
                    break;
                }
            }
            if plan.items.len() >= limit {
                plan.to_end = false;
                break;
            }
            match siblings.get(j) {
                Some(Child::Elem(e)) if key.map(|k| k == e.name).unwrap_or(true) => {
                    self.push("item");
                    let src = Src::Elem { siblings, at: j, key };
                    let (p, r) = self.value(src, depth + 1, false);
                    plan.items.push(p);
                    match r {
                        Ok(k) => i = j + k,
                        Err(Stop) => return (plan, Err(Stop)),
                    }
                }
                _ => {
                    self.push("seq-end");
                    break;
                }
            }
        }
        (plan, Ok(i - at))
    }

    fn enumeration(&mut self, src: Src, depth: usize, misfit: bool, root: bool) -> Option<(Plan, Step)> {
        let text_style = draw(2) as u8;
        let wrap = |variant: VariantPlan| Plan::Enum(EnumPlan { variant, text_style });
        match src {
            Src::Text(_) => None,
            Src::Attr(_, v) => {
                self.push("enum");
                self.push(format!("variant {:?}", v.unwrap_or_default()));
                if misfit {
                    return Some((self.misplaced_fields(wrap), Err(Stop)));
                }
                self.push("unit-variant");
                Some((wrap(VariantPlan::Unit), Ok(1)))
            }
            Src::Elem { siblings, at, key } => {
                let n = src.node().unwrap();
                if key == Some(n.name.as_str()) {
                    if n.has_elements() {
                        match n.children.first() {
                            Some(Child::Elem(_)) => {
                                self.push("enum");
                                let (v, r) = self.variant(&n.children, 0, depth, false);
                                Some((wrap(v), r.map(|_| 1)))
                            }
                            _ if misfit => {
                                self.push("enum");
                                Some((wrap(VariantPlan::Unit), Err(Stop)))
                            }
                            _ => None,
                        }
                    } else {
                        self.push("enum");
                        self.push(format!("variant {:?}", n.text()));
                        if misfit {
                            return Some((self.misplaced_fields(wrap), Err(Stop)));
                        }
                        self.push("unit-variant");
                        Some((wrap(VariantPlan::Unit), Ok(1)))
                    }
                } else {
                    self.push("enum");
                    let (v, r) = self.variant(siblings, at, depth, root);
                    Some((wrap(v), r))
                }
            }
        }
    }

    /// A variant with fields that is named by text: must be refused.
    fn misplaced_fields(&mut self, wrap: impl Fn(VariantPlan) -> Plan) -> Plan {
        wrap(match draw(3) {
            0 => VariantPlan::Newtype(Box::new(Plan::Text(TextStyle::Str))),
            1 => VariantPlan::Tuple(SeqPlan {
                style: SeqStyle::Seq,
                items: vec![],
                to_end: true,
            }),
            _ => VariantPlan::Struct(
                MapPlan {
                    entries: vec![],
                    leave: Leave::End,
                    key_style: 0,
                },
                one_in(2),
            ),
        })
    }

    /// A variant named by the tag at the cursor.
    fn variant(&mut self, siblings: &[Child], at: usize, depth: usize, root: bool) -> (VariantPlan, Step) {
        let n = match &siblings[at] {
            Child::Elem(n) => n,
            _ => unreachable!(),
        };
        self.push(format!("variant {:?}", n.name));
        match draw(5) {
            0 => {
                self.push("unit-variant");
                (VariantPlan::Unit, Ok(1))
            }
            1 if !root => {
                let (p, r) = self.seq(siblings, at, Some(&n.name), depth + 1);
                (VariantPlan::Tuple(p), r)
            }
            2 | 3 if !n.has_elements() => {
                let src = Src::Elem {
                    siblings,
                    at,
                    key: Some(&n.name),
                };
                let (p, r) = self.value(src, depth + 1, root);
                (VariantPlan::Newtype(Box::new(p)), r)
            }
            2 | 3 if matches!(n.children.first(), Some(Child::Elem(_))) => {
                let src = Src::Elem {
                    siblings: &n.children,
                    at: 0,
                    key: None,
                };
                let (p, r) = self.value(src, depth + 1, false);
                (VariantPlan::Newtype(Box::new(p)), r.map(|_| 1))
            }
            _ => {
                let dollar = one_in(2);
                let (m, r) = self.map(n, dollar, depth + 1);
                (VariantPlan::Struct(m, dollar), r.map(|_| 1))
            }
        }
    }
}

/// How a consumer fails, when it is told to.
#[derive(Clone, Debug, PartialEq)]
pub enum Failure {
    Custom(String),
    InvalidType(String),
    InvalidValue(i64),
    InvalidLength(usize),
    UnknownVariant(String),
    UnknownField(String),
    MissingField,
    DuplicateField,
    /// Any of serde's messages, about a text of the document itself.
    About(u8, String),
}

impl Failure {
    /// A failure over something the consumer was given: a key, a text, a variant.
    pub fn about(log: &[String]) -> Failure {
        let given: Vec<&String> = log.iter().filter(|l| l.contains('"')).collect();
        let text = if given.is_empty() || wild_word(30) {
            vocab::word()
        } else {
            let l = pick(&given);
            let from = l.find('"').unwrap_or(0);
            l[from..].trim_matches('"').to_string()
        };
        Failure::About(draw(9) as u8, text)
    }

    pub fn gen() -> Failure {
        if wild(20) {
            let w = if wild_number(4) { vocab::filler(2000) } else { vocab::word() };
            return Failure::About(draw(9) as u8, w);
        }
        let msg = pick(&[
            "consumer is out of space",
            "",
            "unexpected end of content",
            "expected start tag",
            "empty stack",
            "é\n\t\"quoted\" {braces} %s",
            "error parsing integer value: invalid digit found in string",
            "line 1\nline 2\n",
        ])
        .to_string();
        match draw(10) {
            0..=2 => Failure::Custom(msg),
            3 => Failure::InvalidType(msg),
            4 => Failure::InvalidValue(range(0, 99) as i64),
            5 => Failure::InvalidLength(range(0, 99)),
            6 => Failure::UnknownVariant(msg),
            7 => Failure::UnknownField(msg),
            8 => Failure::MissingField,
            _ => Failure::DuplicateField,
        }
    }

    pub fn error<E: de::Error>(&self) -> E {
        match self {
            Failure::Custom(s) => E::custom(s),
            Failure::InvalidType(s) => E::invalid_type(Unexpected::Str(s), &"something else"),
            Failure::InvalidValue(n) => E::invalid_value(Unexpected::Signed(*n), &"another number"),
            Failure::InvalidLength(n) => E::invalid_length(*n, &"more items"),
            Failure::UnknownVariant(s) => E::unknown_variant(s, &["X", "Y"]),
            Failure::UnknownField(s) => E::unknown_field(s, &["name", "$value"]),
            Failure::MissingField => E::missing_field("name"),
            Failure::DuplicateField => E::duplicate_field("name"),
            Failure::About(how, s) => match how {
                0 => E::unknown_field(s, &["name", "$value"]),
                1 => E::unknown_field(s, &[]),
                2 => E::unknown_variant(s, &["X"]),
                3 => E::unknown_variant(s, &[]),
                4 => E::invalid_value(Unexpected::Str(s), &"a known word"),
                5 => E::invalid_type(Unexpected::Other(s), &"a struct"),
                6 => E::custom(format_args!("missing field `{}`", s)),
                7 => E::custom(format_args!("duplicate field `{}`", s)),
                _ => E::custom(s),
            },
        }
    }

    pub fn message(&self) -> String {
        let e: de::value::Error = self.error();
        e.to_string()
    }
}

/// One consumer at work.
pub struct Consumer {
    pub log: RefCell<Vec<String>>,
    pub count: Cell<u64>,
    pub fail_at: Option<u64>,
    pub failure: Failure,
    pub failed: Cell<bool>,
    pub failed_in: RefCell<String>,
    pub after_failure: RefCell<Vec<String>>,
    /// How each text was given: borrowed, passing, or owned.
    pub manner: RefCell<String>,
    /// Leaves structures it did not expect without a look at them.
    pub shy: Cell<bool>,
}

impl Consumer {
    pub fn new() -> Rc<Consumer> {
        Consumer::failing(None, Failure::MissingField)
    }

    pub fn failing(fail_at: Option<u64>, failure: Failure) -> Rc<Consumer> {
        Rc::new(Consumer {
            log: RefCell::new(vec![]),
            count: Cell::new(0),
            fail_at,
            failure,
            failed: Cell::new(false),
            failed_in: RefCell::new(String::new()),
            after_failure: RefCell::new(vec![]),
            manner: RefCell::new(String::new()),
            shy: Cell::new(false),
        })
    }

    /// Every callback passes here, at its start and, if it called the library, at its end.
    fn cb<E: de::Error>(&self, what: &str) -> Result<(), E> {
        crate::tr!("consumer: {}", what);
        if self.failed.get() {
            self.after_failure.borrow_mut().push(what.to_string());
        }
        callout(Kind::Visitor);
        let n = self.count.get();
        self.count.set(n + 1);
        if self.fail_at == Some(n) {
            self.failed.set(true);
            *self.failed_in.borrow_mut() = what.to_string();
            crate::tr!("consumer fails with {:?}", self.failure);
            return Err(self.failure.error());
        }
        Ok(())
    }

    fn given<E: de::Error>(&self, s: String) -> Result<(), E> {
        self.cb(&s)?;
        self.log.borrow_mut().push(s);
        Ok(())
    }
}

/// Reads a fragment as planned; the log is in the consumer.
pub fn consume(fragment: SgmlFragment, plan: &Plan, c: &Rc<Consumer>, reader: bool) -> Result<(), sgmlish::de::DeserializationError> {
    if reader {
        let mut de = sgmlish::de::SgmlDeserializer::from_fragment(fragment)?;
        Seed { plan, c }.deserialize(&mut de)
    } else {
        // Through `from_fragment`, which only takes types
        let depth = PLAN.with(|p| {
            p.borrow_mut().push((plan.clone(), c.clone()));
            p.borrow().len() - 1
        });
        let r = sgmlish::from_fragment::<ByType>(fragment);
        PLAN.with(|p| p.borrow_mut().truncate(depth));
        r.map(|_| ())
    }
}

thread_local! {
    static PLAN: RefCell<Vec<(Plan, Rc<Consumer>)>> = const { RefCell::new(vec![]) };
}

struct ByType;

impl<'de> de::Deserialize<'de> for ByType {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (plan, c) = PLAN.with(|p| p.borrow_mut().pop()).expect("plan");
        Seed { plan: &plan, c: &c }.deserialize(d)?;
        Ok(ByType)
    }
}

struct Seed<'p> {
    plan: &'p Plan,
    c: &'p Rc<Consumer>,
}

/// The fields and names consumers announce, by the kind of key reader.
const PLAIN_FIELDS: [&[&str]; 4] = [
    &["a", "b", "item"],
    &[],
    &["x"],
    &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "item", "key", "value", "type", "A", "é", "x-y", "B", "true", "root", "y", "z", "w", "v"],
];
const VALUE_FIELDS: [&[&str]; 4] = [
    &["a", "$value", "item"],
    &["$value"],
    &["x", "$value"],
    &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "item", "key", "value", "type", "A", "é", "x-y", "B", "true", "root", "y", "z", "w", "$value"],
];
const STRUCTS: [&str; 4] = ["Struct", "item", "$value", "a"];

fn fields(dollar: bool, key_style: u8) -> &'static [&'static str] {
    (if dollar { VALUE_FIELDS } else { PLAIN_FIELDS })[key_style as usize % 4]
}

impl<'de, 'p> DeserializeSeed<'de> for Seed<'p> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.c.cb("seed")?;
        let v = Vis { plan: self.plan, c: self.c };
        match self.plan {
            Plan::Text(TextStyle::Str) => d.deserialize_str(v),
            Plan::Text(TextStyle::Owned) => d.deserialize_string(v),
            Plan::Text(TextStyle::Char) => d.deserialize_char(v),
            Plan::Text(TextStyle::Bytes) => d.deserialize_bytes(v),
            Plan::Text(TextStyle::ByteBuf) => d.deserialize_byte_buf(v),
            Plan::Text(TextStyle::Identifier) => d.deserialize_identifier(v),
            Plan::Num(Num::I8) => d.deserialize_i8(v),
            Plan::Num(Num::I16) => d.deserialize_i16(v),
            Plan::Num(Num::I32) => d.deserialize_i32(v),
            Plan::Num(Num::I64) => d.deserialize_i64(v),
            Plan::Num(Num::U8) => d.deserialize_u8(v),
            Plan::Num(Num::U16) => d.deserialize_u16(v),
            Plan::Num(Num::U32) => d.deserialize_u32(v),
            Plan::Num(Num::U64) => d.deserialize_u64(v),
            Plan::Num(Num::F32) => d.deserialize_f32(v),
            Plan::Num(Num::F64) => d.deserialize_f64(v),
            Plan::Bool => d.deserialize_bool(v),
            Plan::Unit => d.deserialize_unit(v),
            Plan::UnitStruct => d.deserialize_unit_struct("UnitStruct", v),
            Plan::Ignored => d.deserialize_ignored_any(v),
            Plan::Untouched => self.c.given("untouched".into()),
            Plan::Any(_) => d.deserialize_any(v),
            Plan::Option(_) => d.deserialize_option(v),
            Plan::Newtype(_) => d.deserialize_newtype_struct("Newtype", v),
            Plan::Seq(s) => match s.style {
                SeqStyle::Seq => d.deserialize_seq(v),
                SeqStyle::Tuple => d.deserialize_tuple(s.items.len(), v),
                SeqStyle::TupleStruct => d.deserialize_tuple_struct("Tuple", s.items.len(), v),
            },
            Plan::Map(_) => d.deserialize_map(v),
            Plan::Struct(m, dollar) => d.deserialize_struct(STRUCTS[m.key_style as usize % 4], fields(*dollar, m.key_style), v),
            Plan::Enum(e) => d.deserialize_enum(
                STRUCTS[e.text_style as usize % 4],
                if e.text_style == 0 { &["a", "b", "item"] } else { &[] },
                v,
            ),
        }?;
        self.c.cb("seed-done")
    }
}

struct Vis<'p> {
    plan: &'p Plan,
    c: &'p Rc<Consumer>,
}

macro_rules! visit_num {
    ($($visit:ident $t:ty, $fmt:literal;)*) => {$(
        fn $visit<E: de::Error>(self, v: $t) -> Result<(), E> {
            self.c.given(format!($fmt, v))
        }
    )*};
}

impl<'de, 'p> Visitor<'de> for Vis<'p> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("what was planned")
    }
    visit_num! {
        visit_bool bool, "bool {}";
        visit_i8 i8, "i8 {}";
        visit_i16 i16, "i16 {}";
        visit_i32 i32, "i32 {}";
        visit_i64 i64, "i64 {}";
        visit_u8 u8, "u8 {}";
        visit_u16 u16, "u16 {}";
        visit_u32 u32, "u32 {}";
        visit_u64 u64, "u64 {}";
        visit_f32 f32, "f32 {:?}";
        visit_f64 f64, "f64 {:?}";
        visit_char char, "char {:?}";
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        self.c.manner.borrow_mut().push('s');
        self.c.given(format!("str {:?}", v))
    }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<(), E> {
        self.c.manner.borrow_mut().push('b');
        self.c.given(format!("str {:?}", v))
    }
    fn visit_string<E: de::Error>(self, v: String) -> Result<(), E> {
        self.c.manner.borrow_mut().push('o');
        self.c.given(format!("str {:?}", v))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> {
        self.c.given(format!("bytes {:?}", v))
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.c.given("none".into())
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.c.given("unit".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.c.given("some".into())?;
        match self.plan {
            Plan::Option(p) => Seed { plan: p, c: self.c }.deserialize(d)?,
            _ => Seed { plan: &Plan::Ignored, c: self.c }.deserialize(d)?,
        }
        self.c.cb("some-done")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.c.given("newtype".into())?;
        match self.plan {
            Plan::Newtype(p) => Seed { plan: p, c: self.c }.deserialize(d)?,
            _ => Seed { plan: &Plan::Ignored, c: self.c }.deserialize(d)?,
        }
        self.c.cb("newtype-done")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        self.c.given("seq".into())?;
        let (items, to_end): (&[Plan], bool) = match self.plan {
            Plan::Seq(s) => (&s.items, s.to_end),
            Plan::Enum(EnumPlan { variant: VariantPlan::Tuple(s), .. }) => (&s.items, s.to_end),
            _ => (&[], true),
        };
        for p in items {
            match a.next_element_seed(ItemSeed(Seed { plan: p, c: self.c }))? {
                Some(()) => self.c.cb("item-done")?,
                None => return self.c.given("seq-end".into()),
            }
        }
        if to_end {
            while a.next_element_seed(ItemSeed(Seed { plan: &Plan::Ignored, c: self.c }))?.is_some() {
                self.c.given("extra item".into())?;
            }
            return self.c.given("seq-end".into());
        }
        self.c.cb("seq-done")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        self.c.given("map".into())?;
        let fallback = MapPlan {
            entries: vec![],
            leave: Leave::End,
            key_style: 0,
        };
        let m = match self.plan {
            Plan::Map(m) | Plan::Struct(m, _) | Plan::Any(m) => m,
            Plan::Enum(EnumPlan { variant: VariantPlan::Struct(m, _), .. }) => m,
            _ => &fallback,
        };
        if self.c.shy.get() && m.entries.is_empty() {
            return self.c.cb("map-left");
        }
        let mut i = 0;
        loop {
            if i == m.entries.len() && m.leave == Leave::BeforeKey {
                return self.c.cb("map-left");
            }
            let key = KeySeed { c: self.c, style: m.key_style, what: "key" };
            if a.next_key_seed(key)?.is_none() {
                return self.c.given("map-end".into());
            }
            if i == m.entries.len() && m.leave == Leave::AfterKey {
                return self.c.cb("map-left");
            }
            match m.entries.get(i) {
                Some(p) => a.next_value_seed(Seed { plan: p, c: self.c })?,
                None => {
                    self.c.given("extra entry".into())?;
                    a.next_value_seed(Seed { plan: &Plan::Ignored, c: self.c })?
                }
            }
            self.c.cb("entry-done")?;
            i += 1;
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.c.given("enum".into())?;
        let (variant, style) = match self.plan {
            Plan::Enum(e) => (&e.variant, e.text_style),
            _ => (&VariantPlan::Unit, 0),
        };
        let key = KeySeed { c: self.c, style, what: "variant" };
        let ((), access) = a.variant_seed(key)?;
        match variant {
            VariantPlan::Unit => {
                access.unit_variant()?;
                return self.c.given("unit-variant".into());
            }
            VariantPlan::Newtype(p) => access.newtype_variant_seed(Seed { plan: p, c: self.c })?,
            VariantPlan::Tuple(s) => access.tuple_variant(s.items.len(), Vis { plan: self.plan, c: self.c })?,
            VariantPlan::Struct(m, dollar) => access.struct_variant(fields(*dollar, m.key_style), Vis { plan: self.plan, c: self.c })?,
        }
        self.c.cb("variant-done")
    }
}

struct ItemSeed<'p>(Seed<'p>);

impl<'de, 'p> DeserializeSeed<'de> for ItemSeed<'p> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.c.given("item".into())?;
        self.0.deserialize(d)
    }
}

struct KeySeed<'p> {
    c: &'p Rc<Consumer>,
    style: u8,
    what: &'static str,
}

impl<'de, 'p> DeserializeSeed<'de> for KeySeed<'p> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.c.cb("key-seed")?;
        match self.style {
            0 => d.deserialize_identifier(self),
            1 => d.deserialize_str(self),
            2 => d.deserialize_any(self),
            _ => d.deserialize_string(self),
        }
    }
}

impl<'de, 'p> Visitor<'de> for KeySeed<'p> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a key")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        self.c.manner.borrow_mut().push('S');
        self.c.given(format!("{} {:?}", self.what, v))
    }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<(), E> {
        self.c.manner.borrow_mut().push('B');
        self.c.given(format!("{} {:?}", self.what, v))
    }
    fn visit_string<E: de::Error>(self, v: String) -> Result<(), E> {
        self.c.manner.borrow_mut().push('O');
        self.c.given(format!("{} {:?}", self.what, v))
    }
}

/// The fragment of a tree, directly or through text.
pub fn fragment_of(tree: &Node, through_text: bool) -> Result<SgmlFragment<'static>, String> {
    let direct = SgmlFragment::from(tree.events());
    if !through_text {
        return Ok(direct);
    }
    let text = direct.to_string();
    match sgmlish::Parser::builder().trim_whitespace(false).expand_entities(|_: &str| None::<&str>).build().parse(&text) {
        Ok(f) => Ok(f.into_owned()),
        Err(e) => Err(format!("{} in {:?}", e, text)),
    }
}

pub fn ignore_unused() -> bool {
    chance(0, 1)
}
