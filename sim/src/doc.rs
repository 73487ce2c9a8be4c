//! Documents generated together with their ground truth: the text, the events it stands for,
//! the resolver calls reading it must make, and where each construct lies.

use sgmlish::parser::{MarkedSectionHandling, NameNormalization};
use sgmlish::{Parser, SgmlEvent};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use crate::env::{self, chance, draw, one_in, pick, range, size};
use crate::vocab::{self, wild, wild_number, wild_word};
use crate::world::{callout, Kind};

pub type Ev = SgmlEvent<'static>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub trim: bool,
    pub norm: NameNormalization,
    pub msh: MarkedSectionHandling,
    pub ign_md: bool,
    pub ign_pi: bool,
    /// Named references may occur (and a resolver is installed).
    pub ents: bool,
    pub pents: bool,
}

impl Cfg {
    pub fn gen() -> Cfg {
        Cfg {
            trim: !one_in(2),
            norm: match draw(5) {
                0..=2 => NameNormalization::Unchanged,
                3 => NameNormalization::ToLowercase,
                _ => NameNormalization::ToUppercase,
            },
            msh: match draw(4) {
                0 => MarkedSectionHandling::AcceptOnlyCharacterData,
                3 => MarkedSectionHandling::KeepUnmodified,
                _ => MarkedSectionHandling::ExpandAll,
            },
            ign_md: one_in(4),
            ign_pi: one_in(4),
            ents: chance(4, 5),
            pents: chance(2, 3),
        }
    }

    pub fn builder(&self) -> sgmlish::parser::ParserBuilder {
        // Every setter is called only when needed or chosen explicitly, so that defaults are used too
        let mut b = Parser::builder();
        if !self.trim {
            b = b.trim_whitespace(false);
        }
        b = match self.norm {
            NameNormalization::Unchanged => b,
            NameNormalization::ToLowercase => b.lowercase_names(),
            NameNormalization::ToUppercase => b.uppercase_names(),
        };
        b = match self.msh {
            MarkedSectionHandling::AcceptOnlyCharacterData => b,
            MarkedSectionHandling::ExpandAll => b.expand_marked_sections(),
            MarkedSectionHandling::KeepUnmodified => {
                b.marked_section_handling(MarkedSectionHandling::KeepUnmodified)
            }
        };
        if self.ign_md {
            b = b.ignore_markup_declarations(true);
        }
        if self.ign_pi {
            b = b.ignore_processing_instructions(true);
        }
        b
    }

    pub fn normalize(&self, name: &str) -> String {
        match self.norm {
            NameNormalization::Unchanged => name.to_string(),
            NameNormalization::ToLowercase => name.to_lowercase(),
            NameNormalization::ToUppercase => name.to_uppercase(),
        }
    }
}

/// One use of a named reference, in document order.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub param: bool,
    pub name: String,
    /// Byte offset of the reference (its `&` or `%`) in the document.
    pub offset: usize,
    pub answer: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Piece {
    Lit(String),
    Char { raw: String, c: char },
    Ref { raw: String, call: usize },
}

impl Piece {
    pub fn raw(&self) -> &str {
        match self {
            Piece::Lit(s) => s,
            Piece::Char { raw, .. } | Piece::Ref { raw, .. } => raw,
        }
    }
}

pub fn raw_of(pieces: &[Piece]) -> String {
    pieces.iter().map(|p| p.raw()).collect()
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

pub fn trim_pieces(pieces: &[Piece]) -> Vec<Piece> {
    let mut v: Vec<Piece> = pieces.to_vec();
    while let Some(Piece::Lit(s)) = v.first() {
        let t = s.trim_start_matches(is_ws).to_string();
        if t.is_empty() {
            v.remove(0);
        } else {
            v[0] = Piece::Lit(t);
            break;
        }
    }
    while let Some(Piece::Lit(s)) = v.last() {
        let t = s.trim_end_matches(is_ws).to_string();
        if t.is_empty() {
            v.pop();
        } else {
            let last = v.len() - 1;
            v[last] = Piece::Lit(t);
            break;
        }
    }
    v
}

pub fn expand_pieces(pieces: &[Piece], calls: &[Call]) -> String {
    pieces
        .iter()
        .map(|p| match p {
            Piece::Lit(s) => s.clone(),
            Piece::Char { c, .. } => c.to_string(),
            Piece::Ref { call, .. } => calls[*call].answer.clone(),
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SpanKind {
    Start,
    End,
    Text,
    Comment,
    Pi,
    Md,
    Section,
    Blank,
}

/// A construct at the top level of the document.
#[derive(Clone, Debug)]
pub struct Span {
    pub kind: SpanKind,
    pub start: usize,
    pub end: usize,
    /// Events before and including this construct.
    pub ev0: usize,
    pub ev1: usize,
    pub pieces: Vec<Piece>,
    /// Belongs to the part before the first tag or text.
    pub prolog: bool,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub cfg: Cfg,
    pub text: String,
    pub events: Vec<Ev>,
    pub calls: Vec<Call>,
    pub spans: Vec<Span>,
}

impl Doc {
    pub fn show(&self) -> String {
        format!("{:?} cfg={:?}", env::short(&self.text), self.cfg)
    }
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub items: usize,
    pub depth: usize,
    pub attrs: usize,
    pub ref_weight: u32,
    pub charref_weight: u32,
    pub section_weight: u32,
    pub comment_weight: u32,
    pub pi_weight: u32,
    pub prolog: usize,
    pub text_len: usize,
    /// Every start tag has its end tag, properly nested; no empty or stray tags.
    pub balanced: bool,
    /// Use resolver answers that look like markup etc.
    pub hostile: bool,
    pub tokens_in_keep_include: bool,
}

impl Knobs {
    pub fn gen() -> Knobs {
        Knobs {
            items: if wild_number(1500) {
                vocab::length(600).max(1)
            } else if one_in(10) {
                range(1, 40)
            } else {
                range(1, 6)
            },
            depth: range(0, 3),
            attrs: if wild_number(1000) {
                vocab::length(120)
            } else if one_in(8) {
                range(0, 14)
            } else {
                range(0, 3)
            },
            ref_weight: pick(&[0, 2, 6, 12]),
            charref_weight: pick(&[0, 1, 4]),
            section_weight: pick(&[0, 1, 4]),
            comment_weight: pick(&[0, 1, 3]),
            pi_weight: pick(&[0, 1, 2]),
            prolog: range(0, 3),
            text_len: if wild_number(1500) {
                vocab::length(300).max(1)
            } else if one_in(10) {
                range(1, 40)
            } else {
                range(1, 5)
            },
            balanced: !one_in(3),
            hostile: one_in(2),
            tokens_in_keep_include: false,
        }
    }
}

const NAMES: &[&str] = &[
    "a", "b", "item", "A", "Foo", "x-y", "n.1", "é", "ns:tag", "STMTTRN", "Ñandú", "日本", "a_b", "Жук", "q2",
    "averylongelementnamethatgoesonandon", "aa", "B",
];

pub fn gen_name() -> String {
    if wild(60) {
        vocab::any_name(if one_in(8) { 3000 } else { 300 })
    } else if one_in(20) {
        let n = range(1, 30);
        let mut s = String::from("n");
        for _ in 0..n {
            s.push(pick(&['x', '1', '-', '.', 'Q', 'é']));
        }
        s
    } else {
        pick(NAMES).to_string()
    }
}

const REF_NAMES: &[&str] = &["amp", "lt", "e1", "eacute", "x", "Ref", "a.b", "n-1", "ü", "entity", "gt", "quot", "nbsp", "e2"];
const BLANKS: &[&str] = &[" ", "\n", "  ", "\t", "\r\n", " \n  ", "\n\n"];

fn ref_name() -> String {
    if wild(40) {
        vocab::any_name(if one_in(8) { 3000 } else { 300 })
    } else {
        pick(REF_NAMES).to_string()
    }
}

pub fn blank() -> String {
    if wild_number(300) {
        let unit = pick(&[" ", "\n", "\t", "\r\n", "\r", " \n"]);
        return unit.repeat(vocab::length(300).max(1));
    }
    pick(BLANKS).to_string()
}

/// Characters that are plain data wherever they stand.
fn plain(s: &str) -> String {
    let t: String = s.chars().filter(|c| !matches!(c, '<' | '&' | ']' | '"' | '\'' | '>' | '[')).collect();
    if t.is_empty() || t.starts_with(is_ws) {
        format!("w{}", t)
    } else {
        t
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Place {
    Text { in_include: bool, first: bool },
    Quoted(char),
    Rcdata,
}

pub struct Gen<'k> {
    k: &'k Knobs,
    pub cfg: Cfg,
    out: String,
    ev: Vec<Ev>,
    calls: Vec<Call>,
    spans: Vec<Span>,
    serial: usize,
    in_section: usize,
    keep_include: usize,
    prolog: bool,
    text_end: usize,
}

fn own(s: &str) -> Cow<'static, str> {
    Cow::Owned(s.to_string())
}

impl<'k> Gen<'k> {
    pub fn new(k: &'k Knobs, cfg: Cfg) -> Self {
        Gen {
            k,
            cfg,
            out: String::new(),
            ev: vec![],
            calls: vec![],
            spans: vec![],
            serial: 0,
            in_section: 0,
            keep_include: 0,
            prolog: true,
            text_end: usize::MAX,
        }
    }

    pub fn document(k: &'k Knobs, cfg: Cfg) -> Doc {
        let mut g = Gen::new(k, cfg);
        g.gap();
        for _ in 0..range(0, k.prolog) {
            match env::weighted(&[3, k.pi_weight, k.section_weight]) {
                0 => g.markup_declaration(),
                1 => g.pi(),
                _ => g.section(0),
            }
            g.gap();
        }
        g.prolog = false;
        g.first_content();
        if wild_number(1200) {
            g.chain();
        }
        g.items(k.items.saturating_sub(1), k.depth, false);
        Doc {
            cfg: g.cfg,
            text: g.out,
            events: g.ev,
            calls: g.calls,
            spans: g.spans,
        }
    }

    fn span(&mut self, kind: SpanKind, start: usize, ev0: usize, pieces: Vec<Piece>) {
        if self.in_section == 0 {
            self.spans.push(Span {
                kind,
                start,
                end: self.out.len(),
                ev0,
                ev1: self.ev.len(),
                pieces,
                prolog: self.prolog,
            });
        }
    }

    /// Blanks and comments of the prolog.
    fn gap(&mut self) {
        for _ in 0..range(0, 2) {
            if chance(self.k.comment_weight as usize, 6) {
                self.comment();
            } else {
                let start = self.out.len();
                let b = blank();
                self.out.push_str(&b);
                let n = self.ev.len();
                self.span(SpanKind::Blank, start, n, vec![]);
            }
        }
    }

    fn first_content(&mut self) {
        match env::weighted(&[4, 2, if self.k.balanced { 0 } else { 1 }]) {
            0 => self.element(self.k.depth, false),
            1 => {
                self.text(false, true);
            }
            _ => self.end_tag(None),
        }
    }

    fn items(&mut self, n: usize, depth: usize, in_include: bool) {
        // Two runs of text are never adjacent: they would be one
        let mut first = in_include;
        for _ in 0..n {
            let after_text = self.after_text();
            let k = self.k;
            let kind = env::weighted(&[
                5,
                if after_text { 0 } else { 4 },
                if first { 0 } else { k.comment_weight },
                k.pi_weight,
                k.section_weight,
                if k.balanced { 0 } else { 1 },
                if k.balanced { 0 } else { 1 },
            ]);
            let kind = if kind == 1 && after_text { 0 } else { kind };
            match kind {
                0 => self.element(depth, in_include),
                1 => self.text(in_include, false),
                2 => self.comment(),
                3 => self.pi(),
                4 => self.section(depth),
                5 => {
                    self.start_tag(None);
                }
                _ => self.end_tag(None),
            }
            first = false;
        }
    }

    /// Elements one inside the other.
    fn chain(&mut self) {
        let n = vocab::length(400);
        let same = one_in(2).then(gen_name);
        let mut open = vec![];
        for _ in 0..n {
            let name = same.clone().unwrap_or_else(gen_name);
            if let Some(name) = self.start_tag(Some(name)) {
                open.push(name);
            }
        }
        if !self.after_text() && !one_in(3) {
            self.text(false, false);
        }
        while let Some(name) = open.pop() {
            if self.k.balanced || !one_in(8) {
                self.end_tag(Some(name));
            }
        }
    }

    /// A run of text has just ended: more text would be part of it.
    fn after_text(&self) -> bool {
        self.text_end == self.out.len()
    }

    fn element(&mut self, depth: usize, in_include: bool) {
        let closed = self.start_tag(Some(gen_name()));
        if closed.is_none() {
            return;
        }
        let name = closed.unwrap();
        if depth > 0 {
            let n = range(0, 3.min(self.k.items));
            self.items_inner(n, depth - 1, in_include);
        } else if !one_in(3) {
            self.text(in_include, false);
        }
        if self.k.balanced || !one_in(4) {
            self.end_tag(Some(name));
        }
    }

    fn items_inner(&mut self, n: usize, depth: usize, in_include: bool) {
        for _ in 0..n {
            let after_text = self.after_text();
            let k = self.k;
            let kind = env::weighted(&[4, if after_text { 0 } else { 4 }, k.comment_weight, k.pi_weight, k.section_weight]);
            let kind = if kind == 1 && after_text { 0 } else { kind };
            match kind {
                0 => self.element(depth, in_include),
                1 => self.text(in_include, false),
                2 => self.comment(),
                3 => self.pi(),
                _ => self.section(depth),
            }
        }
    }

    /// Returns the name if the element needs an end tag.
    fn start_tag(&mut self, name: Option<String>) -> Option<String> {
        let start = self.out.len();
        let ev0 = self.ev.len();
        let name = match name {
            Some(n) => n,
            None if one_in(3) => {
                self.out.push_str("<>");
                self.ev.push(SgmlEvent::OpenStartTag { name: "".into() });
                self.ev.push(SgmlEvent::CloseStartTag);
                self.span(SpanKind::Start, start, ev0, vec![]);
                return None;
            }
            None => gen_name(),
        };
        self.out.push('<');
        self.out.push_str(&name);
        self.ev.push(SgmlEvent::OpenStartTag {
            name: Cow::Owned(self.cfg.normalize(&name)),
        });
        let n = range(0, self.k.attrs);
        // What may follow: nothing needed, or whitespace needed
        let mut need_space = true;
        let mut unquoted = false;
        for _ in 0..n {
            if need_space || one_in(2) {
                let b = blank();
                self.out.push_str(&b);
            }
            let aname = gen_name();
            self.out.push_str(&aname);
            let value = match env::weighted(&[5, 2, 2]) {
                0 => {
                    self.equals();
                    let quote = pick(&['"', '\'']);
                    self.out.push(quote);
                    let pieces = self.pieces(Place::Quoted(quote));
                    self.out.push(quote);
                    need_space = false;
                    unquoted = false;
                    Some(expand_pieces(&pieces, &self.calls))
                }
                1 => {
                    self.equals();
                    let v = self.unquoted_value();
                    self.out.push_str(&v);
                    need_space = true;
                    unquoted = true;
                    Some(v)
                }
                _ => {
                    need_space = true;
                    unquoted = false;
                    None
                }
            };
            self.ev.push(SgmlEvent::Attribute {
                name: Cow::Owned(self.cfg.normalize(&aname)),
                value: value.map(Cow::Owned),
            });
        }
        let xml = one_in(8);
        if one_in(4) || (xml && unquoted) {
            let b = blank();
            self.out.push_str(&b);
        }
        if xml {
            self.out.push_str("/>");
            self.ev.push(SgmlEvent::XmlCloseEmptyElement);
        } else {
            self.out.push('>');
            self.ev.push(SgmlEvent::CloseStartTag);
        }
        self.span(SpanKind::Start, start, ev0, vec![]);
        if xml {
            None
        } else {
            Some(name)
        }
    }

    fn equals(&mut self) {
        if one_in(5) {
            self.out.push_str(pick(&[" =", "= ", " = ", "\n=\t"]));
        } else {
            self.out.push('=');
        }
    }

    fn unquoted_value(&mut self) -> String {
        let first = pick(&["v", "1", "x", "/p", "é", "&amp;", "<", "%u;", "=", "a&#65;"]);
        let mut s = first.to_string();
        if wild(60) {
            // Anything but quotes (at the start), blanks and a tag end
            let w = if one_in(4) { vocab::filler(3000) } else { vocab::word() };
            let w: String = w.chars().filter(|c| !is_ws(*c) && !matches!(c, '"' | '\'' | '>')).collect();
            if !w.is_empty() {
                s = w;
            }
            if one_in(2) {
                return s;
            }
        }
        for _ in 0..range(0, 2) {
            s.push_str(pick(&["a", "=", "&e1;", "<b", "/", "0", "]]", "é"]));
        }
        s
    }

    fn end_tag(&mut self, name: Option<String>) {
        let start = self.out.len();
        let ev0 = self.ev.len();
        let name = match name {
            Some(n) => n,
            None if one_in(3) => String::new(),
            None => gen_name(),
        };
        self.out.push_str("</");
        self.out.push_str(&name);
        if !name.is_empty() && one_in(8) {
            let b = blank();
            self.out.push_str(&b);
        }
        self.out.push('>');
        self.ev.push(SgmlEvent::EndTag {
            name: Cow::Owned(self.cfg.normalize(&name)),
        });
        self.span(SpanKind::End, start, ev0, vec![]);
    }

    fn text(&mut self, in_include: bool, first: bool) {
        debug_assert!(!self.after_text());
        let start = self.out.len();
        let ev0 = self.ev.len();
        let calls0 = self.calls.len();
        let pieces = self.pieces(Place::Text { in_include, first });
        let kept = if self.cfg.trim { trim_pieces(&pieces) } else { pieces.clone() };
        if !raw_of(&kept).is_empty() {
            let s = expand_pieces(&kept, &self.calls);
            self.ev.push(SgmlEvent::Character(Cow::Owned(s)));
        } else {
            debug_assert_eq!(calls0, self.calls.len());
        }
        self.span(SpanKind::Text, start, ev0, pieces);
        self.text_end = self.out.len();
    }

    fn comment(&mut self) {
        let start = self.out.len();
        let ev0 = self.ev.len();
        // In content, the library reads "<!>" as text
        if self.prolog && self.in_section == 0 && one_in(6) {
            self.out.push_str("<!>");
        } else {
            self.out.push_str("<!--");
            for _ in 0..range(0, 3) {
                self.out.push_str(pick(&[" note ", "<b>", "&e1;", "&", "%p;", "- ", ">", "]]>", "<![CDATA[", "é", "\n", "\"", "</a>"]));
            }
            if wild_word(60) {
                self.out.push_str(&vocab::word().replace('-', "~"));
            }
            if wild_number(200) {
                self.out.push_str(&vocab::filler(5000));
            }
            // A comment's text must not end in a hyphen
            self.out.push(pick(&[' ', 'x']));
            self.out.push_str("--");
            if one_in(5) {
                self.out.push_str(pick(&["", " ", "\n"]));
                self.out.push_str("-- second --");
            }
            self.out.push('>');
        }
        self.span(SpanKind::Comment, start, ev0, vec![]);
    }

    fn pi(&mut self) {
        let start = self.out.len();
        let ev0 = self.ev.len();
        let mut s = String::from("<?");
        for _ in 0..range(0, 3) {
            s.push_str(pick(&["pi", " x=\"1\"", "&e1;", "<a", "--", "é", "?", " ", "]]", "'"]));
        }
        if wild_word(60) {
            let at = pick(&[2, s.len()]);
            s.insert_str(at, &vocab::word().replace('>', ")"));
        }
        if wild_number(200) {
            s.push_str(&vocab::filler(5000));
        }
        s.push('>');
        self.out.push_str(&s);
        if !self.cfg.ign_pi {
            self.ev.push(SgmlEvent::ProcessingInstruction(Cow::Owned(s)));
        }
        self.span(SpanKind::Pi, start, ev0, vec![]);
    }

    fn markup_declaration(&mut self) {
        let start = self.out.len();
        let ev0 = self.ev.len();
        let keyword = if wild(60) {
            vocab::any_name(300)
        } else {
            pick(&["DOCTYPE", "SGML", "ELEMENT", "x", "é"]).to_string()
        };
        let mut body = String::new();
        for i in 0..range(0, 3) {
            if i > 0 {
                body.push_str(&blank());
            }
            if wild(60) {
                let w = if wild_number(4) { vocab::filler(5000) } else { vocab::word() };
                match draw(3) {
                    0 => {
                        let quote = pick(&['"', '\'']);
                        body.push(quote);
                        body.push_str(&w.replace(quote, ""));
                        body.push(quote);
                    }
                    1 => body.push_str(&vocab::name_of(&w).replace('-', "~")),
                    _ => body.push_str(&format!("-- {} --", w.replace('-', "~"))),
                }
                continue;
            }
            match draw(5) {
                0 | 1 => body.push_str(pick(&["HTML", "PUBLIC", "%pe;", "&e1;", "a-b", "(x|y)*", "#IMPLIED", "é"])),
                2 => body.push_str(pick(&["\"-//W3C//DTD > <x>\"", "'it''s'", "\"&e1;\"", "\"\"", "'--'"])),
                3 => body.push_str(pick(&["--c--", "-- a > b --", "-- &e1; ' --"])),
                _ => {
                    let s = self.subset(2);
                    body.push_str(&s);
                }
            }
        }
        self.out.push_str("<!");
        self.out.push_str(&keyword);
        if !body.is_empty() || one_in(2) {
            let b = blank();
            self.out.push_str(&b);
        }
        self.out.push_str(&body);
        if one_in(3) {
            let b = blank();
            self.out.push_str(&b);
        }
        self.out.push('>');
        if !self.cfg.ign_md {
            self.ev.push(SgmlEvent::MarkupDeclaration {
                keyword: keyword.into(),
                body: Cow::Owned(body),
            });
        }
        self.span(SpanKind::Md, start, ev0, vec![]);
    }

    fn subset(&mut self, depth: usize) -> String {
        let mut s = String::from("[");
        for _ in 0..range(0, 2) {
            match draw(5) {
                0 => s.push_str(pick(&[" x ", "é", "%pe;", "&e1;", "\n"])),
                1 => s.push_str(pick(&["\"]>\"", "']'"])),
                2 => s.push_str("--] c--"),
                3 if depth > 0 => {
                    let inner = self.subset(depth - 1);
                    s.push_str(&inner);
                }
                _ => s.push_str(pick(&["<!ENTITY e \"v]>\">", "<!ELEMENT a (b)>", "<!x>"])),
            }
        }
        s.push(']');
        s
    }

    fn section(&mut self, depth: usize) {
        use MarkedSectionHandling::*;
        let start = self.out.len();
        let ev0 = self.ev.len();
        let msh = self.cfg.msh;
        // 0 CDATA, 1 RCDATA, 2 IGNORE, 3 INCLUDE
        let status = match msh {
            AcceptOnlyCharacterData => draw(2),
            _ => draw(4),
        };
        self.out.push_str("<![");
        if one_in(4) {
            let b = blank();
            self.out.push_str(&b);
        }
        let mut keywords: Vec<String> = vec![];
        let case = |s: &str| -> String {
            match draw(4) {
                0 | 1 => s.to_string(),
                2 => s.to_lowercase(),
                _ => {
                    let mut t = s.to_lowercase();
                    t.replace_range(0..1, &s[0..1]);
                    t
                }
            }
        };
        let main = match status {
            0 => "CDATA",
            1 => "RCDATA",
            2 => "IGNORE",
            _ => pick(&["INCLUDE", "TEMP", "INCLUDE"]),
        };
        keywords.push(case(main));
        if msh != AcceptOnlyCharacterData {
            // Further keywords of at most the same priority
            let order = ["INCLUDE", "TEMP", "RCDATA", "CDATA", "IGNORE"];
            let max = match status {
                0 => 4,
                1 => 3,
                2 => 5,
                _ => 2,
            };
            for _ in 0..size(1, 3) {
                let kw = case(order[draw(max)]);
                let at = draw(keywords.len() + 1);
                keywords.insert(at, kw);
            }
            if status == 3 && one_in(6) {
                keywords.clear();
            }
        }
        // Written literally, or with parameter references standing for parts of it
        let mut raw = String::new();
        let mut expanded = String::new();
        for (i, kw) in keywords.iter().enumerate() {
            if i > 0 {
                let b = blank();
                raw.push_str(&b);
                expanded.push_str(&b);
            }
            let refd = self.cfg.pents && self.k.ref_weight > 0 && one_in(2);
            if refd {
                let (pre, mid, post) = match draw(4) {
                    0 | 1 => ("", kw.as_str(), ""),
                    2 => (&kw[..1], &kw[1..], ""),
                    _ => ("", &kw[..2], &kw[2..]),
                };
                let name = ref_name();
                raw.push_str(pre);
                let semi = !post.is_empty() || one_in(2);
                let offset = self.out.len() + raw.len();
                self.calls.push(Call {
                    param: true,
                    name: name.clone(),
                    offset,
                    answer: mid.to_string(),
                });
                raw.push('%');
                raw.push_str(&name);
                if semi {
                    raw.push(';');
                }
                raw.push_str(post);
            } else {
                raw.push_str(kw);
            }
            expanded.push_str(kw);
        }
        if msh != AcceptOnlyCharacterData && self.cfg.pents && self.k.ref_weight > 0 && one_in(6) {
            // A reference that stands for nothing or for blanks
            if !raw.is_empty() {
                raw.push(' ');
                expanded.push(' ');
            }
            let answer = pick(&["", " ", " TEMP "]);
            let offset = self.out.len() + raw.len();
            self.calls.push(Call {
                param: true,
                name: "nothing".into(),
                offset,
                answer: answer.into(),
            });
            raw.push_str("%nothing;");
            expanded.push_str(answer);
        }
        self.out.push_str(&raw);
        if one_in(4) {
            let b = blank();
            self.out.push_str(&b);
        }
        self.out.push('[');

        let body_start = self.out.len();
        self.in_section += 1;
        match status {
            0 => {
                let mut body = String::new();
                for _ in 0..size(3, 10) {
                    body.push_str(pick(&["data", " ", "<b>", "&e1;", "&#65;", "]", "<![", "\n", "é", "-->", "x", "</a>", "<!--"]));
                    if body.contains("]]") {
                        body.pop();
                        body.push('.');
                    }
                }
                if wild(40) {
                    let w = if wild_number(4) { vocab::filler(5000) } else { vocab::word() };
                    let at = pick(&[0, body.len()]);
                    body.insert_str(at, &w);
                }
                while body.contains("]]") {
                    body = body.replace("]]", "].");
                }
                self.out.push_str(&body);
                if msh != KeepUnmodified {
                    let t = if self.cfg.trim { body.trim_matches(is_ws) } else { &body };
                    self.ev.push(SgmlEvent::Character(own(t)));
                }
            }
            1 => {
                let calls0 = self.calls.len();
                let keep = msh == KeepUnmodified;
                if keep {
                    self.keep_include += 1;
                }
                let pieces = self.pieces(Place::Rcdata);
                if keep {
                    self.keep_include -= 1;
                    self.calls.truncate(calls0);
                    if one_in(2) {
                        // Not looked up: the section stays as it is
                        self.out.push_str(" &nope; &#65;");
                    }
                } else {
                    let kept = if self.cfg.trim { trim_pieces(&pieces) } else { pieces };
                    let s = expand_pieces(&kept, &self.calls);
                    self.ev.push(SgmlEvent::Character(Cow::Owned(s)));
                }
            }
            2 => {
                let mut body = self.ignored(2);
                if wild_number(12) {
                    let n = vocab::length(600);
                    body = format!("{}{}{}", "<![x[".repeat(n), body, "]]>".repeat(n));
                }
                self.out.push_str(&body);
            }
            _ => {
                if msh == KeepUnmodified {
                    // Stays raw; written without references, and well-formed
                    let ev0 = self.ev.len();
                    let calls0 = self.calls.len();
                    let save = self.cfg.clone();
                    self.cfg.ents = false;
                    self.cfg.pents = false;
                    self.keep_include += 1;
                    let n = range(1, 3);
                    self.items(n, depth.min(1), true);
                    self.keep_include -= 1;
                    self.cfg = save;
                    self.ev.truncate(ev0);
                    self.calls.truncate(calls0);
                } else {
                    let n = range(1, 3);
                    self.items(n, depth.saturating_sub(1).min(2), true);
                }
            }
        }
        self.in_section -= 1;
        let body = self.out[body_start..].to_string();
        self.out.push_str("]]>");
        if msh == KeepUnmodified && self.keep_include == 0 {
            self.ev.push(SgmlEvent::MarkedSection {
                status_keywords: Cow::Owned(expanded),
                section: Cow::Owned(body),
            });
        }
        self.span(SpanKind::Section, start, ev0, vec![]);
    }

    fn ignored(&mut self, depth: usize) -> String {
        let mut s = String::new();
        for _ in 0..size(3, 6) {
            match draw(4) {
                0..=2 => s.push_str(pick(&["gone", "&nope;", "<b>", "%pe;", "] ", " ", "<!", "<!-- ", "é", "\"", "</"])),
                _ if depth > 0 => {
                    s.push_str("<![");
                    s.push_str(pick(&["CDATA[", "", "INCLUDE[", " x "]));
                    let inner = self.ignored(depth - 1);
                    s.push_str(&inner);
                    s.push_str("]]>");
                }
                _ => s.push_str("."),
            }
        }
        s
    }

    /// Character data of some kind, written to the output; returns its pieces.
    fn pieces(&mut self, place: Place) -> Vec<Piece> {
        let mut v: Vec<Piece> = vec![];
        let n = match place {
            Place::Text { .. } => range(1, self.k.text_len),
            _ => range(0, self.k.text_len),
        };
        let first_nonblank = matches!(place, Place::Text { first: true, .. });
        let mut i = 0;
        while i < n {
            let ents = self.cfg.ents && self.keep_include == 0;
            let kind = env::weighted(&[
                6,
                3,
                if ents { self.k.ref_weight } else { 0 },
                self.k.charref_weight,
                2,
            ]);
            match kind {
                0 if wild(100) => {
                    let w = if wild_number(4) {
                        vocab::filler(if one_in(6) { 10000 } else { 400 })
                    } else {
                        plain(&vocab::word())
                    };
                    self.lit(&mut v, place, &w)
                }
                0 => self.lit(&mut v, place, pick(&["word", "x", "é", "12", "Zoë", "日本語", "-1.5", "%p;", "=", "#", ";", "𝄞", "e\u{301}", "\u{a0}", "\u{c}"])),
                1 => {
                    if i == 0 && first_nonblank {
                        self.lit(&mut v, place, "w");
                    } else {
                        let b = blank();
                        self.lit(&mut v, place, &b)
                    }
                }
                2 => self.named_ref(&mut v),
                3 => self.char_ref(&mut v),
                _ => {
                    let options: &[&str] = match place {
                        Place::Text { in_include: false, .. } => &[">", "\"", "'", "< ", "&", "]", "<1", "& ", "&;", "]]>", "<=", "--", "/>", "&#", "&# ", "<<"],
                        Place::Text { in_include: true, .. } => &[">", "\"", "'", "< ", "&", "<1", "& ", "&;", "<=", "--", "&#"],
                        Place::Quoted('"') => &[">", "'", "<b>", "&", "]]>", "& ", "<!--", "&#", "/>"],
                        Place::Quoted(_) => &[">", "\"", "<b>", "&", "]]>", "& ", "<!--", "&#", "/>"],
                        Place::Rcdata => &[">", "<b>", "</a>", "&", "<!--", "<![", "& ", "'", "&;"],
                    };
                    let s = pick(options);
                    self.lit(&mut v, place, s);
                }
            }
            i += 1;
        }
        // A lone "<" or "&" at the end could combine with what follows
        if matches!(place, Place::Text { .. }) {
            let raw = raw_of(&v);
            if raw.ends_with('<') || raw.ends_with("<<") {
                self.lit(&mut v, place, " ");
            }
            if raw.is_empty() {
                self.lit(&mut v, place, "t");
            }
        }
        v
    }

    /// Keeps a literal from combining with what was written before it.
    fn lit(&mut self, v: &mut Vec<Piece>, place: Place, s: &str) {
        let c = s.chars().next().unwrap();
        let name_char = |c: char| c.is_alphanumeric() || matches!(c, '.' | '-' | '_' | ':');
        let glue = match v.last() {
            None => false,
            Some(Piece::Lit(t)) => {
                (t.ends_with('&') && (c.is_alphabetic() || c == '#'))
                    || (t.ends_with("&#") && (name_char(c)))
                    || (t.ends_with('<') && (c.is_alphabetic() || matches!(c, '/' | '!' | '?' | '>')))
                    || (t.ends_with(']') && matches!(c, ']' | '>') && place == Place::Rcdata)
                    || (t.ends_with(']') && matches!(c, ']' | '>') && matches!(place, Place::Text { in_include: true, .. }))
            }
            Some(Piece::Char { raw, .. }) | Some(Piece::Ref { raw, .. }) => {
                !raw.ends_with(';') && (name_char(c) || c == ';')
            }
        };
        let mut t = String::new();
        if glue {
            t.push(' ');
        }
        t.push_str(s);
        self.out.push_str(&t);
        match v.last_mut() {
            Some(Piece::Lit(prev)) => prev.push_str(&t),
            _ => v.push(Piece::Lit(t)),
        }
    }

    fn named_ref(&mut self, v: &mut Vec<Piece>) {
        let name = match draw(8) {
            0..=5 => ref_name(),
            6 => pick(&["#SPACE", "#RS", "#x", "#xZZ", "#TAB"]).to_string(),
            _ => pick(&["#1114112", "#xD800", "#99999999999", "#x110000", "#xDFFF", "#55296", "#4294967361"]).to_string(),
        };
        let mut raw = format!("&{}", name);
        if !one_in(5) {
            raw.push(';');
        }
        let answer = self.answer();
        let offset = self.out.len();
        self.out.push_str(&raw);
        self.calls.push(Call {
            param: false,
            name,
            offset,
            answer,
        });
        v.push(Piece::Ref {
            raw,
            call: self.calls.len() - 1,
        });
    }

    fn answer(&mut self) -> String {
        self.serial += 1;
        let n = self.serial;
        if n < 60 && vocab::wild_number(150) {
            // A long answer
            return format!("«{}{}»", n, "long ".repeat(vocab::length(20_000)));
        }
        if !self.k.hostile {
            return format!("«{}»", n);
        }
        match draw(12) {
            0 | 1 => format!("«{}»", n),
            2 => format!("<b x=\"{}\">", n),
            3 => format!("&e{};", n),
            4 => format!("&#{};", 64 + n % 50),
            5 => format!("]]>{}", n),
            6 => format!(" \n{} ", n),
            7 => String::new(),
            8 => format!("%p{};", n),
            9 => format!("\"'{}", n),
            10 => format!("</{}><!--", n),
            _ => " ".to_string(),
        }
    }

    fn char_ref(&mut self, v: &mut Vec<Piece>) {
        let c = pick(&['A', '<', '&', '>', ' ', '\n', 'é', '\u{1F600}', '"', '\'', '\u{10FFFF}', ']', '%', ';', '\u{1}', '\u{D7FF}', '\u{E000}', '\0']);
        let mut raw = match draw(4) {
            0 | 1 => format!("&#{}", c as u32),
            2 => format!("&#x{:X}", c as u32),
            _ => format!("&#x{:04x}", c as u32),
        };
        if one_in(10) {
            // Leading zeros do not count
            let zeros = "0".repeat(pick(&[1, 4, 7, 8, 15, 16, 20, 33, 300]));
            raw = if one_in(2) { format!("&#{}{}", zeros, c as u32) } else { format!("&#x{}{:x}", zeros, c as u32) };
        }
        if !one_in(6) {
            raw.push(';');
        }
        self.out.push_str(&raw);
        v.push(Piece::Char { raw, c });
    }
}

/// A resolver driven by the simulator: answers by position in its call history, and keeps that history.
pub struct SimResolver {
    pub history: RefCell<Vec<(bool, String)>>,
    answers: RefCell<Vec<Option<String>>>,
    next: Cell<usize>,
}

impl SimResolver {
    pub fn new(answers: Vec<Option<String>>) -> Rc<Self> {
        Rc::new(SimResolver {
            history: RefCell::new(vec![]),
            answers: RefCell::new(answers),
            next: Cell::new(0),
        })
    }

    pub fn for_calls(calls: &[Call]) -> Rc<Self> {
        Self::new(calls.iter().map(|c| Some(c.answer.clone())).collect())
    }

    /// Prepares for another document.
    pub fn reset(&self, answers: Vec<Option<String>>) {
        self.history.borrow_mut().clear();
        *self.answers.borrow_mut() = answers;
        self.next.set(0);
    }

    pub fn ask(&self, param: bool, name: &str) -> Option<Cow<'static, str>> {
        self.history.borrow_mut().push((param, name.to_string()));
        let i = self.next.get();
        self.next.set(i + 1);
        tr_call(param, name, i);
        callout(Kind::Resolver);
        let answer = match self.answers.borrow().get(i) {
            Some(a) => a.clone(),
            None => Some(format!("§extra{}§", i)),
        };
        answer.map(Cow::Owned)
    }

    pub fn answer(&self, at: usize) -> Option<String> {
        self.answers.borrow().get(at).cloned().flatten()
    }

    pub fn calls(&self) -> Vec<(bool, String)> {
        self.history.borrow().clone()
    }
}

fn tr_call(param: bool, name: &str, i: usize) {
    crate::tr!("resolver call {}: {}{}", i, if param { '%' } else { '&' }, name);
}

pub fn expected_history(calls: &[Call]) -> Vec<(bool, String)> {
    calls.iter().map(|c| (c.param, c.name.clone())).collect()
}

/// Builds a parser whose resolvers are simulated.
pub fn parser_with(cfg: &Cfg, resolver: &Rc<SimResolver>) -> Parser {
    builder_with(cfg, resolver).build()
}

pub fn builder_with(cfg: &Cfg, resolver: &Rc<SimResolver>) -> sgmlish::parser::ParserBuilder {
    let mut b = cfg.builder();
    if cfg.ents {
        let r = resolver.clone();
        b = b.expand_entities(move |name: &str| r.ask(false, name));
    }
    if cfg.pents {
        let r = resolver.clone();
        b = b.expand_parameter_entities(move |name: &str| r.ask(true, name));
    }
    b
}

/// Events joined as a reader of character data sees them: adjacent runs are one, empty ones none.
pub fn coalesce(events: &[SgmlEvent]) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in events {
        match e {
            SgmlEvent::Character(s) => {
                if s.is_empty() {
                    continue;
                }
                if let Some(SgmlEvent::Character(prev)) = out.last_mut() {
                    prev.to_mut().push_str(s);
                } else {
                    out.push(e.clone().into_owned());
                }
            }
            _ => out.push(e.clone().into_owned()),
        }
    }
    out
}

pub fn show_events(events: &[SgmlEvent]) -> String {
    env::short(&format!("{:?}", events))
}

/// Describes the first difference of two event lists.
pub fn diff_events(expected: &[SgmlEvent], got: &[SgmlEvent]) -> Option<String> {
    if expected == got {
        return None;
    }
    let i = expected
        .iter()
        .zip(got.iter())
        .position(|(a, b)| a != b)
        .unwrap_or(expected.len().min(got.len()));
    Some(format!(
        "event {}: expected {:?}, got {:?} ({} events expected, {} returned)",
        i,
        expected.get(i),
        got.get(i),
        expected.len(),
        got.len()
    ))
}
