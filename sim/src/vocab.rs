//! Words and numbers the generators favour now and then.
//!
//! A change of behaviour is often tied to a particular word or length, and such a word or number
//! then stands in the source. The literals of the library's source which the committed list
//! `vocabulary.txt` does not have are offered to the generators more often than others. This
//! decides only what is simulated: no check looks at the source to judge it.

use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

use crate::env::{draw, one_in, pick, range};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Vocabulary {
    pub words: Vec<String>,
    pub numbers: Vec<u64>,
}

static LOADED: OnceLock<Vocabulary> = OnceLock::new();

fn esc(s: &str) -> String {
    s.chars().flat_map(|c| c.escape_default()).collect()
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            // A line continuation
            Some('\n') => {
                let rest = it.as_str().trim_start();
                it = rest.chars();
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

impl Vocabulary {
    /// The lines of a list or of a replay file.
    pub fn parse(text: &str) -> Vocabulary {
        let mut v = Vocabulary::default();
        for line in text.lines() {
            if let Some(w) = line.strip_prefix("word ") {
                v.words.push(unesc(w));
            } else if let Some(n) = line.strip_prefix("number ") {
                v.numbers.extend(n.trim().parse::<u64>().ok());
            }
        }
        v
    }

    pub fn lines(&self) -> String {
        let mut s = String::new();
        for w in &self.words {
            s += &format!("word {}\n", esc(w));
        }
        for n in &self.numbers {
            s += &format!("number {}\n", n);
        }
        s
    }

    /// The literals of the source under `dir`, outside comments.
    pub fn of_source(dir: &Path) -> Vocabulary {
        let mut v = Vocabulary::default();
        let mut dirs = vec![dir.to_path_buf()];
        let mut files = vec![];
        while let Some(d) = dirs.pop() {
            for e in fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                    files.push(p);
                }
            }
        }
        files.sort();
        for f in files {
            v.scan(&fs::read_to_string(&f).unwrap_or_default());
        }
        v.words.sort();
        v.numbers.sort();
        v
    }

    fn scan(&mut self, text: &str) {
        let c: Vec<char> = text.chars().collect();
        let at = |i: usize| c.get(i).copied().unwrap_or('\0');
        let ident = |ch: char| ch.is_alphanumeric() || ch == '_';
        let mut i = 0;
        while i < c.len() {
            let prev = if i > 0 { c[i - 1] } else { ' ' };
            match c[i] {
                '/' if at(i + 1) == '/' => {
                    while i < c.len() && c[i] != '\n' {
                        i += 1;
                    }
                }
                '/' if at(i + 1) == '*' => {
                    i += 2;
                    while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                        i += 1;
                    }
                    i += 2;
                }
                'r' if !ident(prev) && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) => {
                    let mut hashes = 0;
                    i += 1;
                    while at(i) == '#' {
                        hashes += 1;
                        i += 1;
                    }
                    i += 1;
                    let start = i;
                    while i < c.len() && !(c[i] == '"' && (1..=hashes).all(|k| at(i + k) == '#')) {
                        i += 1;
                    }
                    let s: String = c[start..i.min(c.len())].iter().collect();
                    self.word(s);
                    i += 1 + hashes;
                }
                '"' => {
                    let start = i + 1;
                    i += 1;
                    while i < c.len() && c[i] != '"' {
                        i += if c[i] == '\\' { 2 } else { 1 };
                    }
                    let s: String = c[start..i.min(c.len())].iter().collect();
                    self.word(unesc(&s));
                    i += 1;
                }
                '\'' if at(i + 1) == '\\' || at(i + 2) == '\'' => {
                    let start = i + 1;
                    i += 1;
                    while i < c.len() && (c[i] != '\'' || i == start) {
                        i += if c[i] == '\\' { 2 } else { 1 };
                    }
                    let s: String = c[start..i.min(c.len())].iter().collect();
                    let s = unesc(&s);
                    // Characters matter as numbers, too: of a code or a range
                    self.word(s);
                    i += 1;
                }
                d if d.is_ascii_digit() && !ident(prev) => {
                    let start = i;
                    while ident(at(i)) {
                        i += 1;
                    }
                    let s: String = c[start..i].iter().filter(|c| **c != '_').collect();
                    let n = if let Some(h) = s.strip_prefix("0x") {
                        let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                        u64::from_str_radix(&h, 16).ok()
                    } else {
                        let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                        d.parse().ok()
                    };
                    self.numbers.extend(n);
                }
                _ => i += 1,
            }
        }
    }

    fn word(&mut self, s: String) {
        if !s.is_empty() && s.len() <= 200 {
            self.words.push(s);
        }
    }

    /// What occurs here more often than in `known`.
    pub fn beyond(&self, known: &Vocabulary) -> Vocabulary {
        fn beyond<T: Ord + Clone>(a: &[T], b: &[T]) -> Vec<T> {
            let mut left: BTreeMap<&T, i64> = BTreeMap::new();
            for x in b {
                *left.entry(x).or_default() += 1;
            }
            let mut out: Vec<T> = vec![];
            for x in a {
                let n = left.entry(x).or_default();
                *n -= 1;
                if *n < 0 && !out.contains(x) {
                    out.push(x.clone());
                }
            }
            out
        }
        let mut v = Vocabulary {
            words: beyond(&self.words, &known.words),
            numbers: beyond(&self.numbers, &known.numbers),
        };
        // Messages with placeholders say nothing about inputs, except around them
        let more: Vec<String> = v
            .words
            .iter()
            .filter(|w| w.contains('{'))
            .flat_map(|w| w.split(['{', '}']).step_by(2).map(|s| s.trim().to_string()).collect::<Vec<_>>())
            .filter(|s| !s.is_empty())
            .collect();
        v.words.extend(more);
        v.words.truncate(60);
        v.numbers.truncate(60);
        v
    }
}

/// Reads the list named by SGMLSIM_DICT, if any.
pub fn load() {
    let v = std::env::var_os("SGMLSIM_DICT")
        .and_then(|p| fs::read_to_string(p).ok())
        .map(|t| Vocabulary::parse(&t))
        .unwrap_or_default();
    let _ = LOADED.set(v);
}

fn fresh() -> &'static Vocabulary {
    LOADED.get_or_init(Vocabulary::default)
}

/// True now and then, more often if there are words or numbers to be tried.
pub fn wild(den: usize) -> bool {
    let v = fresh();
    if v.words.is_empty() && v.numbers.is_empty() {
        one_in(den)
    } else {
        one_in((den / 6).max(4))
    }
}

/// The same, if there are words to be tried.
pub fn wild_word(den: usize) -> bool {
    if fresh().words.is_empty() {
        one_in(den)
    } else {
        one_in((den / 6).max(4))
    }
}

/// The same, if there are numbers to be tried.
pub fn wild_number(den: usize) -> bool {
    if fresh().numbers.iter().all(|n| *n < 3) {
        one_in(den)
    } else {
        one_in((den / 4).max(4))
    }
}

const WORDS: &[&str] = &[
    "script", "style", "textarea", "title", "plaintext", "xmp", "listing", "pre", "br", "hr", "img", "input", "meta", "link", "p", "li", "td", "tr",
    "table", "html", "head", "body", "HTML", "BR", "SCRIPT", "OFX", "BANKTRANLIST", "DTPOSTED", "NAME", "MEMO", "xml", "xmlns", "xml:lang", "xml:space",
    "preserve", "default", "data-x", "data-id", "aria-label", "id", "class", "href", "src", "name", "type", "value", "content", "text", "key", "$value",
    "$text", "#text", "@id", "key.type", "a.b.c", "_x", "x_", "x-", "x.", "x:", "svg:path", "true", "false", "yes", "no", "on", "off", "1", "0", "-1",
    "+1", "3.14", "1e5", "NaN", "inf", "null", "none", "nil", "checked", "selected", "disabled", "default.", "http://a.b/", "https://example.com/x?a=1&b=2#c",
    "mailto:someone@example.org", "me@here.net", "/usr/local/", "C:\\x\\y\\", "a/b/c", "../x", "2021-03-04", "20210304120000.000[-3:BRT]", "12:30:00",
    "1,234.56", "$100", "50%", "100%;", "%", "%%", "%x;%y;", "R&D", "AT&T", "Q&A", "a&b&c", "&&", "x;y;z", "a=b", "a = b", "k=v&k2=v2", "<3", "a<1", "x > y",
    "->", "-->", "--", "---", "<!--", "]]", "]]>", "]", "[", "[x]", "{}", "{0}", "{x}", "\\", "\\n", "\\\"", "\"", "'", "''", "\"\"", "it's", "`", "~", "^", "!",
    "!!", "?", "??", "?>", "...", "…", "—", "–", "“”", "«»", "\u{a0}", "\u{feff}", "\u{200b}", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\u{1f}", "\u{7f}",
    "\u{0}", "\u{fffd}", "\u{fffe}", "\u{301}", "e\u{301}", "İ", "ß", "ẞ", "ﬁ", "ſ", "K", "Σας", "ı", "日本", "😀", "👩‍👩‍👧", "👍🏽", "עברית", "العربية", "\u{202e}x",
    "CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "DOCTYPE", "ENTITY", "ELEMENT", "ATTLIST", "NOTATION", "SYSTEM", "PUBLIC", "#PCDATA", "#IMPLIED",
    "amp", "lt", "gt", "quot", "apos", "nbsp", "copy", "AMP", "Amp", "#38", "#x26", "#60", "#160", "#SPACE", "#RE", "#RS", "&amp;", "&lt;", "&#38;", "&#x3c;", "&amp;lt;", "&nbsp",
    "<b>", "</b>", "<br/>", "<b", "</", "/>", "<?", "<?xml version=\"1.0\"?>", "<!DOCTYPE html>", "<![CDATA[x]]>", "<![",
];

/// Letters which are neither lower nor upper case, but have other cases: what becomes of these in a
/// name when names are to be normalized is nobody's promise, so no input has them.
fn titlecase(c: char) -> bool {
    c.is_alphabetic() && !c.is_lowercase() && !c.is_uppercase() && (c.to_lowercase().ne([c]) || c.to_uppercase().ne([c]))
}

/// A word someone might have thought of.
pub fn word() -> String {
    let mut w = some_word();
    w.retain(|c| !titlecase(c));
    if w.is_empty() {
        w.push('x');
    }
    w
}

fn some_word() -> String {
    let v = fresh();
    if !v.words.is_empty() && draw(4) > 0 {
        let w = pick(&v.words);
        return match draw(8) {
            0..=4 => w,
            5 => format!("{}{}", w, pick(&["x", " ", "1", "-", ".", ":", ";"])),
            6 => format!("{}{}", pick(&["x", " ", "1", "-", ".", ":"]), w),
            _ => format!("{}{}", w, pick(&v.words)),
        };
    }
    if let Some(n) = one_in(12).then(number) {
        return n.to_string();
    }
    match draw(12) {
        0..=9 => pick(WORDS).to_string(),
        10 => format!("{}{}", pick(WORDS), pick(WORDS)),
        _ => {
            // Characters from all over
            let n = range(1, 6);
            (0..n).map(|_| character()).collect()
        }
    }
}

pub fn character() -> char {
    let code = match draw(8) {
        0..=2 => range(0x20, 0x7e),
        3 => range(0, 0x1f),
        4 => range(0x7f, 0x17f),
        5 => range(0x180, 0x2fff),
        6 => range(0x3000, 0xfffd),
        _ => range(0x10000, 0x10ffff),
    };
    char::from_u32(code as u32).filter(|c| !titlecase(*c)).unwrap_or('\u{d7ff}')
}

/// A number someone might have thought of.
pub fn number() -> u64 {
    let v = fresh();
    let base = if !v.numbers.is_empty() && draw(4) > 0 {
        pick(&v.numbers)
    } else {
        match draw(4) {
            0 => range(0, 20) as u64,
            1 => 1u64 << range(2, 16),
            2 => pick(&[10, 20, 24, 30, 40, 48, 50, 60, 72, 80, 96, 99, 100, 120, 150, 200, 240, 250, 255, 300, 400, 500, 999, 1000, 1500, 2000, 5000, 10000]),
            _ => range(0, 1000) as u64,
        }
    };
    match draw(8) {
        0..=2 => base,
        3 | 4 => base.saturating_add(1),
        5 | 6 => base.saturating_sub(1),
        _ => base.saturating_mul(2),
    }
}

/// A length or a number of repetitions up to `max`, often next to a number someone might have chosen.
pub fn length(max: usize) -> usize {
    let n = number();
    if n as usize <= max && n < u32::MAX as u64 {
        n as usize
    } else {
        range(0, max.min(300))
    }
}

/// A word that may stand as a name.
pub fn name_of(word: &str) -> String {
    let s: String = word
        .chars()
        .filter(|c| c.is_alphanumeric() || matches!(c, '.' | '-' | '_' | ':'))
        .filter(|c| !titlecase(*c))
        // The case of some letters is only changed with the help of combining marks
        .filter(|c| c.to_lowercase().chain(c.to_uppercase()).all(|c| c.is_alphanumeric() || c.is_ascii()))
        .collect();
    if s.starts_with(|c: char| c.is_alphabetic()) {
        s
    } else {
        format!("n{}", s)
    }
}

/// A name of any kind: a word, or one of a given length.
pub fn any_name(max: usize) -> String {
    if one_in(2) {
        let n = length(max).max(1);
        let mut s = String::from(pick(&["n", "N", "é", "x"]));
        let filler = pick(&["x", "y1", "ab-", "Q", "z.", "é"]);
        while s.chars().count() < n {
            s.push_str(filler);
        }
        let s: String = s.chars().take(n).collect();
        name_of(&s)
    } else {
        let mut s = name_of(&word());
        if one_in(6) {
            s.push(pick(&['.', '-', '_', ':', '1']));
        }
        s
    }
}

/// Text of a given length without any special character.
pub fn filler(max: usize) -> String {
    let n = length(max).max(1);
    let unit = pick(&["x", "ab ", "é", "日", "lorem ipsum ", "1", "x\n", "😀"]);
    let mut s = String::new();
    while s.len() < n {
        s.push_str(unit);
    }
    // Some of these lengths count characters, some bytes
    while s.len() > n {
        s.pop();
    }
    if s.is_empty() || s.starts_with([' ', '\n']) {
        s.insert(0, 'x');
    }
    s
}
