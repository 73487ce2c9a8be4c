//! Accounts for every character of an accepted document: walks the text with the returned
//! events as a guide, without the library.

use sgmlish::parser::MarkedSectionHandling;
use sgmlish::SgmlEvent;

use crate::doc::is_ws;
use crate::env::short;

pub type Lookup<'a> = &'a dyn Fn(bool, &str) -> Option<String>;

fn name_char(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '.' | '-' | '_' | ':')
}

/// Whether the `<` at the start is the start of a tag or declaration.
fn markup(s: &str) -> bool {
    let name_start = |s: &str| s.chars().next().map(|c| c.is_alphabetic()).unwrap_or(false);
    match s.strip_prefix('<') {
        None => false,
        Some(r) => {
            let r = match r.strip_prefix('!') {
                Some(d) => return d.starts_with(|c| c == '-' || c == '[') || name_start(d),
                None => r,
            };
            let r2 = r.strip_prefix('/').unwrap_or(r);
            r.starts_with('?') || r2.starts_with('>') || name_start(r2)
        }
    }
}

/// The name of the reference whose prefix character was just read, as written.
enum Ref {
    Char(char, usize),
    Named(usize),
    None,
}

fn reference(param: bool, s: &str) -> Ref {
    let mut len = 0;
    let rest = if let Some(r) = s.strip_prefix('#').filter(|_| !param) {
        let digits: usize = r.chars().take_while(|c| c.is_ascii_digit()).count();
        let (code, n) = if digits > 0 {
            (r[..digits].parse::<u32>().ok(), digits)
        } else if r.starts_with('x') {
            let n: usize = r[1..].chars().take_while(|c| name_char(*c)).map(|c| c.len_utf8()).sum();
            (u32::from_str_radix(&r[1..1 + n], 16).ok().filter(|_| n > 0), if n > 0 { n + 1 } else { 0 })
        } else {
            (None, 0)
        };
        if n > 0 {
            return match code.and_then(char::from_u32) {
                Some(c) => Ref::Char(c, 1 + n),
                None => Ref::Named(1 + n),
            };
        }
        len += 1;
        r
    } else if let Some(r) = s.strip_prefix('#') {
        len += 1;
        r
    } else {
        s
    };
    match rest.chars().next() {
        Some(c) if c.is_alphabetic() => {}
        _ => return Ref::None,
    }
    len += rest.chars().take_while(|c| name_char(*c)).map(|c| c.len_utf8()).sum::<usize>();
    Ref::Named(len)
}

/// Expands the references of a text; the error is the unknown name and its place.
pub fn expand(text: &str, param: bool, lookup: Lookup) -> Result<String, (String, usize)> {
    let prefix = if param { '%' } else { '&' };
    let mut out = String::new();
    let mut i = 0;
    while i < text.len() {
        let c = text[i..].chars().next().unwrap();
        i += c.len_utf8();
        if c != prefix {
            out.push(c);
            continue;
        }
        let n = match reference(param, &text[i..]) {
            Ref::None => {
                out.push(c);
                continue;
            }
            Ref::Char(c, n) => {
                out.push(c);
                n
            }
            Ref::Named(n) => {
                let name = &text[i..i + n];
                match lookup(param, name) {
                    Some(s) => out.push_str(&s),
                    None => return Err((name.to_string(), i - 1)),
                }
                n
            }
        };
        i += n;
        if text[i..].starts_with(';') {
            i += 1;
        }
    }
    Ok(out)
}

/// Matches the text from its start against what a run of it was read as; returns the length.
/// The run must not go on past `limit` (if any).
fn match_run(text: &str, value: &str, limit: Option<usize>, lookup: Lookup) -> Option<usize> {
    let mut left = value;
    let mut i = 0;
    let end = limit.unwrap_or(text.len());
    while !left.is_empty() || limit.is_some() {
        if i >= end {
            break;
        }
        let c = text[i..].chars().next()?;
        if c == '&' {
            let (value, n) = match reference(false, &text[i + 1..]) {
                Ref::None => ("&".to_string(), 0),
                Ref::Char(c, n) => (c.to_string(), n),
                Ref::Named(n) => (lookup(false, &text[i + 1..i + 1 + n])?, n),
            };
            left = left.strip_prefix(value.as_str())?;
            i += 1 + n;
            if n > 0 && text[i..].starts_with(';') {
                i += 1;
            }
        } else {
            left = left.strip_prefix(c)?;
            i += c.len_utf8();
        }
    }
    if !left.is_empty() || limit.map(|l| l != i).unwrap_or(false) {
        return None;
    }
    // References that stand for nothing
    loop {
        let n = match text.get(i + 1..).filter(|_| limit.is_none() && text[i..].starts_with('&')).map(|t| reference(false, t)) {
            Some(Ref::Named(n)) if lookup(false, &text[i + 1..i + 1 + n]).as_deref() == Some("") => n,
            _ => return Some(i),
        };
        i += 1 + n;
        if text[i..].starts_with(';') {
            i += 1;
        }
    }
}

pub struct Scanner<'a> {
    text: &'a str,
    events: &'a [SgmlEvent<'a>],
    pos: usize,
    ev: usize,
    trim: bool,
    msh: MarkedSectionHandling,
    lookup: Lookup<'a>,
    prolog: bool,
    open_sections: usize,
    /// Where the last included section's content starts
    opened_at: usize,
}

type S = Result<(), String>;

impl<'a> Scanner<'a> {
    /// Checks that the events (read with names unchanged and nothing ignored) account for the text.
    pub fn check(text: &'a str, events: &'a [SgmlEvent<'a>], trim: bool, msh: MarkedSectionHandling, lookup: Lookup<'a>) -> S {
        let mut s = Scanner {
            text,
            events,
            pos: 0,
            ev: 0,
            trim,
            msh,
            lookup,
            prolog: true,
            open_sections: 0,
            opened_at: usize::MAX,
        };
        while s.pos < s.text.len() || s.ev < s.events.len() {
            let before = (s.pos, s.ev);
            s.item().map_err(|e| {
                format!(
                    "{} (at offset {} {:?}, event {} {:?})",
                    e,
                    s.pos,
                    short(&s.text[s.pos..].chars().take(40).collect::<String>()),
                    s.ev,
                    s.events.get(s.ev)
                )
            })?;
            if before == (s.pos, s.ev) {
                return Err(format!(
                    "nothing in the events accounts for the text at offset {} {:?}, next event {:?}",
                    s.pos,
                    short(&s.text[s.pos..].chars().take(40).collect::<String>()),
                    s.events.get(s.ev)
                ));
            }
        }
        if s.open_sections > 0 {
            return Err("the end of an included section is missing".into());
        }
        Ok(())
    }

    fn rest(&self) -> &'a str {
        &self.text[self.pos..]
    }

    fn event(&self) -> Option<&'a SgmlEvent<'a>> {
        self.events.get(self.ev)
    }

    fn eat(&mut self, s: &str) -> bool {
        if self.rest().starts_with(s) {
            self.pos += s.len();
            true
        } else {
            false
        }
    }

    /// A whole name, not just the start of one.
    fn want_name(&mut self, s: &str, what: &str) -> S {
        self.want(s, what)?;
        match self.rest().chars().next() {
            Some(c) if !s.is_empty() && name_char(c) => Err(format!("{:?} is only part of the name in {}", s, what)),
            _ => Ok(()),
        }
    }

    fn want(&mut self, s: &str, what: &str) -> S {
        if self.eat(s) {
            Ok(())
        } else {
            Err(format!("expected {:?} of {}", s, what))
        }
    }

    fn blanks(&mut self) -> usize {
        let n = self.rest().len() - self.rest().trim_start_matches(is_ws).len();
        self.pos += n;
        n
    }

    /// A comment declaration, if there is one.
    fn comment(&mut self) -> bool {
        let r = self.rest();
        if let Some(mut t) = r.strip_prefix("<!--") {
            loop {
                match t.find("--") {
                    Some(i) => t = &t[i + 2..],
                    None => return false,
                }
                let u = t.trim_start_matches(is_ws);
                if let Some(v) = u.strip_prefix("--") {
                    t = v;
                } else if let Some(v) = t.strip_prefix('>') {
                    self.pos = self.text.len() - v.len();
                    return true;
                } else {
                    return false;
                }
            }
        }
        if r.starts_with("<!>") {
            self.pos += 3;
            return true;
        }
        false
    }

    fn item(&mut self) -> S {
        let at_top_of_prolog = self.prolog && self.open_sections == 0;
        let just_opened = self.opened_at == self.pos;
        let blanks = if at_top_of_prolog || self.trim { self.blanks() } else { 0 };
        // An empty comment is only one right after something that is not text
        let bang_is_text = just_opened || (!at_top_of_prolog && blanks > 0);
        if self.rest().is_empty() && self.ev == self.events.len() {
            return Ok(());
        }
        if self.open_sections > 0 && self.eat("]]>") {
            self.open_sections -= 1;
            return Ok(());
        }
        if let Some(SgmlEvent::Character(s)) = self.event() {
            if !markup(self.rest()) && (bang_is_text || !self.rest().starts_with("<!>")) {
                if let Some(n) = match_run(self.rest(), s, None, self.lookup).filter(|n| *n > 0) {
                    if self.open_sections > 0 && self.rest()[..n].contains("]]>") {
                        return Err("text goes past the end of its section".into());
                    }
                    let run = self.rest();
                    if run[..n].char_indices().any(|(i, c)| c == '<' && markup(&run[i..])) {
                        return Err("markup was read as text".into());
                    }
                    self.pos += n;
                    self.ev += 1;
                    self.top_content();
                    return Ok(());
                }
            }
        }
        if !(bang_is_text && self.rest().starts_with("<!>")) && self.comment() {
            return Ok(());
        }
        if self.rest().starts_with("<![") {
            return self.section();
        }
        match self.event() {
            Some(SgmlEvent::ProcessingInstruction(s)) => {
                if !s.starts_with("<?") || s.find('>') != Some(s.len() - 1) {
                    return Err("not a processing instruction".into());
                }
                self.want(s, "a processing instruction")?;
                self.ev += 1;
            }
            Some(SgmlEvent::MarkupDeclaration { keyword, body }) => {
                self.want("<!", "a declaration")?;
                self.want_name(keyword, "a declaration")?;
                self.blanks();
                self.want(body, "a declaration")?;
                self.blanks();
                self.want(">", "a declaration")?;
                self.ev += 1;
            }
            Some(SgmlEvent::OpenStartTag { name }) => self.start_tag(name)?,
            Some(SgmlEvent::EndTag { name }) => {
                self.want("</", "an end tag")?;
                self.want_name(name, "an end tag")?;
                if !name.is_empty() {
                    self.blanks();
                }
                self.want(">", "an end tag")?;
                self.ev += 1;
                self.top_content();
            }
            Some(SgmlEvent::Character(_)) => return Err("this text is not there".into()),
            Some(SgmlEvent::MarkedSection { .. }) => return Err("this section is not there".into()),
            Some(SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement) => {
                return Err("part of a start tag outside of one".into())
            }
            None => {}
        }
        Ok(())
    }

    fn top_content(&mut self) {
        if self.open_sections == 0 {
            self.prolog = false;
        }
    }

    fn start_tag(&mut self, name: &str) -> S {
        self.want("<", "a start tag")?;
        self.want_name(name, "a start tag")?;
        self.ev += 1;
        if name.is_empty() {
            self.want(">", "an empty start tag")?;
            if self.event() != Some(&SgmlEvent::CloseStartTag) {
                return Err("empty start tag not closed".into());
            }
            self.ev += 1;
            self.top_content();
            return Ok(());
        }
        self.blanks();
        loop {
            match self.event() {
                Some(SgmlEvent::Attribute { name, value }) => {
                    if name.is_empty() {
                        return Err("attribute without a name".into());
                    }
                    self.want_name(name, "an attribute")?;
                    if let Some(value) = value {
                        self.blanks();
                        self.want("=", "an attribute")?;
                        self.blanks();
                        let q = self.rest().chars().next().filter(|c| matches!(c, '"' | '\''));
                        match q {
                            Some(q) => {
                                self.pos += 1;
                                let n = self.rest().find(q).ok_or("unterminated attribute value")?;
                                if match_run(self.rest(), value, Some(n), self.lookup).is_none() {
                                    return Err(format!("attribute value differs from what is written: {:?}", short(&self.rest()[..n])));
                                }
                                self.pos += n + 1;
                            }
                            None => {
                                if value.is_empty() {
                                    return Err("attribute value from nothing".into());
                                }
                                self.want(value, "an unquoted attribute value")?;
                                match self.rest().chars().next() {
                                    None | Some('>' | '"' | '\'') => {}
                                    Some(c) if is_ws(c) => {}
                                    _ => return Err("only part of an unquoted attribute value".into()),
                                }
                            }
                        }
                    }
                    self.blanks();
                    self.ev += 1;
                }
                Some(SgmlEvent::CloseStartTag) => {
                    self.want(">", "a start tag")?;
                    break;
                }
                Some(SgmlEvent::XmlCloseEmptyElement) => {
                    self.want("/>", "a start tag")?;
                    break;
                }
                _ => return Err("start tag not closed".into()),
            }
        }
        self.ev += 1;
        self.top_content();
        Ok(())
    }

    fn section(&mut self) -> S {
        use MarkedSectionHandling::*;
        let body = self.rest()[3..].find('[').ok_or("section without a start")? + 4;
        let raw = self.rest()[3..body - 1].trim_matches(is_ws);
        let keywords = expand(raw, true, self.lookup).map_err(|e| format!("unknown parameter entity {:?} was accepted", e.0))?;
        let mut status = 0;
        let mut count = 0;
        for kw in keywords.split(|c: char| c.is_ascii_whitespace()).filter(|s| !s.is_empty()) {
            count += 1;
            status = status.max(match kw.to_ascii_uppercase().as_str() {
                "INCLUDE" | "TEMP" => 0,
                "RCDATA" => 1,
                "CDATA" => 2,
                "IGNORE" => 3,
                _ => return Err(format!("unknown keyword {:?} was accepted", kw)),
            });
        }
        if self.msh == AcceptOnlyCharacterData && (count != 1 || !(1..=2).contains(&status)) {
            return Err(format!("section with keywords {:?} was accepted", keywords));
        }
        let start = self.pos + body;
        if self.msh == KeepUnmodified {
            match self.event() {
                Some(SgmlEvent::MarkedSection { status_keywords, section }) => {
                    if *status_keywords != keywords {
                        return Err(format!("section keywords should be {:?}", keywords));
                    }
                    self.pos = start;
                    self.want(section, "a section")?;
                    self.want("]]>", "a section")?;
                    self.ev += 1;
                    return Ok(());
                }
                _ => return Err("a section is lost".into()),
            }
        }
        let rest = &self.text[start..];
        match status {
            0 => {
                self.open_sections += 1;
                self.opened_at = start;
                self.pos = start;
            }
            1 | 2 => {
                let n = rest.find("]]>").ok_or("section without an end")?;
                let mut raw = &rest[..n];
                if self.trim {
                    raw = raw.trim_matches(is_ws);
                }
                let want = if status == 2 {
                    raw.to_string()
                } else {
                    expand(raw, false, self.lookup).map_err(|e| format!("unknown entity {:?} was accepted", e.0))?
                };
                match self.event() {
                    Some(SgmlEvent::Character(s)) if *s == want => {}
                    Some(SgmlEvent::Character(_)) | None | Some(_) => return Err(format!("the section's text is {:?}", short(&want))),
                }
                self.ev += 1;
                self.pos = start + n + 3;
            }
            _ => {
                let mut depth = 0;
                let mut i = 0;
                loop {
                    if rest[i..].starts_with("<![") {
                        depth += 1;
                        i += 3;
                    } else if rest[i..].starts_with("]]>") {
                        i += 3;
                        if depth == 0 {
                            break;
                        }
                        depth -= 1;
                    } else {
                        i += rest[i..].chars().next().ok_or("ignored section without an end")?.len_utf8();
                    }
                }
                self.pos = start + i;
            }
        }
        Ok(())
    }
}
