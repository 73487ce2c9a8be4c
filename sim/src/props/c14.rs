//! C14: nesting and length of a document never exhaust the stack.

use std::collections::HashMap;
use std::fmt::{self, Write as _};

use serde::de::{self, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use sgmlish::parser::{ContextualizedError, MarkedSectionHandling};
use sgmlish::transforms::{normalize_end_tags, Transform};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};

use crate::doc::Ev;
use crate::env::{self, draw, fault, one_in, pick, range, short, R};
use crate::props::Property;
use crate::world::guarded;
use crate::fail;

pub const PROPERTY: Property = Property {
    id: "C14",
    run,
    quick: 6_000,
    thorough: 150_000,
    level: "fault_enumeration",
    rule: "a case is an operation on a document with one to three extreme dimensions (10 to 60,000 nested or repeated units of each of 40 shapes and of any of 47 units in any of 30 places, whole, torn or with a stray part), on a thread whose stack is limited to 256, 512 or 1024 KiB in an unoptimized build; non-trivial from 1,000 units on; distinct by shape, size, operation and stack",
    real: "parser, error descriptions, normalization, edits, rendering, escaping, expansion, deserializer",
    stub: "the stack size, consumers that skip or read flatly",
};

/// A document and how many events reading it whole gives (if that is fixed).
struct Shape {
    name: String,
    text: String,
    sections: bool,
}

/// The build for this property is not optimized: frames are larger, and recursion stays recursion.
const KIB: usize = if cfg!(feature = "stack") { 4 << 10 } else { 1 << 10 };

/// Nesting of included sections and of declaration subsets is bounded: see known-findings.txt.
const DEEP_SECTIONS: usize = 12;

pub fn shape(n: usize, sections: bool) -> (&'static str, String) {
    let r = |s: &str| s.repeat(n);
    let k = n.min(DEEP_SECTIONS);
    let few = |s: &str| s.repeat(k);
    match draw(if sections { 40 } else { 30 }) {
        0 => ("nested-elements", format!("{}t{}", r("<a>"), r("</a>"))),
        1 => ("unclosed-elements", r("<a>t")),
        2 => ("unopened-elements", r("</a>")),
        3 => ("siblings", format!("<r>{}</r>", r("<a>1</a>"))),
        4 => ("attributes", format!("<r{}>x</r>", r(" a='1'"))),
        5 => ("bare-attributes", format!("<r{}>x</r>", r(" a"))),
        6 => ("long-text", r("lorem ipsum ")),
        7 => ("char-references", format!("<a>{}</a>", r("&#65;"))),
        8 => ("named-references", format!("<a>{}</a>", r("&x;"))),
        9 => ("references-in-value", format!("<a b='{}'>", r("&x;&#x41;"))),
        10 => ("comments", format!("<a>{}</a>", r("<!-- c -->"))),
        11 => ("comment-parts", format!("<!--{}--><a>", r(" c -- -- "))),
        12 => ("long-comment", format!("<!--{}--><a>", r(" - c"))),
        13 => ("declarations", format!("{}<a>", r("<!x y>"))),
        14 => ("instructions", format!("{}<a>{}", r("<?x y>"), r("<?z>"))),
        15 => ("declaration-parts", format!("<!x {}><a>", r("'q' -- c -- w - "))),
        16 => ("subset-parts", format!("<!x [{}]><a>", r("'q' -- c -- <!y z> w "))),
        17 => ("long-name", format!("<{0}></{0}>", r("ab"))),
        18 => ("long-value", format!("<a b=\"{}\">", r("v "))),
        19 => ("blanks", format!("{}<a>{}</a>{}", r("\n"), r(" \n"), r("\r\n"))),
        20 => ("stray-delimiters", format!("x{}", r("< "))),
        21 => ("stray-ampersands", format!("x{}", r("& %"))),
        22 => ("stray-section-ends", format!("x{}", r("]]>"))),
        23 => ("empty-tags", r("<></>")),
        24 => ("self-closing", format!("<r>{}</r>", r("<a/>"))),
        25 => ("nested-with-attributes", format!("{}{}", r("<a b='c' d>"), r("</a>"))),
        26 => ("alternating", format!("{}{}", r("<a><b>x"), r("</b></a>"))),
        27 => ("mixed", format!("<r>{}</r>", r("t<a>u</a><!-- c -->v<?p>"))),
        28 => ("unquoted-values", format!("<r{}>", r(" a=1"))),
        29 => ("nested-first", format!("<r>{}x{}<z>y</z></r>", r("<a>"), r("</a>"))),
        30 => ("nested-ignore", format!("<![IGNORE[{}x{}]]><a>", r("<!["), r("]]>"))),
        31 => ("ignored-content", format!("<![IGNORE[{}]]><a>", r("<a> & ] ]] > <! "))),
        32 => ("many-sections", format!("<r>{}</r>", r("<![CDATA[x]]>"))),
        33 => ("many-rcdata", format!("<r>{}</r>", r("<![RCDATA[&#65;x&x;]]>"))),
        34 => ("many-included", format!("<r>{}</r>", r("<![INCLUDE[<a>b]]>"))),
        35 => ("long-cdata", format!("<![CDATA[{}]]>", r("]] <![ "))),
        36 => ("long-keywords", format!("<![ {} CDATA [x]]>", r("INCLUDE\n"))),
        37 => ("keyword-references", format!("<![ {} [x]]>", r("%c; "))),
        38 => ("nested-included", format!("<a>{}{}{}", few("<![INCLUDE[<b>"), "t<c>".repeat(n.min(3000)), few("]]>"))),
        _ => ("nested-subsets", format!("<!x {}{}{}><a>", few("[ a <!y "), r("'q' "), few(">]"))),
    }
}

/// Anything repeated anywhere: a place in a document and a unit that fills it.
pub fn composite(n: usize, sections: bool) -> (String, String) {
    const PLACES: &[(&str, &str)] = &[
        ("", "<a>t"),
        ("<!DOCTYPE a>", "<a>t"),
        ("<a>t</a>", ""),
        ("<a>", "t</a>"),
        ("<a", ">"),
        ("<a b=1", ">"),
        ("<a b", "=1>"),
        ("<a b=", "1>"),
        ("<a b='", "'>"),
        ("<a b=1", "1>"),
        ("<a></a", ">"),
        ("<a></", "a>"),
        ("<!x ", ">"),
        ("<!x", " y>"),
        ("<!x [", "]>"),
        ("<!x [ y ] ", ">"),
        ("<!x '", "'>"),
        ("<!--", "-->"),
        ("<!-- a --", ">"),
        ("<?", ">"),
        ("<a>&#", "65;"),
        ("<a>&#65", ";"),
        ("<a>&", ";"),
        ("<![", "CDATA[x]]>"),
        ("<![ CDATA", "[x]]>"),
        ("<![CDATA[", "]]>"),
        ("<![RCDATA[", "]]>"),
        ("<![INCLUDE[", "]]>"),
        ("<![IGNORE[", "]]>"),
        ("<a><![INCLUDE[", "]]>u</a>"),
    ];
    // A subset opened inside a declaration nests: that is a known finding
    const UNITS: &[&str] = &[
        "<!-- c -->", "<!--c-->\n", " ", "\n", "-- c --", "<!>", "<a>", "</a>", "<a/>", "<a b=1 c>", "t", "&", "&#65;", "&x;", "%c;", "]", "]]", "<?p>", "a", "=", " a=b", " a='b'", "'q'", "\"", "'", "<!y z>", "-", "<", "/",
        ">", "INCLUDE ", "é", "0", "</>", "<>", "&#38;amp;", ";", "#", "\r\n", "\t", "CDATA", ",", "|", "<![CDATA[y]]>", "<![IGNORE[<![y[]]>]]>", "<![RCDATA[&x;]]>", "]]>",
    ];
    let (places, units) = if sections { (PLACES.len(), UNITS.len()) } else { (PLACES.len() - 7, UNITS.len() - 4) };
    let (before, behind) = PLACES[draw(places)];
    let unit: String = (0..pick(&[1, 1, 1, 2, 3])).map(|_| UNITS[draw(units)]).collect();
    (format!("{}({}){}", before, unit, behind), format!("{}{}{}", before, unit.repeat(n), behind))
}

fn gen_shape() -> Shape {
    let n = match draw(8) {
        0 => range(10, 100),
        7 => range(20_000, 60_000),
        1 | 2 => range(100, 1000),
        _ => range(1000, 12_000),
    };
    if n >= 1000 {
        env::nontrivial();
    }
    let sections = one_in(2);
    let (name, mut text) = if one_in(3) {
        composite(n, sections)
    } else {
        let (name, text) = shape(n, sections);
        (name.to_string(), text)
    };
    let mut name = format!("{} x {}", name, n);
    // Small steps of the size must not matter, so no more of the dimension is drawn than that
    for _ in 0..draw(3) {
        if text.len() > 100_000 {
            break;
        }
        let m = range(10, 3000);
        let (other, t) = shape(m, sections);
        name += &format!(" then {} x {}", other, m);
        text += &t;
    }
    Shape { name, text, sections }
}

fn damage(s: &mut Shape) {
    match draw(6) {
        0 => {
            fault("lost-tail");
            let mut at = s.text.len() - draw(s.text.len().min(40));
            if one_in(3) {
                at = draw(s.text.len());
            }
            while !s.text.is_char_boundary(at) {
                at -= 1;
            }
            s.text.truncate(at);
            s.name += " torn";
        }
        1 => {
            fault("stray-delimiter");
            let extra = pick(&["<![", "<a ", "</a", "<!-- ", "<?", "&undefined;", "<a b='", "<!x ", "<![CDATA[", "<![IGNORE[<![", "<>", "</z>", "<", "<![WRONG[]]>", "\"", "<a b=&undefined>", "<a b='&undefined;'>", "]]>"]);
            s.text += extra;
            s.name += &format!(" + {}", extra);
        }
        _ => {}
    }
}

/// Reads the first entry of each structure on the way, then leaves.
struct First(usize);

impl<'de> Deserialize<'de> for First {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = First;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<First, A::Error> {
                let mut n = 0;
                if map.next_key::<String>()?.is_some() {
                    map.next_value::<IgnoredAny>()?;
                    n = 1;
                }
                Ok(First(n))
            }
        }
        d.deserialize_map(V)
    }
}

/// Takes a few items of a sequence, then leaves.
struct Some3(usize);

impl<'de> Deserialize<'de> for Some3 {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Some3;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Some3, A::Error> {
                let mut n = 0;
                while n < 3 && seq.next_element::<IgnoredAny>()?.is_some() {
                    n += 1;
                }
                Ok(Some3(n))
            }
        }
        d.deserialize_seq(V)
    }
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Choices {
    #[serde(rename = "$value")]
    items: Vec<Choice>,
}

#[derive(Deserialize)]
#[serde(rename_all = "lowercase")]
#[allow(dead_code)]
enum Choice {
    A(String),
    B,
    R { a: Vec<String> },
    #[serde(other)]
    Other,
}

#[derive(Deserialize)]
#[serde(default)]
#[derive(Default)]
struct Flat {
    a: Vec<String>,
    b: Option<u32>,
}

#[derive(Deserialize)]
struct Wrapped(Vec<String>);

fn parser(sections: bool) -> Parser {
    let mut b = Parser::builder().expand_entities(|n: &str| if n == "x" { Some("y") } else { None });
    if one_in(2) {
        b = b.trim_whitespace(false);
    }
    if one_in(4) {
        b = b.lowercase_names();
    }
    if sections {
        b = b.marked_section_handling(match draw(4) {
            0 => MarkedSectionHandling::KeepUnmodified,
            1 => MarkedSectionHandling::AcceptOnlyCharacterData,
            _ => MarkedSectionHandling::ExpandAll,
        });
        b = b.expand_parameter_entities(|n: &str| if n == "c" { Some("CDATA") } else { None });
    }
    b.build()
}

/// Runs the operation on a small stack and waits for it.
fn on_small_stack<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(stack).spawn_scoped(s, || guarded(f)).expect("spawn");
        match h.join() {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}

fn events() -> (String, Vec<Ev>) {
    let n = match draw(6) {
        0 => range(10, 1000),
        5 => range(20_000, 60_000),
        _ => range(1000, 12_000),
    };
    if n >= 1000 {
        env::nontrivial();
    }
    let open = |v: &mut Vec<Ev>, name: &str| {
        v.push(SgmlEvent::OpenStartTag { name: name.to_string().into() });
        v.push(SgmlEvent::CloseStartTag);
    };
    let close = |v: &mut Vec<Ev>, name: &str| v.push(SgmlEvent::EndTag { name: name.to_string().into() });
    let text = |v: &mut Vec<Ev>, t: &str| v.push(SgmlEvent::Character(t.to_string().into()));
    let attr = |v: &mut Vec<Ev>| {
        v.push(SgmlEvent::Attribute {
            name: "a".into(),
            value: Some("1".into()),
        })
    };
    let mut v = vec![];
    let mut names = String::new();
    v.push(SgmlEvent::OpenStartTag { name: "r".into() });
    if one_in(6) {
        names += &format!("attributes x {} ", n);
        (0..n).for_each(|_| attr(&mut v));
    }
    v.push(SgmlEvent::CloseStartTag);
    let parts = pick(&[1, 1, 2, 3, 4]);
    for part in 0..parts {
        // The first part is the longest
        let n = if part == 0 { n } else { pick(&[1, 10, 3000]) };
        let name;
        match draw(18) {
            0 => {
                name = "nested";
                (0..n).for_each(|_| open(&mut v, "a"));
                text(&mut v, "x");
                (0..n).for_each(|_| close(&mut v, "a"));
            }
            1 => {
                name = "siblings";
                (0..n).for_each(|_| {
                    open(&mut v, "a");
                    text(&mut v, "1");
                    close(&mut v, "a");
                });
            }
            2 => {
                name = "texts";
                (0..n).for_each(|_| text(&mut v, "t"));
            }
            3 => {
                name = "instructions";
                (0..n).for_each(|_| v.push(SgmlEvent::ProcessingInstruction("<?x>".into())));
            }
            4 => {
                name = "one sibling";
                open(&mut v, "a");
                text(&mut v, "1");
                close(&mut v, "a");
            }
            5 => {
                name = "blanks";
                (0..n).for_each(|_| text(&mut v, " "));
            }
            6 => {
                name = "empty texts";
                (0..n).for_each(|_| text(&mut v, ""));
            }
            7 => {
                name = "unclosed";
                (0..n).for_each(|_| open(&mut v, "a"));
            }
            8 => {
                name = "self-closing";
                (0..n).for_each(|_| {
                    v.push(SgmlEvent::OpenStartTag { name: "a".into() });
                    v.push(SgmlEvent::XmlCloseEmptyElement);
                });
            }
            9 => {
                name = "distinct";
                (0..n).for_each(|i| {
                    open(&mut v, &format!("k{}", i));
                    text(&mut v, "1");
                    close(&mut v, &format!("k{}", i));
                });
            }
            10 => {
                name = "an item between blanks";
                let t = pick(&[" ", "", "\n"]);
                (0..2).for_each(|_| {
                    open(&mut v, "a");
                    text(&mut v, "1");
                    close(&mut v, "a");
                    (0..n).for_each(|_| text(&mut v, t));
                });
            }
            11 => {
                name = "siblings between blanks";
                (0..n).for_each(|_| {
                    text(&mut v, " ");
                    open(&mut v, "a");
                    text(&mut v, "1");
                    close(&mut v, "a");
                });
            }
            12 => {
                name = "declarations";
                (0..n).for_each(|_| {
                    v.push(SgmlEvent::MarkupDeclaration {
                        keyword: "x".into(),
                        body: "y".into(),
                    })
                });
            }
            13 => {
                name = "sections";
                (0..n).for_each(|_| {
                    v.push(SgmlEvent::MarkedSection {
                        status_keywords: "CDATA".into(),
                        section: "x".into(),
                    })
                });
            }
            14 => {
                name = "siblings with attributes";
                (0..n).for_each(|_| {
                    v.push(SgmlEvent::OpenStartTag { name: "a".into() });
                    attr(&mut v);
                    v.push(SgmlEvent::CloseStartTag);
                    open(&mut v, "b");
                    close(&mut v, "b");
                    close(&mut v, "a");
                });
            }
            15 => {
                name = "attributes before a child";
                let outer = pick(&["a", "r", "b", "e"]);
                v.push(SgmlEvent::OpenStartTag { name: outer.into() });
                (0..n).for_each(|_| attr(&mut v));
                v.push(SgmlEvent::CloseStartTag);
                let inner = pick(&["a", "b", "r"]);
                open(&mut v, inner);
                close(&mut v, inner);
                close(&mut v, outer);
            }
            16 => {
                name = "attributes of a self-closing one";
                v.push(SgmlEvent::OpenStartTag { name: "a".into() });
                (0..n).for_each(|_| attr(&mut v));
                v.push(SgmlEvent::XmlCloseEmptyElement);
            }
            _ => {
                name = "children of one";
                open(&mut v, "a");
                (0..n).for_each(|_| {
                    text(&mut v, "x");
                    open(&mut v, "b");
                    close(&mut v, "b");
                });
                close(&mut v, "a");
            }
        }
        names += &format!("{} x {} ", name, n);
    }
    let name = names.trim_end().to_string();
    close(&mut v, "r");
    if one_in(4) {
        fault("lost-event-tail");
        v.truncate(draw(v.len()) + 1);
    }
    (name, v)
}

fn run() -> R {
    env::with(|e| e.budget = u64::MAX);
    let stack = pick(&[256usize, 128, 64]) * KIB;
    if one_in(3) {
        let (name, v) = events();
        return after(&name, v.into(), stack);
    }
    let mut s = gen_shape();
    damage(&mut s);
    // Sections take more stack even when not nested deeply
    let stack = if s.sections { 256 * KIB } else { stack };
    let Shape { name, text, sections } = s;
    env::case(&name);
    env::sample(|| format!("{} on a stack of {} KiB: {:?}", name, stack >> 10, short(&text)));
    if std::env::var_os("SGMLSIM_SHOW").is_some() { eprintln!("{}", name); }
    env::observe(&name);
    fault("small-stack");
    match draw(5) {
        0 => {
            env::case(&format!("expand {}", stack));
            let r = on_small_stack(stack, || {
                let a = sgmlish::entities::expand_entities(&text, |n: &str| if n == "x" { Some("y") } else { None }).map(|s| s.len());
                let b = sgmlish::entities::expand_parameter_entities(&text, |n: &str| if n == "c" { Some("y") } else { None }).map(|s| s.len());
                let c = sgmlish::text::escape(&text).count();
                let d = sgmlish::text::escape(&text).to_string().len();
                let e = sgmlish::text::escape(&text).last();
                format!("{:?} {:?} {} {} {:?}", a.is_ok(), b.is_ok(), c, d, e)
            });
            match r {
                Ok(s) => env::observe(&s),
                Err(p) => fail!("panic", "{} when expanding {}", p, name),
            }
            Ok(())
        }
        how => {
            let what = draw(3);
            env::case(&format!("parse {} {} {}", stack, how, what));
            // Configurations are drawn here: the other thread only works
            let p = SendParser(parser(sections));
            let r = on_small_stack(stack, || {
                let p = p;
                let p = p.get();
                match what {
                    0 => match p.parse(&text) {
                        Ok(f) => (Some(f.into_owned()), String::new()),
                        Err(e) => (None, e.to_string()),
                    },
                    1 => match p.parse_with_detailed_errors::<ContextualizedError<&str>>(&text) {
                        Ok(f) => (Some(f.into_owned()), String::new()),
                        Err(e) => {
                            let mut s = String::new();
                            let text: &str = &text;
                            let _ = e.describe_to(&text, &mut s);
                            let _ = write!(s, "{}", e.context.len());
                            (None, s)
                        }
                    },
                    _ => match p.parse_with_detailed_errors::<nom::error::Error<&str>>(&text) {
                        Ok(f) => (Some(f.into_owned()), String::new()),
                        Err(_) => (None, String::new()),
                    },
                }
            });
            match r {
                Ok((Some(f), _)) => {
                    env::probe("accepted");
                    env::observe(&format!("{}", f.len()));
                    if text.len() < 300_000 || one_in(3) {
                        after(&name, f, stack)
                    } else {
                        Ok(())
                    }
                }
                Ok((None, e)) => {
                    env::probe("rejected");
                    env::observe(&e);
                    Ok(())
                }
                Err(p) => fail!("panic", "{} when parsing {}", p, name),
            }
        }
    }
}

/// The parser is handed over once, before the operation starts.
struct SendParser(Parser);
unsafe impl Send for SendParser {}
impl SendParser {
    fn get(self) -> Parser {
        self.0
    }
}

/// Edits in great number: whether each is an insertion, and where.
fn many_edits(n: usize) -> Vec<(bool, usize)> {
    let m = if one_in(2) { n.max(10) } else { range(1000, 60_000) };
    let at = draw(n + 2);
    let how = draw(9);
    env::case(&format!("edits {} {} {}", how, m, at));
    match how {
        0 => (0..n).flat_map(|i| [(i % 3 == 0, (false, i)), (i % 2 == 0, (true, n - i))]).filter(|e| e.0).map(|e| e.1).collect(),
        // Behind the end
        1 => (0..m).map(|_| (true, n)).collect(),
        2 => (0..m).map(|i| (true, n + i)).collect(),
        3 => (0..m).map(|i| (true, n + m - i)).collect(),
        // At one place
        4 => (0..m).map(|_| (true, at)).collect(),
        5 => (0..m).map(|i| (i % 2 == 0, at)).collect(),
        // Everything goes
        6 => (0..m).map(|i| (false, i)).collect(),
        7 => (0..m).map(|i| (false, n.saturating_sub(i))).collect(),
        _ => {
            let step = range(1, 1000);
            (0..m).map(|i| ((i * step) % 3 > 0, (i * step) % (n + 2))).collect()
        }
    }
}

/// What is done with events.
fn after(name: &str, f: SgmlFragment<'static>, stack: usize) -> R {
    let how = draw(21);
    env::case(&format!("{} {} {}", name, how, stack));
    env::sample(|| format!("{}: operation {} on a stack of {} KiB", name, how, stack >> 10));
    fault("small-stack");
    let n = f.len();
    let edits = if how == 2 { many_edits(n) } else { vec![] };
    let r = on_small_stack(stack, move || match how {
        0 => format!("{}", f.to_string().len()),
        1 => match normalize_end_tags(f) {
            Ok(g) => format!("{}", g.len()),
            Err(e) => e.to_string(),
        },
        2 => {
            let mut t = Transform::new();
            for (insert, at) in edits {
                if insert {
                    t.insert_at(at, SgmlEvent::Character("i".into()));
                } else {
                    t.remove_at(at);
                }
            }
            let u = t.clone();
            format!("{}{}", t.apply(f).len(), u.is_empty())
        }
        3 => format!("{:?}", sgmlish::from_fragment::<IgnoredAny>(f).map_err(|e| e.to_string()).is_ok()),
        4 => format!("{:?}", sgmlish::from_fragment::<First>(f).map(|x| x.0).map_err(|e| e.to_string())),
        5 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, IgnoredAny>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        6 => format!("{:?}", sgmlish::from_fragment::<String>(f).map(|s| s.len()).map_err(|e| e.to_string())),
        7 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, Vec<u32>>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        8 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, Some3>>(f).map(|m| m.values().map(|v| v.0).sum::<usize>()).map_err(|e| e.to_string())),
        9 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, First>>(f).map(|m| m.values().map(|v| v.0).sum::<usize>()).map_err(|e| e.to_string())),
        10 => format!("{:?}", sgmlish::from_fragment::<Option<()>>(f).is_ok()),
        11 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, Vec<String>>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        12 => format!("{:?}", sgmlish::from_fragment::<Choices>(f).map(|c| c.items.len()).map_err(|e| e.to_string())),
        13 => format!("{:?}", sgmlish::from_fragment::<Flat>(f).map(|c| (c.a.len(), c.b.is_some())).map_err(|e| e.to_string())),
        14 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, Wrapped>>(f).map(|m| m.values().map(|w| w.0.len()).sum::<usize>()).map_err(|e| e.to_string())),
        15 => format!("{:?}", sgmlish::from_fragment::<Choice>(f).map(|_| ()).map_err(|e| e.to_string())),
        18 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, Choice>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        19 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, Vec<Choice>>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        20 => format!("{:?}", sgmlish::from_fragment::<HashMap<String, HashMap<String, Option<bool>>>>(f).map(|m| m.len()).map_err(|e| e.to_string())),
        16 => {
            let v: Vec<SgmlEvent> = f.into_owned().into_vec();
            let g = SgmlFragment::from(v);
            format!("{}{}", g.iter().count(), g.as_slice().len())
        }
        _ => {
            let g = f.clone();
            format!("{}{}", g == f, format!("{:?}", f).len())
        }
    });
    match r {
        Ok(s) => {
            env::observe(&s);
            Ok(())
        }
        Err(p) => fail!("panic", "{} in operation {} on {}", p, how, name),
    }
}

/// The documents of the known findings: the process dies if they still exhaust the stack.
pub fn probe_known(name: &str) -> bool {
    let n = 20_000;
    let text = match name {
        "nested-included-sections" => format!("<a>{}{}", "<![INCLUDE[<b>".repeat(n), "]]>".repeat(n)),
        "nested-kept-sections" => format!("<a>{}{}", "<![INCLUDE[<b>".repeat(n), "]]>".repeat(n)),
        "nested-declaration-subsets" => format!("<!x {}{}><a>", "[".repeat(n), "]".repeat(n)),
        "nested-declarations" => format!("<!x {}{}><a>", "[<!y ".repeat(n), ">]".repeat(n)),
        _ => return false,
    };
    let keep = name == "nested-kept-sections";
    let r = std::thread::Builder::new()
        .stack_size(256 * KIB)
        .spawn(move || {
            let b = Parser::builder();
            let b = if keep { b.marked_section_handling(MarkedSectionHandling::KeepUnmodified) } else { b.expand_marked_sections() };
            let _ = b.build().parse(&text).is_ok();
        })
        .expect("spawn")
        .join();
    r.is_ok()
}
