//! Storage and transfer faults on documents and event streams.

use sgmlish::SgmlEvent;

use crate::doc::Ev;
use crate::env::{self, draw, fault, one_in, pick, range};
use crate::vocab;

fn block(n: usize) -> (usize, usize) {
    let a = draw(n + 1);
    let len = match draw(4) {
        0 | 1 => range(1, 4),
        2 => range(1, 16),
        _ => range(1, 200),
    };
    (a, (a + len).min(n))
}

/// Applies one fault to the stored bytes.
fn hit(b: &mut Vec<u8>, other: &[u8]) {
    let n = b.len();
    match draw(10) {
        0 => {
            if n > 0 {
                fault("bit-flip");
                let i = draw(n);
                b[i] ^= 1 << draw(8);
            }
        }
        1 => {
            fault("lost-block");
            let (a, e) = block(n);
            b.drain(a..e);
        }
        2 => {
            fault("duplicated-block");
            let (a, e) = block(n);
            let copy = b[a..e].to_vec();
            let at = if one_in(2) { e } else { draw(n + 1) };
            b.splice(at..at, copy);
        }
        3 => {
            fault("swapped-blocks");
            let (a, e) = block(n);
            let chunk: Vec<u8> = b.drain(a..e).collect();
            let at = draw(b.len() + 1);
            b.splice(at..at, chunk);
        }
        4 => {
            fault("spliced-block");
            let (a, e) = block(other.len());
            let copy = other[a..e].to_vec();
            let at = draw(n + 1);
            b.splice(at..at, copy);
        }
        5 => {
            fault("zeroed-block");
            let (a, e) = block(n);
            let c = pick(&[0u8, b' ', b'\n', 0xff]);
            for x in &mut b[a..e] {
                *x = c;
            }
        }
        6 => {
            if n > 0 {
                fault("overwritten-byte");
                let i = draw(n);
                b[i] = pick(b"<>&;\"'/!-[]?=#% \nax0");
            }
        }
        7 => {
            fault("lost-tail");
            b.truncate(draw(n + 1));
        }
        _ => {
            fault("stray-delimiter");
            let at = draw(n + 1);
            if vocab::wild_word(12) {
                b.splice(at..at, vocab::word().bytes());
                return;
            }
            let s = pick(&[
                "<", ">", "&", "\"", "'", "<!", "<![", "]]>", "--", "<!--", "-->", "</", "/>", "<?", "&#", "&#x", "<>", "</>", "[", "]", "=", "é", "<!>",
                "<![CDATA[", "<![INCLUDE[", "<![IGNORE[", "<![ RCDATA [", "<a ", "&x;", "%x;", " ", "\n", "<!DOCTYPE ", "<a b=", "\u{0}",
            ]);
            b.splice(at..at, s.bytes());
        }
    }
}

/// What is read back after `hits` faults.
pub fn damage(text: &str, other: &str, hits: usize) -> String {
    let mut b = text.as_bytes().to_vec();
    for _ in 0..hits {
        hit(&mut b, other.as_bytes());
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
    }
}

/// Loses, duplicates, swaps or makes up events of a stream.
pub fn scramble(events: &mut Vec<Ev>, hits: usize) {
    for _ in 0..hits {
        let n = events.len();
        match draw(6) {
            0 | 1 if n > 0 => {
                env::fault("lost-event");
                events.remove(draw(n));
            }
            2 if n > 0 => {
                env::fault("duplicated-event");
                let e = events[draw(n)].clone();
                let at = draw(n + 1);
                events.insert(at, e);
            }
            3 if n > 1 => {
                env::fault("swapped-events");
                let (a, b) = (draw(n), draw(n));
                events.swap(a, b);
            }
            4 if n > 0 => {
                env::fault("lost-event-tail");
                events.truncate(draw(n + 1));
            }
            _ => {
                env::fault("stray-event");
                let at = draw(n + 1);
                let e = stray();
                events.insert(at, e);
            }
        }
    }
}

pub fn stray() -> Ev {
    if vocab::wild_word(12) {
        let w = if vocab::wild_number(8) { vocab::filler(3000) } else { vocab::word() };
        let x = vocab::word();
        return match draw(9) {
            0 | 1 => SgmlEvent::EndTag { name: w.into() },
            2 => SgmlEvent::OpenStartTag { name: w.into() },
            3 => SgmlEvent::Attribute { name: w.into(), value: Some(x.into()) },
            4 => SgmlEvent::Attribute { name: "k".into(), value: Some(w.into()) },
            5 => SgmlEvent::ProcessingInstruction(format!("<?{}>", w).into()),
            6 => SgmlEvent::MarkupDeclaration { keyword: w.into(), body: x.into() },
            7 => SgmlEvent::MarkedSection { status_keywords: w.into(), section: x.into() },
            _ => SgmlEvent::Character(w.into()),
        };
    }
    match draw(9) {
        0 => SgmlEvent::CloseStartTag,
        1 => SgmlEvent::EndTag { name: pick(&["a", "b", "item", ""]).into() },
        2 => SgmlEvent::OpenStartTag { name: pick(&["a", "b", "item", ""]).into() },
        3 => SgmlEvent::XmlCloseEmptyElement,
        4 => SgmlEvent::Character(pick(&["", " ", "text", "\n", "1"]).into()),
        5 => SgmlEvent::Attribute {
            name: "k".into(),
            value: if one_in(2) { None } else { Some("v".into()) },
        },
        6 => SgmlEvent::ProcessingInstruction("<?x>".into()),
        7 => SgmlEvent::MarkupDeclaration {
            keyword: "DOCTYPE".into(),
            body: "x".into(),
        },
        _ => SgmlEvent::MarkedSection {
            status_keywords: "CDATA".into(),
            section: "z".into(),
        },
    }
}
