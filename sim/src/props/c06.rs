//! C06: a failing output sink is reported; what it took is an exact prefix.

use std::fmt::{self, Write as _};
use std::io::{self, Write as _};

use sgmlish::parser::ContextualizedError;
use sgmlish::transforms::normalize_end_tags;
use sgmlish::SgmlFragment;

use crate::damage::{damage, scramble};
use crate::doc::*;
use crate::env::{self, draw, fault, one_in, pick, range, short, R};
use crate::ops::Workload;
use crate::plan::{consume, gen_plan, gen_tree, Consumer, Failure, TreeKnobs};
use crate::props::Property;
use crate::world::{callout, guarded, Kind};
use crate::{ensure, fail, tr};

pub const PROPERTY: Property = Property {
    id: "C06",
    run,
    quick: 1_000_000,
    thorough: 12_000_000,
    level: "fault_enumeration",
    rule: "a case is something that renders (fragment, event, escaped text, error description, error message) and the sink write at which the sink fails (fully, after taking part of the write, or for one write only; as a formatter sink or as storage with short and interrupted writes), every write in turn for short renderings in one run of four; non-trivial if the failing write was reached; distinct by object and failure",
    real: "all Display code of sgmlish, describe_to, Escape; std's formatting machinery",
    stub: "the sink",
};

/// How a sink fails.
#[derive(Clone, Copy, Debug)]
struct Fail {
    at: u64,
    /// Bytes of the failing write that are still taken.
    torn: usize,
    /// Works again afterwards.
    transient: bool,
}

struct FailingSink {
    got: String,
    writes: u64,
    fail: Option<Fail>,
    failed: bool,
    after: Vec<String>,
}

impl FailingSink {
    fn new(fail: Option<Fail>) -> Self {
        FailingSink {
            got: String::new(),
            writes: 0,
            fail,
            failed: false,
            after: vec![],
        }
    }
}

impl fmt::Write for FailingSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        tr!("sink write {}: {:?}", self.writes, s);
        callout(Kind::Sink);
        let n = self.writes;
        self.writes += 1;
        if self.failed {
            self.after.push(s.to_string());
            if let Some(Fail { transient: true, .. }) = self.fail {
                self.got.push_str(s);
                return Ok(());
            }
            return Err(fmt::Error);
        }
        match self.fail {
            Some(f) if f.at == n => {
                self.failed = true;
                let mut t = f.torn.min(s.len());
                while !s.is_char_boundary(t) {
                    t -= 1;
                }
                self.got.push_str(&s[..t]);
                fault(if t > 0 { "sink-torn-write" } else { "sink-error" });
                Err(fmt::Error)
            }
            _ => {
                self.got.push_str(s);
                Ok(())
            }
        }
    }
}

/// Storage of limited room, with short and interrupted writes on the way.
struct Disk {
    got: Vec<u8>,
    room: usize,
    failed: bool,
    after: usize,
    hiccups: bool,
}

impl io::Write for Disk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tr!("disk write: {} bytes", b.len());
        callout(Kind::Sink);
        if self.failed {
            self.after += 1;
            return Err(io::ErrorKind::StorageFull.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.hiccups && one_in(6) {
            fault("disk-interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.room);
        if n > 1 && self.hiccups && one_in(3) {
            fault("disk-short-write");
            n = range(1, n - 1);
        }
        if n == 0 {
            self.failed = true;
            fault("disk-full");
            return if one_in(2) { Ok(0) } else { Err(io::ErrorKind::StorageFull.into()) };
        }
        self.room -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Rendered<'a>(&'a dyn Fn(&mut fmt::Formatter) -> fmt::Result);

impl fmt::Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        (self.0)(f)
    }
}

/// Something that renders: to a sink of its own choice where the library takes any sink.
struct Object<'a> {
    name: &'static str,
    show: String,
    write: Box<dyn Fn(&mut FailingSink) -> fmt::Result + 'a>,
    display: Box<dyn Fn(&mut fmt::Formatter) -> fmt::Result + 'a>,
    /// A description of the object, to see that it does not change.
    state: Box<dyn Fn() -> String + 'a>,
}

fn displayable<'a, T: fmt::Display + 'a>(name: &'static str, show: String, x: &'a T, state: impl Fn() -> String + 'a) -> Object<'a> {
    Object {
        name,
        show,
        write: Box::new(move |s| write!(s, "{}", x)),
        display: Box::new(move |f| x.fmt(f)),
        state: Box::new(state),
    }
}

/// The same with other formatting flags, whatever they come to.
fn flagged<'a, T: fmt::Display + 'a>(mut o: Object<'a>, x: &'a T) -> Object<'a> {
    if !one_in(8) {
        return o;
    }
    fault("formatting-flags");
    let how = draw(5);
    macro_rules! with {
        ($fmt:literal) => {{
            o.write = Box::new(move |s| write!(s, $fmt, x));
            o.display = Box::new(move |f| write!(f, $fmt, x));
        }};
    }
    match how {
        0 => with!("{:#}"),
        1 => with!("{:>30}"),
        2 => with!("{:.5}"),
        3 => with!("{:*^12.3}"),
        _ => with!("{:+08}"),
    }
    o
}

fn run() -> R {
    let w = Workload::gen();
    match draw(8) {
        0..=2 => {
            let f = pick(&w.frags);
            let f: SgmlFragment = if one_in(3) {
                let mut v: Vec<_> = f.iter().cloned().collect();
                scramble(&mut v, 2);
                v.into()
            } else {
                (*f).clone()
            };
            let copy = f.clone();
            let o = flagged(displayable("fragment", format!("{:?}", f), &f, || format!("{:?}", f)), &f);
            check(&o)?;
            ensure!(f == copy, "object-changed", "the fragment changed: {}", short(&format!("{:?} -> {:?}", copy, f)));
            Ok(())
        }
        3 => {
            let f = pick(&w.frags);
            let e = if f.len() == 0 || one_in(4) { crate::damage::stray() } else { f.as_slice()[draw(f.len())].clone() };
            let o = flagged(displayable("event", format!("{:?}", e), &e, || format!("{:?}", e)), &e);
            check(&o)
        }
        4 => {
            let text = w.plain_text();
            let mut e = sgmlish::text::escape(&text);
            e.set_escape_ampersand(!one_in(2));
            for _ in 0..draw(12) {
                e.next();
            }
            let left: String = e.clone().collect();
            let o = flagged(displayable("escaped-text", format!("{:?}", e), &e, || e.clone().collect::<String>()), &e);
            check(&o)?;
            drop(o);
            ensure!(e.collect::<String>() == left, "object-changed", "the escaped text was consumed by rendering it: {:?}", text);
            Ok(())
        }
        5 | 6 => {
            let doc = pick(&w.docs);
            let hits = range(1, 3);
            let text = if one_in(12) { String::new() } else { damage(&doc.text, &doc.text, hits) };
            let answers: Vec<Option<String>> = doc.calls.iter().map(|c| if one_in(5) { None } else { Some(c.answer.clone()) }).collect();
            let r = SimResolver::new(answers);
            let p = parser_with(&doc.cfg, &r);
            let text: &str = &text;
            let err = match guarded(|| p.parse_with_detailed_errors::<ContextualizedError<&str>>(text)) {
                Err(panic) => fail!("panic", "{} when parsing {:?}", panic, short(text)),
                Ok(Ok(f)) => {
                    let o = displayable("fragment", format!("{:?}", f), &f, || format!("{:?}", f));
                    return check(&o);
                }
                Ok(Err(e)) => e,
            };
            let o = Object {
                name: "error-description",
                show: format!("{:?}", err),
                write: Box::new(|s| err.describe_to(&text, s)),
                display: Box::new(|f| err.describe_to(&text, f)),
                state: Box::new(|| format!("{:?}", err)),
            };
            check(&o)
        }
        _ => error_message(&w),
    }
}

fn error_message(w: &Workload) -> R {
    let err: Option<sgmlish::Error> = match draw(4) {
        0 => {
            let doc = pick(&w.docs);
            let text = damage(&doc.text, "<", 3);
            let r = SimResolver::new(vec![None]);
            match guarded(|| parser_with(&doc.cfg, &r).parse(&text).err()) {
                Ok(e) => e,
                Err(p) => fail!("panic", "{} when parsing {:?}", p, short(&text)),
            }
        }
        1 => {
            let doc = pick(&w.docs);
            sgmlish::entities::expand_entities(&doc.text, |_| None::<String>).err().map(|e| e.into())
        }
        2 => {
            let f = pick(&w.frags);
            let mut v: Vec<_> = f.iter().cloned().collect();
            scramble(&mut v, 3);
            normalize_end_tags(v.into()).err().map(|e| e.into())
        }
        _ => {
            let mut k = TreeKnobs::gen();
            k.depth = k.depth.min(2);
            let tree = gen_tree(&k);
            let planned = gen_plan(&tree, true);
            let mut v = tree.events();
            scramble(&mut v, 2);
            let c = Consumer::failing(Some(draw(20) as u64), Failure::Custom("no <room> & \"time\"".into()));
            match guarded(|| consume(v.into(), &planned.plan, &c, false)) {
                Ok(r) => r.err().map(|e| e.into()),
                Err(p) => fail!("panic", "{} when deserializing", p),
            }
        }
    };
    match err {
        None => Ok(()),
        Some(e) => {
            let o = flagged(displayable("error-message", format!("{:?}", e), &e, || format!("{:?}", e)), &e);
            check(&o)
        }
    }
}

fn check(o: &Object) -> R {
    env::probe(o.name);
    env::case(&o.show);
    let mut whole = FailingSink::new(None);
    let r = match guarded(|| (o.write)(&mut whole)) {
        Ok(r) => r,
        Err(p) => fail!("panic", "{} when rendering {} {}", p, o.name, short(&o.show)),
    };
    ensure!(r.is_ok(), "spurious-error", "rendering {} {} to a working sink fails", o.name, short(&o.show));
    let full = whole.got;
    let writes = whole.writes;
    env::observe(&full);
    let plain = Rendered(&*o.display).to_string();
    ensure!(plain == full, "sink-dependent", "{} {} renders as {:?} to one sink and {:?} to another", o.name, short(&o.show), short(&full), short(&plain));
    let state = (o.state)();
    env::sample(|| format!("{} rendering to {:?} in {} writes", o.name, short(&full), writes));
    let every = writes <= 60 && one_in(4);
    let rounds = if every { writes as usize + 1 } else { range(1, 3) };
    for k in 0..rounds {
        if !every && one_in(4) {
            disk(o, &full)?;
        } else {
            // One past the last write: must not fail
            let at = if every { k as u64 } else { draw((writes as usize + 1).min(1 << 20)) as u64 };
            let f = Fail {
                at,
                torn: if one_in(2) { range(1, 6) } else { 0 },
                transient: one_in(2),
            };
            sink(o, &full, writes, f)?;
        }
        let again = {
            let mut s = FailingSink::new(None);
            let r = (o.write)(&mut s);
            ensure!(r.is_ok(), "spurious-error", "rendering {} {} again to a working sink fails", o.name, short(&o.show));
            s.got
        };
        ensure!(again == full, "retry-differs", "{} {} renders as {:?} after a failure, {:?} before", o.name, short(&o.show), short(&again), short(&full));
        let now = (o.state)();
        ensure!(now == state, "object-changed", "{} changed by a failed rendering: {} -> {}", o.name, short(&state), short(&now));
    }
    Ok(())
}

fn sink(o: &Object, full: &str, writes: u64, f: Fail) -> R {
    let mut s = FailingSink::new(Some(f));
    env::case(&format!("{:?}", f));
    let r = match guarded(|| (o.write)(&mut s)) {
        Ok(r) => r,
        Err(p) => fail!("panic", "{} when rendering {} {} to a sink failing with {:?}", p, o.name, short(&o.show), f),
    };
    env::observe(&s.got);
    let _ = writes;
    if s.failed {
        env::nontrivial();
        ensure!(r.is_err(), "error-swallowed", "the sink failed with {:?} but rendering {} {} reports success", f, o.name, short(&o.show));
        ensure!(s.after.is_empty(), "write-after-error", "the sink failed with {:?}, then rendering {} {} still wrote {:?}", f, o.name, short(&o.show), s.after);
        ensure!(full.starts_with(&s.got), "not-a-prefix", "the failed sink ({:?}) holds {:?}, not a prefix of {:?}", f, short(&s.got), short(full));
    } else {
        ensure!(r.is_ok() && s.got == full, "spurious-error", "{} {} fails on a working sink", o.name, short(&o.show));
    }
    Ok(())
}

fn disk(o: &Object, full: &str) -> R {
    let mut d = Disk {
        got: vec![],
        room: draw(full.len() + 2),
        failed: false,
        after: 0,
        hiccups: one_in(2),
    };
    let room = d.room;
    env::case(&format!("disk {}", room));
    let r = match guarded(|| write!(d, "{}", Rendered(&*o.display))) {
        Ok(r) => r,
        Err(p) => fail!("panic", "{} when rendering {} {} to a disk", p, o.name, short(&o.show)),
    };
    env::observe(&format!("{:?}", d.got));
    if room < full.len() {
        env::nontrivial();
        ensure!(d.failed && r.is_err(), "error-swallowed", "storage had room for {} of {} bytes but rendering {} {} reports success", room, full.len(), o.name, short(&o.show));
        ensure!(d.after == 0, "write-after-error", "rendering {} {} wrote on after storage was full", o.name, short(&o.show));
        ensure!(d.got == full.as_bytes()[..room], "not-a-prefix", "full storage holds {:?}, not a prefix of {:?}", short(&String::from_utf8_lossy(&d.got)), short(full));
    } else {
        ensure!(r.is_ok() && d.got == full.as_bytes(), "spurious-error", "rendering {} {} to storage with room for {} bytes fails or differs", o.name, short(&o.show), room);
    }
    Ok(())
}
