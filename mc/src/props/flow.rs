//! C23 reading and writing are incremental, C24 memory is bounded by what is
//! open, not by the length of the stream.
use super::calls::Shared;
use super::emit::utf16;
use super::events::{self, sc};
use super::spaces;
use crate::alloc;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::{c, rs};
use libyaml_safer as l;
use std::cell::Cell;
use std::io::{self, BufRead, Read};
use std::rc::Rc;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Incremental), Box::new(Memory)]
}

// ------------------------------------------------------------------ C23

/// One character at a time; records how much has been asked for. Asking at
/// the end counts as one more.
struct Metered<'a> {
    feed: Feed<'a>,
    asked: Rc<Cell<usize>>,
}
impl Metered<'_> {
    fn note(&self, n: usize) {
        self.asked.set(self.asked.get().max(n));
    }
}
impl Read for Metered<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut c = self.fill_buf()?;
        let n = c.read(b)?;
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Metered<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = self.feed.chunk().len();
        self.note(self.feed.pos + n.max(1));
        Ok(self.feed.chunk())
    }
    fn consume(&mut self, n: usize) {
        self.feed.consume(n)
    }
}

struct Incremental;
impl Incremental {
    /// What has been asked for when each item is delivered.
    fn theirs(inp: &[u8], what: u8) -> (Vec<usize>, bool, bool) {
        let mut f = Feed::new(inp, Cut::Char);
        let fp: *mut Feed = &mut f;
        let asked = || unsafe { (*fp).pos + (*fp).saw_eof as usize };
        let mut v = vec![];
        let limit = 64 + 8 * inp.len();
        let err = unsafe {
            let mut p = c::Cp::new(fp as *mut _, 0);
            loop {
                let r = match what {
                    0 => p.scan().map(|t| t.v == Tok::StreamEnd),
                    1 => p.parse().map(|e| e.is_none_or(|e| e.v == Ev::StreamEnd)),
                    _ => p.load().map(|d| d.nodes.is_empty()),
                };
                match r {
                    Ok(done) => {
                        v.push(asked());
                        if done || v.len() > limit {
                            break false;
                        }
                    }
                    Err(_) => {
                        v.push(asked());
                        break true;
                    }
                }
            }
        };
        (v, err, f.saw_eof)
    }
    fn ours(inp: &[u8], what: u8) -> Result<(Vec<usize>, bool), String> {
        let asked = Rc::new(Cell::new(0));
        let m = Metered { feed: Feed::new(inp, Cut::Char), asked: asked.clone() };
        let mut v = vec![];
        let limit = 64 + 8 * inp.len();
        let err = rs::guarded(|| {
            let mut next: Box<dyn FnMut() -> Result<bool, l::Error>> = match what {
                0 => {
                    let mut p = l::Scanner::new();
                    p.set_input(m);
                    Box::new(move || l::Scanner::scan(&mut p).map(|t| matches!(t.data, l::TokenData::StreamEnd)))
                }
                1 => {
                    let mut p = l::Parser::new();
                    p.set_input(m);
                    Box::new(move || p.parse().map(|e| matches!(e.data, l::EventData::StreamEnd)))
                }
                _ => {
                    let mut p = l::Parser::new();
                    p.set_input(m);
                    Box::new(move || l::Document::load(&mut p).map(|d| d.nodes.is_empty()))
                }
            };
            if asked.get() != 0 {
                return Err("set_input() reads".to_string());
            }
            loop {
                let r = next();
                v.push(asked.get());
                match r {
                    Ok(done) => {
                        if done || v.len() > limit {
                            return Ok(false);
                        }
                    }
                    Err(_) => return Ok(true),
                }
            }
        })
        .map_err(|p| format!("panics: {p}"))??;
        Ok((v, err))
    }
    fn read(&self, inp: &[u8], ctx: &mut Ctx) -> V {
        let mut prune = true;
        for (what, name) in [(0u8, "token"), (1, "event"), (2, "document")] {
            let (m, merr, meof) = Self::theirs(inp, what);
            let (i, ierr) = match Self::ours(inp, what) {
                Ok(x) => x,
                Err(e) => return V::Bad(format!("{name}s: {e}")),
            };
            ctx.trans += i.len() as u64;
            for (k, (a, b)) in i.iter().zip(&m).enumerate() {
                if a > b {
                    return V::Bad(format!("{name} {k} is delivered after asking for {a} bytes of {}, libyaml needs {b}", inp.len()));
                }
                if a < b {
                    ctx.count("delivered earlier than libyaml", 1);
                }
            }
            ctx.outcome(&(what, &i));
            prune &= merr && ierr && !meof && i.last().is_none_or(|x| *x <= inp.len());
        }
        ctx.states.insert(hash(inp));
        if prune {
            V::Prune
        } else {
            V::Ok
        }
    }
    /// flush() after every event: the output so far is libyaml's.
    fn write(&self, cfg: &Cfg, evs: &[Ev], ctx: &mut Ctx) -> V {
        if events::has_nul(evs) {
            return V::Skip;
        }
        // libyaml writes wrong UTF-16 surrogates.
        let astral = |s: &[u8]| s.iter().any(|b| *b >= 0xf0);
        if utf16(cfg, evs).is_some() && evs.iter().any(|e| matches!(e, Ev::Scalar { value, .. } if astral(value))) {
            return V::Skip;
        }
        let mut m = c::Ce::new(cfg);
        let out = Rc::new(std::cell::RefCell::new(vec![]));
        let mut sink = Shared(out.clone());
        let r = rs::guarded(|| -> Result<(), String> {
            let mut e = l::Emitter::new();
            e.set_output(&mut sink);
            rs::configure(&mut e, cfg);
            for (k, x) in evs.iter().enumerate() {
                let (a, b) = (e.emit(rs::to_event(x)), m.emit(x));
                if a.is_err() || b.is_err() {
                    return Ok(());
                }
                if matches!(x, Ev::DocEnd { .. } | Ev::StreamEnd) && *out.borrow() != m.sink.out {
                    let o = out.borrow();
                    return Err(format!("after event {k} {x:?} the output is {}, libyaml's {}", show(&o), show(&m.sink.out)));
                }
                e.flush().map_err(|e| format!("flush after event {k}: {e}"))?;
                m.flush().map_err(|e| format!("libyaml's flush after event {k}: {e:?}"))?;
                let o = out.borrow();
                if *o != m.sink.out {
                    return Err(format!("after event {k} {x:?} and a flush the output is {}, libyaml's {}", show(&o), show(&m.sink.out)));
                }
                ctx.trans += 1;
                ctx.states.insert(m.state());
                ctx.outcome(&hash(&o[..]));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => V::Ok,
            Ok(Err(e)) => V::Bad(e),
            Err(p) => V::Bad(format!("panics: {p}")),
        }
    }
}
impl Prop for Incremental {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "every text is given one character at a time to the implementation and to libyaml, and at each token, event and document the input asked for so far is compared; every event stream is flushed after every event and the output so far compared with libyaml's, at the end of a document also before the flush; a state is a text or a control state of the reference emitter"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 1);
        v.push(spaces::long_lite("long", thorough));
        v.extend(events::structure(thorough, &[0, 1, 9], 0));
        v.extend(events::documents(false, &[0, 8]));
        v.extend(events::attributes(&[0]));
        v.extend(events::folding(thorough, 0));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if let Some(inp) = spaces::input(kind, case) {
            return self.read(&inp, ctx);
        }
        if events::duplicate(kind, case) {
            return V::Dup;
        }
        let Some((cfg, evs)) = events::decode(kind, case) else { return V::Skip };
        self.write(&cfg, &evs, ctx)
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        match spaces::input(kind, case) {
            Some(i) => show(&i),
            None => events::render(kind, case),
        }
    }
}

// ------------------------------------------------------------------ C24

/// What is open at most: the nesting depth, the longest item.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Open {
    depth: usize,
    longest: usize,
    items: usize,
}
struct Depth {
    now: usize,
    open: Open,
}
impl Depth {
    fn new() -> Depth {
        Depth { now: 0, open: Open::default() }
    }
    fn note(&mut self, by: isize, len: usize) {
        self.now = self.now.saturating_add_signed(by);
        self.open.depth = self.open.depth.max(self.now);
        self.open.longest = self.open.longest.max(len);
        self.open.items += 1;
    }
    fn event(&mut self, e: &l::EventData) {
        let n = |o: &Option<String>| o.as_ref().map_or(0, |s| s.len());
        let (by, len) = match e {
            l::EventData::Scalar { anchor, tag, value, .. } => (0, n(anchor) + n(tag) + value.len()),
            l::EventData::SequenceStart { anchor, tag, .. } | l::EventData::MappingStart { anchor, tag, .. } => (1, n(anchor) + n(tag)),
            l::EventData::SequenceEnd | l::EventData::MappingEnd => (-1, 0),
            l::EventData::Alias { anchor } => (0, anchor.len()),
            _ => (0, 0),
        };
        self.note(by, len);
    }
    fn token(&mut self, t: &l::TokenData) {
        use l::TokenData::*;
        let (by, len) = match t {
            BlockSequenceStart | BlockMappingStart | FlowSequenceStart | FlowMappingStart => (1, 0),
            BlockEnd | FlowSequenceEnd | FlowMappingEnd => (-1, 0),
            Scalar { value, .. } | Alias { value } | Anchor { value } => (0, value.len()),
            Tag { handle, suffix } => (0, handle.len() + suffix.len()),
            _ => (0, 0),
        };
        self.note(by, len);
    }
}

struct Memory;
pub const UNIT: &[&str] = &["a", " ", "\n", ":", ": ", "- ", "? ", "[", "]", "{", "}", ",", "'x'", "\"y\"", "&n ", "*n", "!t ", "|\n", "#c\n", "---\n", "...\n", "%TAG !e! e:\n"];
/// Before the units, before and after each unit, after the units.
pub const AROUND: [[&str; 4]; 9] = [
    ["", "", "\n", ""],
    ["", "--- ", "\n", ""],
    ["", "", "\n...\n", ""],
    ["", "- ", "\n", ""],
    ["", "k: ", "\n", ""],
    ["k:\n", "- ", "\n", ""],
    ["", "? ", "\n", ""],
    ["[", "", ",\n", "]"],
    ["{", "", ",\n", "}"],
];
/// One of everything, repeated alone and in pairs.
pub const THINGS: &[&str] = &[
    "%YAML 1.1\n---\n", "%TAG !e! tag:e,1:\n--- !e!a", "--- |\n", "\u{e9}", "\u{1f389}: a", "a\r\nb", "a\n\n  b\n", "|2-\n   a\n\n    b", ">+\n  a\n  b\n\n", ">\n a\n  b\n c", "\"\\x41\\u00e9\\\n  b\"", "'it''s\n\n  so'",
    "!<tag:x,1:y> z", "!!str a", "! a", "&a !t b", "*a", "&a a", "- - - a", "- a: b\n  c: d", "? - a\n: - b", "? a", "a: b", "a:\n  b:\n    c: d", "[a, [b, {c: d}], e: f]", "{a: [b], ? c : d, e}", "[]", "{}: {}", "# c",
    "\t", "\"a\": b", "[a]: b", "'a': 'b'", "&a : b", "!!null : a", "- ", "-", ":", "[a\n,\nb]", "[[[[[[[[a]]]]]]]]", "{a: {b: {c: {d: e}}}}", "abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz", "...\n", "\u{feff}", "\n\n\n",
];
/// How often a unit is repeated.
const TIMES: [(usize, usize); 3] = [(192, 1024), (4096, 16384), (4096, 120_000)];
/// Less than one byte for each unit more.
const SLACK: isize = 512;
impl Memory {
    fn text(case: &[u8], n: usize) -> Vec<u8> {
        let [pre, before, after, post] = AROUND[case[0] as usize];
        let unit = &case[2..];
        let mut v = pre.as_bytes().to_vec();
        for _ in 0..n {
            v.extend_from_slice(before.as_bytes());
            v.extend_from_slice(unit);
            v.extend_from_slice(after.as_bytes());
        }
        v.extend_from_slice(post.as_bytes());
        v
    }
    /// Peak, and what was open; None if the stream is refused.
    fn read(text: &[u8], what: u8) -> Result<Option<(isize, Open)>, String> {
        let limit = 64 + 8 * text.len();
        let (peak, open) = alloc::peak(|| {
            rs::guarded(|| {
                let mut d = Depth::new();
                let feed = Feed::new(text, Cut::Fixed(16));
                match what {
                    0 => {
                        let mut p = l::Scanner::new();
                        p.set_input(feed);
                        loop {
                            let t = l::Scanner::scan(&mut p).ok()?;
                            d.token(&t.data);
                            if matches!(t.data, l::TokenData::StreamEnd) || d.open.items > limit {
                                return Some(d.open);
                            }
                        }
                    }
                    1 => {
                        let mut p = l::Parser::new();
                        p.set_input(feed);
                        loop {
                            let e = p.parse().ok()?;
                            d.event(&e.data);
                            if matches!(e.data, l::EventData::StreamEnd) || d.open.items > limit {
                                return Some(d.open);
                            }
                        }
                    }
                    _ => {
                        let mut p = l::Parser::new();
                        p.set_input(feed);
                        loop {
                            let e = l::Document::load(&mut p).ok()?;
                            d.note(0, e.nodes.len());
                            if e.nodes.is_empty() || d.open.items > limit {
                                return Some(d.open);
                            }
                        }
                    }
                }
            })
        });
        Ok(open?.map(|o| (peak, o)))
    }
    fn grew(what: &str, few: (isize, Open), many: (isize, Open), ctx: &mut Ctx) -> Result<(), String> {
        let same = few.1.depth == many.1.depth && few.1.longest == many.1.longest;
        if !same || many.1.items < few.1.items * 2 {
            return Ok(());
        }
        ctx.trans += (few.1.items + many.1.items) as u64;
        ctx.count("streams compared", 1);
        ctx.outcome(&(what, many.1.items, many.1.depth, many.1.longest));
        if many.0 > few.0 + SLACK {
            return Err(format!(
                "{what}: {} items take {} bytes at most, {} items {} bytes, with the same depth ({}) and longest item ({})",
                few.1.items, few.0, many.1.items, many.0, few.1.depth, few.1.longest
            ));
        }
        Ok(())
    }
    /// `n` times the events, as documents or as items of one collection.
    fn write(evs: &[Ev], cfg: &Cfg, how: u8, n: usize) -> Result<Option<(isize, Open)>, String> {
        let (pre, post): (Vec<Ev>, Vec<Ev>) = match how {
            0 => (vec![], vec![]),
            1 | 2 => (vec![events::ds(), events::seq(how)], vec![Ev::SeqEnd, events::de()]),
            _ => (vec![events::ds(), events::map(how - 2), sc("k", 0)], vec![sc("z", 0), Ev::MapEnd, events::de()]),
        };
        let (peak, open) = alloc::peak(|| {
            rs::guarded(|| {
                let mut d = Depth::new();
                let mut sink = std::io::sink();
                let mut e = l::Emitter::new();
                e.set_output(&mut sink);
                rs::configure(&mut e, cfg);
                let mut put = |x: &Ev| {
                    let x = rs::to_event(x);
                    d.event(&x.data);
                    e.emit(x).ok()
                };
                put(&Ev::StreamStart(0))?;
                for x in &pre {
                    put(x)?;
                }
                for _ in 0..n {
                    for x in evs {
                        put(x)?;
                    }
                }
                for x in &post {
                    put(x)?;
                }
                put(&Ev::StreamEnd)?;
                Some(d.open)
            })
        });
        Ok(open?.map(|o| (peak, o)))
    }
    fn dump(doc: &Doc, cfg: &Cfg, n: usize) -> Result<Option<(isize, Open)>, String> {
        let (peak, open) = alloc::peak(|| {
            rs::guarded(|| {
                let mut d = Depth::new();
                let mut sink = std::io::sink();
                let mut e = l::Emitter::new();
                e.set_output(&mut sink);
                rs::configure(&mut e, cfg);
                for _ in 0..n {
                    rs::build_doc(doc).dump(&mut e).ok()?;
                    d.note(0, 0);
                }
                e.close().ok()?;
                Some(d.open)
            })
        });
        Ok(open?.map(|o| (peak, o)))
    }
    fn all(case: &[u8], ctx: &mut Ctx) -> Result<(), String> {
        let (less, more) = TIMES[case[1] as usize];
        let (few, many) = (Self::text(case, less), Self::text(case, more));
        for (what, name) in [(0, "scanning"), (1, "parsing"), (2, "loading")] {
            if let (Some(a), Some(b)) = (Self::read(&few, what)?, Self::read(&many, what)?) {
                Self::grew(name, a, b, ctx)?;
            }
        }
        if case[0] == 1 {
            Self::written(case, &Cfg::default(), ctx)?;
        }
        ctx.states.insert(hash(case));
        Ok(())
    }
    /// The first of the settings are in UTF-16.
    const WIDE: u64 = 2;
    fn settings() -> Vec<Cfg> {
        vec![
            Cfg { encoding: Some(3), canonical: Some(true), indent: Some(9), width: None, unicode: None, brk: Some(3) },
            Cfg { encoding: Some(2), canonical: None, indent: Some(4), width: Some(-1), unicode: Some(true), brk: Some(1) },
            Cfg { encoding: None, canonical: Some(true), indent: None, width: Some(7), unicode: Some(true), brk: None },
            Cfg { encoding: None, canonical: None, indent: Some(3), width: Some(7), unicode: Some(true), brk: None },
        ]
    }
    fn written(case: &[u8], cfg: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
        let (less, more) = TIMES[case[1] as usize];
        let one = Self::text(case, 1);
        let mut f = Feed::new(&one, Cut::Whole);
        let r = rs::parse_all(&mut f, 0);
        if matches!(r.end, End::Done) && r.items.len() > 3 {
            let evs: Vec<Ev> = r.items.into_iter().map(|e| e.v).collect();
            let evs = &evs[1..evs.len() - 1];
            if let (Some(a), Some(b)) = (Self::write(evs, cfg, 0, less)?, Self::write(evs, cfg, 0, more)?) {
                Self::grew("emitting documents", a, b, ctx)?;
            }
            if evs.iter().filter(|e| matches!(e, Ev::DocEnd { .. })).count() == 1 {
                let evs = &evs[1..evs.len() - 1];
                for how in 1..5 {
                    // A mapping has a key before and a value after each.
                    let mut e = evs.to_vec();
                    if how > 2 {
                        e.push(sc("k", 0));
                    }
                    if let (Some(a), Some(b)) = (Self::write(&e, cfg, how, less)?, Self::write(&e, cfg, how, more)?) {
                        Self::grew("emitting items", a, b, ctx)?;
                    }
                }
            }
        }
        let (docs, _) = rs::load_on(Feed::new(&one, Cut::Whole), 0, one.len());
        if let Some(doc) = docs.first() {
            if let (Some(a), Some(b)) = (Self::dump(doc, cfg, less)?, Self::dump(doc, cfg, more)?) {
                Self::grew("dumping", a, b, ctx)?;
            }
        }
        Ok(())
    }
}
impl Prop for Memory {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "every unit of text is repeated few and many times (192 and 1024, 4096 and 16384 or 120 000) in each context, and the most memory allocated at once while scanning, parsing, loading, emitting and dumping the two streams is compared; a state is a unit in a context"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v: Vec<Scope> = (0..AROUND.len() as u8)
            .map(|c| Scope {
                kind: "m",
                name: format!("units of at most {} of {} atoms, as {:?}", 3 + thorough as usize, UNIT.len(), AROUND[c as usize]),
                gen: Gen::Tree {
                    prefix: vec![c, 0],
                    atoms: UNIT.iter().map(|a| a.as_bytes().to_vec()).collect(),
                    suffixes: vec![vec![]],
                    depth: 3 + thorough as usize,
                    filter: None,
                },
            })
            .collect();
        let (a, n) = (AROUND.len() as u64, THINGS.len() as u64);
        v.push(index("m", format!("each of {n} things in {a} contexts, 4096 and 16384 times"), a * n, move |i| {
            let mut c = vec![(i % a) as u8, 1];
            c.extend_from_slice(THINGS[(i / a) as usize].as_bytes());
            c
        }));
        // A slow leak.
        v.push(index("m", format!("each of {n} things in {a} contexts, 4096 and 120 000 times"), a * n, move |i| {
            let mut c = vec![(i % a) as u8, 2];
            c.extend_from_slice(THINGS[(i / a) as usize].as_bytes());
            c
        }));
        let m = spaces::SNIPPETS.len() as u64;
        v.push(index("m", format!("each of {m} constructs in {a} contexts"), a * m * if thorough { 2 } else { 1 }, move |i| {
            let mut c = vec![(i % a) as u8, (i / a / m) as u8];
            c.extend_from_slice(spaces::SNIPPETS[(i / a % m) as usize].as_bytes());
            c
        }));
        // Written with other settings. UTF-16 needs another buffer, which is
        // as large as it gets after some thousand items.
        let k = Self::settings().len() as u64;
        for (t, what) in [(0, "each pair"), (1, "each one")] {
            let (pairs, first) = if t == 0 { (n, Self::WIDE) } else { (1, 0) };
            v.push(index("ms", format!("{what} of {n} things, written with {} settings, {:?} times", k - first, TIMES[t]), n * pairs * (k - first), move |i| {
                let mut c = vec![(first + i / n / pairs) as u8, 1, t as u8];
                c.extend_from_slice(THINGS[(i % n) as usize].as_bytes());
                if t == 0 {
                    c.push(b'\n');
                    c.extend_from_slice(THINGS[(i / n % n) as usize].as_bytes());
                }
                c
            }));
        }
        v.push(index("ms", format!("each of {m} constructs, written with {k} settings"), m * k, move |i| {
            let set = i / m;
            let mut c = vec![set as u8, 1, (set < Self::WIDE) as u8];
            c.extend_from_slice(spaces::SNIPPETS[(i % m) as usize].as_bytes());
            c
        }));
        for (s, sep) in ["\n", " ", ""].iter().enumerate() {
            if s > 0 && !thorough {
                break;
            }
            v.push(index("m", format!("each pair of {n} things with {sep:?} between in {a} contexts"), a * n * n, move |i| {
                let mut c = vec![(i % a) as u8, 0];
                c.extend_from_slice(THINGS[(i / a % n) as usize].as_bytes());
                c.extend_from_slice(sep.as_bytes());
                c.extend_from_slice(THINGS[(i / a / n) as usize].as_bytes());
                c
            }));
        }
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let mut cfg = None;
        let mut case = case;
        if kind == "ms" {
            cfg = case.first().and_then(|k| Self::settings().into_iter().nth(*k as usize));
            if cfg.is_none() || case.get(1) != Some(&1) {
                return V::Skip;
            }
            ctx.states.insert(hash(case));
            case = &case[1..];
        }
        if case.len() < 2 || case[0] as usize >= AROUND.len() || case[1] as usize >= TIMES.len() {
            return V::Skip;
        }
        let r = match cfg {
            Some(cfg) => Self::written(case, &cfg, ctx),
            None => Self::all(case, ctx),
        };
        match r {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        }
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if case.len() < 3 {
            return String::new();
        }
        if kind == "ms" {
            return format!("{}, written with {:?}", self.render("m", &case[1..]), Self::settings().get(case[0] as usize));
        }
        format!("{} repeated {:?} times as {:?}", show(&case[2..]), TIMES[case[1] as usize], AROUND[case[0] as usize])
    }
}
