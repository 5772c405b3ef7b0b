//! C26 what a stream costs, compared with libyaml.

use super::flow::{AROUND, THINGS, UNIT};
use super::spaces;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::{alloc, c, rs};
use libyaml_safer as l;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Cost)]
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread in microseconds.
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        return 0;
    }
    t.sec as u64 * 1_000_000 + t.nsec as u64 / 1000
}
/// Microseconds and bytes asked for.
fn measure<T>(f: impl FnOnce() -> T) -> (u64, u64, T) {
    let t = cpu();
    let (bytes, r) = alloc::total(f);
    (cpu() - t, bytes, r)
}

/// A linear cost stays below this many times libyaml's, and so much more.
const TIMES: u64 = 8;
const MORE_TIME: u64 = 60_000;
const MORE_BYTES: u64 = 1 << 20;
const MORE_CALLS: usize = 16;
/// How long the streams are, in bytes or events.
const LENGTH: usize = 96 << 10;

const NESTED: usize = 16 << 10;

/// One long item: what is before it, and after.
const ONE: [[&str; 2]; 16] = [
    ["", "\n"],
    ["- ", "\n"],
    ["k: ", "\n"],
    ["'", "'\n"],
    ["\"", "\"\n"],
    ["|\n  ", "\n"],
    [">\n  ", "\n"],
    ["- |\n  ", "\n"],
    ["# ", "\n"],
    ["&", " a\n"],
    ["!", " a\n"],
    ["!<", "> a\n"],
    ["*", "\n"],
    ["%", "\n--- a\n"],
    ["%TAG !a! ", "\n--- !a!b c\n"],
    ["[\"", "\": a]\n"],
];
const PART: [&str; 18] = [
    "a", "ab", " ", "\n ", "\n   ", "\n\n  ", "\n", "\t", "\u{e9}", "\u{2028} ", "\u{1f389}", "\\x41", "\\\n ", "''", "%41", "%c3%a9", ":", "- ",
];

/// Numbered: every `0` of the middle becomes the number of its repetition.
const NUMBERED: [[&str; 3]; 14] = [
    ["", "- &a0 x\n", ""],
    ["", "- &a0 x\n- *a0\n", ""],
    ["- &a x\n", "- &a0 [*a]\n", ""],
    ["", "k0: v\n", ""],
    ["", "? k0\n: v\n", ""],
    ["", "%TAG !a0! b\n", "--- !a1!x y\n"],
    ["", "%TAG !a0! b\n---\n- !a0!c d\n...\n", ""],
    ["[", "&a0 x, ", "]\n"],
    ["{", "k0: &a0 v, *a0 : w, ", "}\n"],
    ["", "--- &a x\n--- *a0\n", ""],
    ["", "--- &a0 x\n", ""],
    ["", "--- !<tag:0> x\n", ""],
    ["", "- |0\n x\n", ""],
    ["", "- \"\\x0\"\n", ""],
];

const HOW: [&str; 5] = ["scanning", "parsing", "loading", "emitting", "dumping"];
enum Work<'a> {
    Read(&'a [u8], u8),
    Emit(&'a [Ev], &'a Cfg),
    /// The documents; and the same as events, where libyaml cannot dump them.
    Dump(&'a [Doc], Option<&'a [Ev]>, &'a Cfg),
}
/// Input in pieces of 8 KiB; how often it is asked for.
struct Counted<'a> {
    feed: Feed<'a>,
    calls: &'a mut usize,
}
impl std::io::Read for Counted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        *self.calls += 1;
        self.feed.read(buf)
    }
}
impl std::io::BufRead for Counted<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        *self.calls += 1;
        self.feed.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.feed.consume(n)
    }
}
/// How often output is written.
struct Writes<'a>(&'a mut usize);
impl std::io::Write for Writes<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        *self.0 += 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        *self.0 += 1;
        Ok(())
    }
}

impl Work<'_> {
    /// Items, and calls to the source or the output.
    fn ours(&self) -> (usize, usize) {
        let mut calls = 0;
        let mut n = 0;
        match *self {
            Work::Read(text, how) => {
                let limit = 64 + 8 * text.len();
                let mut src = Counted { feed: Feed::new(text, Cut::Fixed(8192)), calls: &mut calls };
                if how == 0 {
                    let mut p = l::Scanner::new();
                    p.set_input(&mut src);
                    while let Ok(t) = l::Scanner::scan(&mut p) {
                        n += 1;
                        if matches!(t.data, l::TokenData::StreamEnd) || n > limit {
                            break;
                        }
                    }
                    return (n, calls);
                }
                let mut p = l::Parser::new();
                p.set_input(&mut src);
                if how == 1 {
                    while let Ok(t) = p.parse() {
                        n += 1;
                        if matches!(t.data, l::EventData::StreamEnd) || n > limit {
                            break;
                        }
                    }
                } else {
                    while let Ok(d) = l::Document::load(&mut p) {
                        n += 1;
                        if d.nodes.is_empty() || n > limit {
                            break;
                        }
                    }
                }
            }
            Work::Emit(evs, cfg) => {
                let mut out = Writes(&mut calls);
                let mut e = l::Emitter::new();
                e.set_output(&mut out);
                rs::configure(&mut e, cfg);
                for x in evs {
                    if e.emit(rs::to_event(x)).is_err() {
                        break;
                    }
                    n += 1;
                }
                let _ = e.flush();
            }
            Work::Dump(docs, instead, cfg) => {
                let mut out = Writes(&mut calls);
                let mut e = l::Emitter::new();
                e.set_output(&mut out);
                rs::configure(&mut e, cfg);
                for d in docs {
                    if rs::build_doc(d).dump(&mut e).is_err() {
                        break;
                    }
                    n += 1;
                }
                let _ = e.close();
                if let Some(evs) = instead {
                    n = evs.len();
                }
            }
        }
        (n, calls)
    }
    fn theirs(&self) -> (usize, usize) {
        let calls;
        let mut n = 0;
        match *self {
            Work::Read(text, how) => {
                calls = text.len() / 8192 + 2;
                let mut feed = Feed::new(text, Cut::Whole);
                let mut p = unsafe { c::Cp::new(&mut feed, 0) };
                match how {
                    0 => {
                        while let Ok(t) = p.scan() {
                            n += 1;
                            if t.v == Tok::StreamEnd {
                                break;
                            }
                        }
                    }
                    1 => {
                        while let Ok(Some(t)) = p.parse() {
                            n += 1;
                            if t.v == Ev::StreamEnd {
                                break;
                            }
                        }
                    }
                    _ => {
                        while let Ok(d) = p.load() {
                            n += 1;
                            if d.nodes.is_empty() {
                                break;
                            }
                        }
                    }
                }
            }
            Work::Emit(evs, cfg) | Work::Dump(_, Some(evs), cfg) => {
                let mut e = c::Ce::new(cfg);
                for x in evs {
                    if e.emit(x).is_err() {
                        return (n, e.sink.calls);
                    }
                    n += 1;
                }
                let _ = e.flush();
                calls = e.sink.calls;
            }
            Work::Dump(docs, None, cfg) => {
                let mut e = c::Ce::new(cfg);
                for d in docs {
                    if e.dump(d).is_err() {
                        return (n, e.sink.calls);
                    }
                    n += 1;
                }
                let _ = e.close();
                calls = e.sink.calls;
            }
        }
        (n, calls)
    }
    fn compare(&self, name: &str, ctx: &mut Ctx) -> Result<(), String> {
        let mut worst = String::new();
        for _ in 0..3 {
            let (t, b, r) = measure(|| rs::guarded(|| self.ours()));
            let (n, calls) = r?;
            let (rt, rb, (rn, rcalls)) = measure(|| self.theirs());
            ctx.trans += (n + rn) as u64;
            if n != rn {
                // Not the same work: other properties tell.
                return Ok(());
            }
            if std::env::var("MC_COST").is_ok() {
                eprintln!("COST {name} {n} {t} {rt} {b} {rb} {calls} {rcalls}");
            }
            if calls > TIMES as usize * rcalls + MORE_CALLS {
                return Err(format!("{name} {n} items makes {calls} calls to the stream, libyaml {rcalls}"));
            }
            let slow = t > TIMES * rt + MORE_TIME;
            let big = b > TIMES * rb + MORE_BYTES;
            if !slow && !big {
                ctx.outcome(&(name, n));
                return Ok(());
            }
            worst = if big {
                format!("{name} {n} items asks for {b} bytes in all, libyaml for {rb}")
            } else {
                format!("{name} {n} items takes {} ms, libyaml {} ms", t / 1000, rt / 1000)
            };
        }
        Err(worst)
    }
}

struct Cost;
impl Cost {
    fn settings() -> Vec<Cfg> {
        vec![
            Cfg { encoding: Some(3), canonical: Some(true), indent: Some(9), width: None, unicode: None, brk: Some(3) },
            Cfg { encoding: Some(2), canonical: None, indent: Some(4), width: Some(-1), unicode: Some(true), brk: Some(1) },
            Cfg { encoding: None, canonical: None, indent: Some(3), width: Some(7), unicode: Some(true), brk: None },
        ]
    }
    fn one(case: &[u8], length: usize) -> Vec<u8> {
        let [pre, post] = ONE[case[0] as usize];
        let mut v = pre.as_bytes().to_vec();
        while v.len() < length {
            v.extend_from_slice(&case[1..]);
        }
        v.extend_from_slice(post.as_bytes());
        v
    }
    /// The unit again and again, and something shorter where it opens more
    /// than it closes: libyaml indents what is nested, and looks at every
    /// level of it in places.
    fn text(case: &[u8], nested: usize) -> Vec<u8> {
        let [pre, before, after, post] = AROUND[case[0] as usize];
        let unit = &case[1..];
        let mut v = pre.as_bytes().to_vec();
        let count = |c: &[u8]| unit.iter().chain(before.as_bytes()).filter(|b| c.contains(b)).count();
        let length = if count(b"[{") > count(b"]}") || count(b"-?:") > 0 && count(b"\n") == 0 {
            nested
        } else {
            LENGTH
        };
        while v.len() < length {
            v.extend_from_slice(before.as_bytes());
            v.extend_from_slice(unit);
            v.extend_from_slice(after.as_bytes());
        }
        v.extend_from_slice(post.as_bytes());
        v
    }
    /// The same text in UTF-16, and its events written in UTF-16.
    fn wide(text: &str, be: bool, ctx: &mut Ctx) -> Result<(), String> {
        let bytes = super::input::utf16(text, be, true);
        for how in 0..2 {
            Work::Read(&bytes, how).compare(HOW[how as usize], ctx)?;
        }
        let r = rs::parse_all(&mut Feed::new(&text.as_bytes(), Cut::Whole), 0);
        let evs: Vec<Ev> = r.items.into_iter().map(|e| e.v).collect();
        if evs.len() > 3 {
            let cfg = Cfg { encoding: Some(2 + be as u8), ..Cfg::default() };
            Work::Emit(&evs, &cfg).compare(HOW[3], ctx)?;
        }
        Ok(())
    }
    fn all(text: &[u8], short: &[u8], ctx: &mut Ctx) -> Result<(), String> {
        for how in 0..3 {
            Work::Read(text, how).compare(HOW[how as usize], ctx)?;
        }
        Self::write(short, &Cfg::default(), ctx)
    }
    fn write(short: &[u8], cfg: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
        let r = rs::parse_all(&mut Feed::new(short, Cut::Whole), 0);
        let evs: Vec<Ev> = r.items.into_iter().map(|e| e.v).collect();
        if evs.len() > 3 {
            Work::Emit(&evs, cfg).compare(HOW[3], ctx)?;
        }
        let (docs, _) = rs::load_on(Feed::new(short, Cut::Whole), 0, short.len());
        if !docs.is_empty() {
            let can = docs.iter().all(super::docs::libyaml_can);
            Work::Dump(&docs, (!can).then_some(&evs), cfg).compare(HOW[4], ctx)?;
        }
        Ok(())
    }
}
impl Prop for Cost {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "every unit of text is repeated to a long stream in each context, which both libraries scan, parse, load, emit and dump; the processor time and the bytes asked for are compared (three times before it counts); a state is a unit in a context"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a cost that grows faster than libyaml's exceeds 8 times libyaml's by more than 60 ms or 1 MiB on a stream of 96 KiB"]
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let d = 2 + thorough as usize;
        let mut v: Vec<Scope> = (0..AROUND.len() as u8)
            .map(|c| Scope {
                kind: "w",
                name: format!("units of at most {d} of {} atoms, as {:?}", UNIT.len(), AROUND[c as usize]),
                gen: Gen::Tree {
                    prefix: vec![c],
                    atoms: UNIT.iter().map(|a| a.as_bytes().to_vec()).collect(),
                    suffixes: vec![vec![]],
                    depth: d,
                    filter: None,
                },
            })
            .collect();
        let (a, n) = (AROUND.len() as u64, THINGS.len() as u64);
        v.push(index("w", format!("each of {n} things in {a} contexts"), a * n, move |i| {
            let mut c = vec![(i % a) as u8];
            c.extend_from_slice(THINGS[(i / a) as usize].as_bytes());
            c
        }));
        let texts = spaces::snippets();
        let k = texts.len() as u64;
        v.push(index("w", format!("each of {k} texts in 2 contexts"), 2 * k, move |i| {
            let mut c = vec![[0, 2][(i % 2) as usize]];
            c.extend_from_slice(&texts[(i / 2) as usize]);
            c
        }));
        let parts = spaces::parts(1 + thorough as usize, true);
        v.push(index("grow", format!("each of {} parts of the texts repeated", parts.len()), parts.len() as u64, move |i| {
            let (k, p, len) = parts[i as usize];
            vec![k as u8, p as u8, len as u8]
        }));
        for kind in ["le", "be"] {
            v.push(index(kind, format!("each of {n} things and pairs of characters in {a} contexts, in UTF-16"), a * (n + 4), move |i| {
                let mut c = vec![(i % a) as u8];
                c.extend_from_slice(THINGS.get((i / a) as usize).unwrap_or_else(|| &["\u{e9}", "\u{1f389}a", "\u{2603}\u{1f389}", "a\u{feff}"][(i / a - n) as usize]).as_bytes());
                c
            }));
        }
        let settings = Self::settings().len() as u64;
        v.push(index("set", format!("each of {n} things in {a} contexts, written with {settings} settings"), a * n * settings, move |i| {
            let mut c = vec![(i / a / n) as u8, 0, (i % a) as u8];
            c.extend_from_slice(THINGS[(i / a % n) as usize].as_bytes());
            c
        }));
        let (o, m) = (ONE.len() as u64, PART.len() as u64);
        v.push(index("set", format!("one item of one or two of {m} parts in {o} forms, written with {settings} settings"), o * m * m * settings, move |i| {
            let mut c = vec![(i / o / m / m) as u8, 1, (i % o) as u8];
            c.extend_from_slice(PART[(i / o % m) as usize].as_bytes());
            c.extend_from_slice(PART[(i / o / m % m) as usize].as_bytes());
            c
        }));
        for c in 0..ONE.len() as u8 {
            v.push(Scope {
                kind: "one",
                name: format!("one item of parts of at most {d} of {} atoms, in {:?}", PART.len(), ONE[c as usize]),
                gen: Gen::Tree {
                    prefix: vec![c],
                    atoms: PART.iter().map(|a| a.as_bytes().to_vec()).collect(),
                    suffixes: vec![vec![]],
                    depth: d,
                    filter: None,
                },
            });
        }
        v.push(list("num", "families of numbered items", (0..NUMBERED.len() as u8).map(|i| vec![i]).collect()));
        v.push(spaces::long_lite("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if let "le" | "be" = kind {
            if case.first().is_none_or(|c| *c as usize >= AROUND.len()) {
                return V::Skip;
            }
            let Ok(text) = String::from_utf8(Self::text(case, NESTED / 4)) else { return V::Skip };
            ctx.states.insert(hash(&(kind, case)));
            let r = Self::wide(&text, kind == "be", ctx);
            return r.map_or_else(V::Bad, |_| V::Ok);
        }
        if kind == "set" {
            let [set, form, rest @ ..] = case else { return V::Skip };
            let settings = Self::settings();
            let Some(cfg) = settings.get(*set as usize) else { return V::Skip };
            let text = match (*form, rest.first()) {
                (0, Some(c)) if (*c as usize) < AROUND.len() => Self::text(rest, NESTED / 8),
                (1, Some(c)) if (*c as usize) < ONE.len() => Self::one(rest, if rest[1..].iter().any(|b| b"-:".contains(b)) { NESTED / 8 } else { LENGTH }),
                _ => return V::Skip,
            };
            ctx.states.insert(hash(case));
            let r = Self::write(&text, cfg, ctx);
            return r.map_or_else(V::Bad, |_| V::Ok);
        }
        let (text, short) = match kind {
            "grow" => {
                let &[k, p, len] = case else { return V::Skip };
                let (k, p, len) = (k as usize, p as usize, len as usize);
                if len == 0 || spaces::SNIPPETS.get(k).is_none_or(|s| p + len > s.chars().count()) {
                    return V::Skip;
                }
                let part: String = spaces::SNIPPETS[k].chars().skip(p).take(len).collect();
                let deep = part.contains(['[', '{', '-', '?', ':']);
                let t = spaces::grow((k, p, len), if deep { NESTED } else { LENGTH } / part.len());
                // What is nested is indented when it is written.
                let short = if deep { spaces::grow((k, p, len), NESTED / 8 / part.len()) } else { t.clone() };
                (t, short)
            }
            "long" => match spaces::expand(case) {
                Some(t) => (t.clone(), t),
                None => return V::Skip,
            },
            "num" => match case.first().and_then(|c| NUMBERED.get(*c as usize)) {
                Some([pre, mid, post]) => {
                    let mut v = pre.to_string();
                    let mut n = 0;
                    while v.len() < LENGTH {
                        n += 1;
                        v.push_str(&mid.replace('0', &n.to_string()));
                    }
                    v.push_str(post);
                    (v.clone().into_bytes(), v.into_bytes())
                }
                None => return V::Skip,
            },
            "one" if case.first().is_none_or(|c| *c as usize >= ONE.len()) => return V::Skip,
            _ if case.len() < 2 => return V::Dup,
            "one" => {
                let v = Self::one(case, LENGTH);
                (v.clone(), v)
            }
            _ if case.first().is_none_or(|c| *c as usize >= AROUND.len()) => return V::Skip,
            _ => (Self::text(case, NESTED), Self::text(case, NESTED / 8)),
        };
        ctx.states.insert(hash(case));
        match Self::all(&text, &short, ctx) {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        }
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind == "long" || case.is_empty() {
            return show(case);
        }
        if kind == "grow" {
            let part: Option<String> = (case.len() == 3).then(|| spaces::SNIPPETS.get(case[0] as usize).map(|s| s.chars().skip(case[1] as usize).take(case[2] as usize).collect())).flatten();
            return format!("{part:?} repeated at {} of {:?}", case[1 % case.len()], spaces::SNIPPETS.get(case[0] as usize));
        }
        if kind == "num" {
            return format!("{:?} numbered", NUMBERED.get(case[0] as usize));
        }
        if kind == "set" && case.len() > 2 {
            return format!("{} repeated in {} {}, written with {:?}", show(&case[3..]), ["context", "form"][case[1] as usize % 2], case[2], Self::settings().get(case[0] as usize));
        }
        if kind == "one" {
            return format!("{} repeated in {:?}", show(&case[1..]), ONE.get(case[0] as usize));
        }
        format!("{} repeated as {:?}", show(&case[1..]), AROUND.get(case[0] as usize))
    }
}
