//! C18 reset and independence of instances, C20 independence of documents.
use super::input::{same_run, PROBES};
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use super::spaces;
use crate::rs;
use libyaml_safer as l;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Reset), Box::new(Docs)]
}

/// Streams that leave a parser in as many different states as possible.
const LEFT: &[&str] = &[
    "", "a", "a: b\n", "- a\n- [b, {c: d}]\n", "%YAML 1.1\n%TAG !e! x:\n--- !e!a &n b\n...\n", "%TAG ! z:\n--- !a b\n--- !a c\n", "[a, [b, {c: ", "{a: [", "- - - a\n",
    "? a\n: - b\n  - c\n", "'open", "\"open\\", "|\n a\n", ">+\n a\n\n", "&a [*a]\n--- &a b\n", "a: b: c\n", "!u!x y\n", "*undefined\n", "&d a: &d b\n", "\u{feff}a\n",
    "\u{1}", "- \u{e9}\n- \u{1f389}\n", "a\r\nb\r\n", "--- a\n...\n--- b\n", "# only\n", "\t- a", "a:\n    b:\n        c:\n   d", "%YAML 1.1\n%YAML 1.1\n", "%YAML 1.1\n%TAG !e! x:\n",
    "a: 'b'\n\n\n# c\n", "[[[[[[[[[[[[[[[[[[[[a]]]]]]]]]]]]]]]]]]]]", "- a: b\n  c: d\n- e\n", "{a, b: , ? c}\n", "!!str a: !!int b\n", "a b c d e f g h i j k l m n o p\n",
];

/// Streams that would show a leftover.
const RIGHT: &[&str] = &[
    "", "a\n", "a: b\n", "- a\n", "[a]\n", "!e!a b\n", "!a b\n", "!!str c\n", "*n\n", "*a\n", "&a b\n", "&n [*n]\n", "%YAML 1.1\n--- a\n", "%TAG !e! y:\n--- !e!b c\n", "]\n", "}", ": a\n",
    "  a: b\n", "? a\n", "|\n x\n", "b: c: d", "'x'\n", "--- a\n--- b\n", "...\n", "\u{feff}a: b\n", "%TAG ! q:\n--- !a b\n", "- - a\n  - b\n- c\n", "{k: [v, *n]}\n", "\u{e9}: \u{1f389}\n",
    "# c\n\n a\n", "\u{1}", "a\u{7f}b", "- a\n- \u{0}\n", "\u{fffe}", "a: b: c\n", "'x", "\"\\q\"", "- a\nb", "\u{feff}\u{e9}: \u{2028}\u{1}", "---\n...\n--- >\n a\n\n",
];

/// The pieces of which all short streams are made.
const PIECES: &[&[u8]] = &[
    b"a", b"\n", b"- ", b": ", b"? ", b"[", b"{", b"'", b"\"", b"|\n ", b"&a ", b"*a ", b"!e!b ", b"%TAG !e! x:\n", b"%YAML 1.1\n", b"--- ", b"...\n", b"\xc3\xa9", b"\xff", b"\x01",
    b"\xff\xfe", b"\xef\xbb\xbf", b"\0", b"  ",
];
fn pieces(v: &[u8]) -> Option<Vec<u8>> {
    let mut s = vec![];
    for i in v {
        if *i > 0 {
            s.extend_from_slice(PIECES.get(*i as usize - 1)?);
        }
    }
    Some(s)
}

/// What comes after long streams and many resets.
const AFTER: &[&str] = &["", "!e!a &n b\n", "%TAG !e! y:\n--- [*a, {k: !e!b c}]\n--- - &a |\n  x\n", "a: b: c\n", "? a\n: - b\n"];

type P<'a> = l::Parser<Feed<'a>>;

struct Reset;
impl Reset {
    fn parser<'x>(&self, a: &'x [u8], k: usize, b: &'x [u8], variant: u8, ctx: &mut Ctx) -> Result<bool, String> {
        let feed = |s: &'x [u8]| Feed::new(s, Cut::Whole);
        let n = b.len();
        let exhausted;
        match variant {
            // parse, reset, parse
            0 | 1 => {
                let mut p: P = l::Parser::new();
                p.set_input(feed(a));
                if variant == 1 {
                    p.set_encoding(l::Encoding::Utf8);
                }
                let mut done = 0;
                for _ in 0..k {
                    done += 1;
                    match p.parse() {
                        Err(_) => break,
                        Ok(e) if matches!(e.data, l::EventData::StreamEnd) => break,
                        _ => {}
                    }
                }
                exhausted = done < k;
                p.reset();
                p.set_input(feed(b));
                let r = rs::drive(64 + 8 * n, |t| *t == Ev::StreamEnd, || p.parse().map(rs::ev));
                same_run(&r, &rs::parse_on(feed(b), 0, n)).map_err(|e| format!("parser reset after {done} events: {e}"))?;
                ctx.trans += r.0.len() as u64 + done as u64;
                ctx.states.insert(hash(&(a, done, variant)));
                // A second reset, after the end of the stream.
                p.reset();
                p.set_encoding(l::Encoding::Utf16Le);
                p.set_input(Feed::new(b"a\0:\0", Cut::Whole));
                let r = rs::drive(64, |t| *t == Ev::StreamEnd, || p.parse().map(rs::ev));
                same_run(&r, &rs::parse_on(Feed::new(b"a\0:\0", Cut::Whole), 2, 4)).map_err(|e| format!("parser reset again: {e}"))?;
            }
            2 => {
                let mut p: l::Scanner<Feed> = l::Scanner::new();
                p.set_input(feed(a));
                let mut done = 0;
                for _ in 0..k {
                    done += 1;
                    match l::Scanner::scan(&mut p) {
                        Err(_) => break,
                        Ok(e) if matches!(e.data, l::TokenData::StreamEnd) => break,
                        _ => {}
                    }
                }
                exhausted = done < k;
                p.reset();
                p.set_input(feed(b));
                let r = rs::drive(64 + 8 * n, |t| *t == Tok::StreamEnd, || l::Scanner::scan(&mut p).map(rs::tok));
                same_run(&r, &rs::scan_on(feed(b), 0, n)).map_err(|e| format!("scanner reset after {done} tokens: {e}"))?;
                ctx.trans += r.0.len() as u64 + done as u64;
                ctx.states.insert(hash(&(a, done, variant)));
            }
            // load documents, reset, load documents
            _ => {
                let mut p: P = l::Parser::new();
                p.set_input(feed(a));
                let mut done = 0;
                for _ in 0..k {
                    done += 1;
                    match l::Document::load(&mut p) {
                        Ok(d) if !d.nodes.is_empty() => {}
                        _ => break,
                    }
                }
                exhausted = done < k;
                p.reset();
                p.set_input(feed(b));
                let mut docs = vec![];
                let end = loop {
                    match l::Document::load(&mut p) {
                        Ok(d) if d.nodes.is_empty() => break End::Done,
                        Ok(d) => docs.push(rs::doc(&d)),
                        Err(e) => break End::Err(rs::er(&e)),
                    }
                    if docs.len() > 64 {
                        break End::Unbounded;
                    }
                };
                let want = rs::load_on(feed(b), 0, n);
                if (&docs, &end) != (&want.0, &want.1) {
                    return Err(format!("documents after a reset after {done} documents: {docs:?} {}, fresh: {:?} {}", end.brief(), want.0, want.1.brief()));
                }
                ctx.trans += (docs.len() + done) as u64;
                ctx.states.insert(hash(&(a, done, variant)));
            }
        }
        Ok(exhausted)
    }
    /// `n` times some steps and a reset, and then another stream.
    fn again(&self, a: &[u8], n: usize, steps: usize, b: &[u8], variant: u8, ctx: &mut Ctx) -> Result<(), String> {
        let feed = |s| Feed::new(s, Cut::Whole);
        ctx.trans += n as u64;
        let name = |e| format!("after {n} resets: {e}");
        match variant {
            0 | 1 => {
                let mut p: P = l::Parser::new();
                for _ in 0..n {
                    p.set_input(feed(a));
                    for _ in 0..steps {
                        if variant == 0 {
                            match p.parse() {
                                Ok(e) if !matches!(e.data, l::EventData::StreamEnd) => {}
                                _ => break,
                            }
                        } else {
                            match l::Document::load(&mut p) {
                                Ok(d) if !d.nodes.is_empty() => {}
                                _ => break,
                            }
                        }
                    }
                    p.reset();
                }
                p.set_input(feed(b));
                if variant == 0 {
                    let r = rs::drive(64 + 8 * b.len(), |t| *t == Ev::StreamEnd, || p.parse().map(rs::ev));
                    return same_run(&r, &rs::parse_on(feed(b), 0, b.len())).map_err(name);
                }
                let want = rs::load_on(feed(b), 0, b.len());
                for d in &want.0 {
                    match l::Document::load(&mut p) {
                        Ok(x) if rs::doc(&x) == *d => {}
                        x => return Err(name(format!("loading gives {:?} instead of {d:?}", x.map(|d| rs::doc(&d)).map_err(|e| rs::er(&e))))),
                    }
                }
                match (l::Document::load(&mut p), &want.1) {
                    (Ok(d), End::Done) if d.nodes.is_empty() => Ok(()),
                    (Err(x), End::Err(e)) if rs::er(&x) == *e => Ok(()),
                    (x, e) => Err(name(format!("loading ends with {:?} instead of {}", x.map(|d| rs::doc(&d)).map_err(|e| rs::er(&e)), e.brief()))),
                }
            }
            2 => {
                let mut p: l::Scanner<Feed> = l::Scanner::new();
                for _ in 0..n {
                    p.set_input(feed(a));
                    for _ in 0..steps {
                        match l::Scanner::scan(&mut p) {
                            Ok(t) if !matches!(t.data, l::TokenData::StreamEnd) => {}
                            _ => break,
                        }
                    }
                    p.reset();
                }
                p.set_input(feed(b));
                let r = rs::drive(64 + 8 * b.len(), |t| *t == Tok::StreamEnd, || l::Scanner::scan(&mut p).map(rs::tok));
                same_run(&r, &rs::scan_on(feed(b), 0, b.len())).map_err(name)
            }
            _ => {
                let events = |t| -> Vec<Ev> { rs::parse_on(feed(t), 0, t.len()).0.into_iter().map(|e| e.v).collect() };
                let (ea, eb) = (events(a), events(b));
                let da = rs::load_on(feed(a), 0, a.len()).0;
                let mut outs: Vec<Vec<u8>> = vec![vec![]; n + 1];
                let (mut k, end);
                {
                    let mut e = l::Emitter::new();
                    let (last, before) = outs.split_last_mut().unwrap();
                    for o in before {
                        e.set_output(o);
                        if variant == 3 {
                            for x in ea.iter().take(steps) {
                                if e.emit(rs::to_event(x)).is_err() {
                                    break;
                                }
                            }
                        } else {
                            for d in da.iter().take(steps) {
                                if rs::build_doc(d).dump(&mut e).is_err() {
                                    break;
                                }
                            }
                        }
                        e.reset();
                    }
                    e.set_output(last);
                    k = 0;
                    end = loop {
                        if k == eb.len() {
                            break match e.flush() {
                                Ok(()) => End::Done,
                                Err(e) => End::Err(rs::er(&e)),
                            };
                        }
                        if let Err(x) = e.emit(rs::to_event(&eb[k])) {
                            break End::Err(rs::er(&x));
                        }
                        k += 1;
                    };
                }
                let want = rs::emit_all(&Cfg::default(), &eb, true);
                if (&outs[n], k, &end) != (&want.0, want.1, &want.2) {
                    return Err(name(format!("the emitter writes {} ({}), a new one {} ({})", show(&outs[n]), end.brief(), show(&want.0), want.2.brief())));
                }
                Ok(())
            }
        }
    }
    /// Two parsers stepped according to the bits of `sched`.
    fn interleave(&self, a: &str, b: &str, sched: u32, ctx: &mut Ctx) -> Result<(), String> {
        let mut run: [Vec<M<Ev>>; 2] = [vec![], vec![]];
        let mut p = [l::Parser::new(), l::Parser::new()];
        p[0].set_input(Feed::new(a.as_bytes(), Cut::Char));
        p[1].set_input(Feed::new(b.as_bytes(), Cut::Char));
        let mut dead = [false; 2];
        for i in 0..10 {
            let w = (sched >> i & 1) as usize;
            if dead[w] {
                continue;
            }
            match p[w].parse() {
                Ok(e) => {
                    let e = rs::ev(e);
                    dead[w] = e.v == Ev::StreamEnd;
                    run[w].push(e);
                }
                Err(_) => dead[w] = true,
            }
            ctx.trans += 1;
        }
        for (w, t) in [a, b].iter().enumerate() {
            let (want, end) = rs::parse_on(Feed::new(t.as_bytes(), Cut::Char), 0, t.len());
            if run[w][..] != want[..run[w].len().min(want.len())] || run[w].len() > want.len() || (dead[w] && run[w].len() != want.len()) {
                return Err(format!("parser {w} of two interleaved ({sched:010b}) gives {:?}, alone {want:?} {}", run[w], end.brief()));
            }
        }
        ctx.states.insert(hash(&(run[0].len(), run[1].len(), a, b)));
        Ok(())
    }
    fn emitter(&self, a: &[u8], k: usize, b: &[u8], variant: u8, ctx: &mut Ctx) -> Result<bool, String> {
        let events = |t: &[u8]| -> Vec<Ev> { rs::parse_on(Feed::new(t, Cut::Whole), 0, t.len()).0.into_iter().map(|e| e.v).collect() };
        let (ea, eb) = (events(a), events(b));
        if k > ea.len() || eb.is_empty() {
            return Ok(true);
        }
        let cfg = Cfg { canonical: Some(true), indent: Some(7), width: Some(3), brk: Some(3), unicode: Some(true), encoding: Some(2) };
        let (mut o1, mut o2) = (vec![], vec![]);
        let mut n = 0;
        let end;
        {
            let mut e = l::Emitter::new();
            e.set_output(&mut o1);
            if variant & 1 == 1 {
                rs::configure(&mut e, &cfg);
            }
            for x in &ea[..k] {
                if e.emit(rs::to_event(x)).is_err() {
                    break;
                }
            }
            if variant & 2 == 2 {
                let _ = e.emit(l::Event::stream_end());
                let _ = e.emit(l::Event::document_end(true));
            }
            e.reset();
            e.set_output(&mut o2);
            end = loop {
                if n == eb.len() {
                    break match e.flush() {
                        Ok(()) => End::Done,
                        Err(e) => End::Err(rs::er(&e)),
                    };
                }
                if let Err(x) = e.emit(rs::to_event(&eb[n])) {
                    break End::Err(rs::er(&x));
                }
                n += 1;
            };
        }
        let want = rs::emit_all(&Cfg::default(), &eb, true);
        if (&o2, n, &end) != (&want.0, want.1, &want.2) {
            return Err(format!("an emitter reset after {k} events writes {} ({}), a new one {} ({})", show(&o2), end.brief(), show(&want.0), want.2.brief()));
        }
        ctx.trans += (n + k) as u64;
        ctx.states.insert(hash(&(a, k, "emitter")));
        Ok(false)
    }
}
impl Prop for Reset {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "a parser, scanner, loader or emitter is stopped after every possible number of steps of every declared stream, reset, and given every declared second stream, which must behave as on a new object; two parsers are stepped under every schedule of ten steps; a state is (first stream, steps taken, entry point)"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let (na, nb) = (LEFT.len() as u64, RIGHT.len() as u64);
        let steps = 48u64;
        let np = PIECES.len() as u64 + 1;
        let few = if thorough { 12u64 } else { 6 };
        let pairs = move |i: u64| -> Vec<u8> {
            let v = [i % 4, i / 4 % few, i / 4 / few % np, i / 4 / few / np % np, i / 4 / few / np / np % np, i / 4 / few / np / np / np];
            v.iter().map(|x| *x as u8).collect()
        };
        let many: &[usize] = if thorough { &[9, 33, 65, 66, 130, 257, 600, 1025, 4100, 66_000] } else { &[9, 65, 130, 257, 1025] };
        let big = move |parts: Vec<spaces::Part>, many: Vec<usize>, kind: &'static str, what: &str| {
            let (np, ns) = (parts.len() as u64, many.len() as u64);
            let name = format!("{np} parts of streams repeated {many:?} times x 3 stopping points x {} streams x 4 {what}", AFTER.len());
            index(kind, name, np * ns * 12, move |i| {
                let (k, p, len) = parts[(i / 12 / ns) as usize];
                let mut c = vec![(i % 4) as u8, (i / 4 % 3) as u8];
                c.extend((many[(i / 12 % ns) as usize] as u32).to_le_bytes());
                c.extend([k as u8, p as u8, len as u8]);
                c
            })
        };
        let longest = 2 + thorough as usize;
        let again: &[u32] = if thorough { &[2, 3, 5, 9, 17, 33, 65, 129, 255, 256, 257, 1030, 66_000] } else { &[3, 9, 17, 65, 129, 257, 1030] };
        let nn = again.len() as u64;
        vec![
            big(spaces::parts(longest, true), many.to_vec(), "big", "entry points"),
            big(spaces::parts(longest, true), many.to_vec(), "ebig", "variants, emitter"),
            big(spaces::parts(1, false), vec![66_000], "big", "entry points"),
            index("again", format!("{na} streams x 4 stopping points, {again:?} resets, and {} streams x 5 entry points", AFTER.len()), na * nn * 20, move |i| {
                let mut c = again[(i / 20 / na) as usize].to_le_bytes().to_vec();
                c.extend([(i % 5) as u8, (i / 5 % 4) as u8, (i / 20 % na) as u8]);
                c
            }),
            index("greset", format!("all streams of at most 2 of {} pieces x {few} stopping points x the same streams x 4 entry points", np - 1), np.pow(4) * few * 4, pairs),
            index("gereset", format!("the events of all streams of at most 2 of {} pieces x {few} stopping points x the same x 4 variants, emitter", np - 1), np.pow(4) * few * 4, pairs),
            index("reset", format!("{na} streams x {steps} stopping points x {nb} streams x 4 entry points"), na * nb * steps * 4, move |i| {
                let v = [i % 4, i / 4 % steps, i / 4 / steps % na, i / 4 / steps / na];
                v.iter().map(|x| *x as u8).collect()
            }),
            index("ereset", format!("{na} event streams x {steps} stopping points x {nb} event streams x 4 variants, emitter"), na * nb * steps * 4, move |i| {
                let v = [i % 4, i / 4 % steps, i / 4 / steps % na, i / 4 / steps / na];
                v.iter().map(|x| *x as u8).collect()
            }),
            index(
                "inter",
                format!("all schedules of 10 steps of two parsers, {} pairs of streams", if thorough { na * nb } else { na * nb / 5 }),
                1024 * if thorough { na * nb } else { na * nb / 5 },
                move |i| {
                    let s = (i % 1024) as u16;
                    let p = i / 1024 * if thorough { 1 } else { 5 };
                    vec![(p % na) as u8, (p / na) as u8, s as u8, (s >> 8) as u8]
                },
            ),
        ]
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if case.len() != match kind {
            "greset" | "gereset" => 6,
            "again" => 7,
            "big" | "ebig" => 9,
            _ => 4,
        } {
            return V::Skip;
        }
        let r = match kind {
            "big" | "ebig" => {
                let n = u32::from_le_bytes(case[2..6].try_into().unwrap()) as usize;
                let (k, p, len) = (case[6] as usize, case[7] as usize, case[8] as usize);
                if n > 100_000 || spaces::SNIPPETS.get(k).is_none_or(|s| p + len > s.chars().count()) {
                    return V::Skip;
                }
                let a = spaces::grow((k, p, len), n);
                let total = match (kind, case[0] % 4) {
                    ("big", 2) => rs::scan_on(Feed::new(&a, Cut::Whole), 0, a.len()).0.len(),
                    ("big", 3) => rs::load_on(Feed::new(&a, Cut::Whole), 0, a.len()).0.len(),
                    _ => rs::parse_on(Feed::new(&a, Cut::Whole), 0, a.len()).0.len(),
                };
                let at = match case[1] {
                    0 => 3.min(total),
                    1 => total / 2,
                    // The emitter stops before the end, a reader at it.
                    _ if kind == "ebig" => total.saturating_sub(2),
                    _ => total + 1,
                };
                AFTER.iter().try_for_each(|b| {
                    if kind == "big" {
                        self.parser(&a, at, b.as_bytes(), case[0] % 4, ctx)
                    } else {
                        self.emitter(&a, at, b.as_bytes(), case[0] % 4, ctx)
                    }
                    .map(|_| ())
                })
                .map(|()| false)
            }
            "again" => {
                let n = u32::from_le_bytes(case[..4].try_into().unwrap()) as usize;
                let Some(a) = LEFT.get(case[6] as usize) else { return V::Skip };
                if n > 100_000 {
                    return V::Skip;
                }
                AFTER.iter().try_for_each(|b| self.again(a.as_bytes(), n, [1, 3, 6, 1000][case[5] as usize % 4], b.as_bytes(), case[4] % 5, ctx)).map(|()| false)
            }
            "reset" | "ereset" => {
                let (Some(a), Some(b)) = (LEFT.get(case[2] as usize), RIGHT.get(case[3] as usize)) else { return V::Skip };
                let (k, a, b) = (case[1] as usize, a.as_bytes(), b.as_bytes());
                if kind == "reset" {
                    self.parser(a, k, b, case[0] % 4, ctx)
                } else {
                    self.emitter(a, k, b, case[0] % 4, ctx)
                }
            }
            "greset" | "gereset" => {
                if case[2] == 0 && case[3] != 0 || case[4] == 0 && case[5] != 0 {
                    return V::Dup;
                }
                let (Some(a), Some(b)) = (pieces(&case[2..4]), pieces(&case[4..6])) else { return V::Skip };
                if kind == "greset" {
                    self.parser(&a, case[1] as usize, &b, case[0] % 4, ctx)
                } else {
                    self.emitter(&a, case[1] as usize, &b, case[0] % 4, ctx)
                }
            }
            "inter" => {
                let (Some(a), Some(b)) = (LEFT.get(case[0] as usize), RIGHT.get(case[1] as usize)) else { return V::Skip };
                self.interleave(a, b, case[2] as u32 | (case[3] as u32) << 8, ctx).map(|_| false)
            }
            _ => return V::Skip,
        };
        match r {
            Ok(true) => V::Skip,
            Ok(false) => {
                ctx.outcome(case);
                V::Ok
            }
            Err(e) => V::Bad(e),
        }
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind.ends_with("big") && case.len() == 9 {
            let n = u32::from_le_bytes(case[2..6].try_into().unwrap());
            return format!("{kind} variant {}, stopping point {}, {:?} with {} characters at {} repeated {n} times", case[0], case[1], spaces::SNIPPETS.get(case[6] as usize), case[8], case[7]);
        }
        if kind == "again" && case.len() == 7 {
            let n = u32::from_le_bytes(case[..4].try_into().unwrap());
            return format!("entry point {}, {n} resets after {} steps of {:?}", case[4], [1, 3, 6, 1000][case[5] as usize % 4], LEFT.get(case[6] as usize));
        }
        if case.len() == 6 {
            let p = |x| show(&pieces(x).unwrap_or_default());
            return format!("{kind} variant {}, {} steps of {}, then {}", case[0], case[1], p(&case[2..4]), p(&case[4..6]));
        }
        if case.len() != 4 {
            return show(case);
        }
        if kind == "inter" {
            return format!(
                "streams {:?} and {:?}, schedule {:010b}",
                LEFT.get(case[0] as usize),
                RIGHT.get(case[1] as usize),
                case[2] as u32 | (case[3] as u32) << 8
            );
        }
        format!(
            "{kind} variant {}, {} steps of {:?}, then {:?}",
            case[0],
            case[1],
            LEFT.get(case[2] as usize),
            RIGHT.get(case[3] as usize)
        )
    }
}

// ------------------------------------------------------------------- C20

struct Docs;
/// Does the text begin with a document marker?
fn marked(t: &[u8]) -> bool {
    matches!(t.strip_prefix(b"---"), Some([]) | Some([b' ' | b'\t' | b'\n' | b'\r', ..]))
}
impl Docs {
    /// With the first document ended by "..." and, where the later part
    /// starts a document by itself, also by nothing.
    fn one(&self, a: &[u8], b: &[u8], ctx: &mut Ctx) -> Result<bool, String> {
        let any = self.joined(a, b, true, ctx)?;
        if any && marked(b) {
            self.joined(a, b, false, ctx).map_err(|e| format!("without \"...\" in between, {e}"))?;
        }
        Ok(any)
    }
    fn joined(&self, a: &[u8], b: &[u8], dots: bool, ctx: &mut Ctx) -> Result<bool, String> {
        let mut left = a.to_vec();
        if !left.is_empty() && !left.ends_with(b"\n") {
            left.push(b'\n');
        }
        if dots {
            left.extend(b"...\n");
        }
        let (la, ea) = rs::parse_on(&left[..], 0, left.len());
        if ea != End::Done || la.len() <= 2 {
            return Ok(false);
        }
        let lines = Lines(&left);
        // A byte order mark is not part of the text.
        let off = left.len() - if left.starts_with(b"\xef\xbb\xbf") { 3 } else { 0 };
        let count = lines.count();
        let shift = |m: &Mk| Mk { idx: m.idx + off as u64, line: m.line + count, col: m.col };
        let (lb, eb) = rs::parse_on(b, 0, b.len());
        let mut want: Vec<M<Ev>> = la[..la.len() - 1].to_vec();
        want.extend(lb.iter().skip(1).map(|e| M { v: e.v.clone(), s: shift(&e.s), e: shift(&e.e) }));
        let end = match eb {
            End::Err(mut e) => {
                e.pmark = e.pmark.map(|m| shift(&m));
                e.cmark = e.cmark.map(|m| shift(&m));
                e.display.clear();
                End::Err(e)
            }
            x => x,
        };
        let mut both = left.clone();
        both.extend(b);
        let (r, mut re) = rs::parse_on(&both[..], 0, both.len());
        if let End::Err(e) = &mut re {
            e.display.clear();
        }
        same_run(&(r, re), &(want, end)).map_err(|e| format!("in one stream: {e}"))?;
        // The same for loaded documents.
        let (da, ea) = rs::load_on(&left[..], 0, left.len());
        if ea == End::Done {
            let (db, eb) = rs::load_on(b, 0, b.len());
            let (d, e) = rs::load_on(&both[..], 0, both.len());
            let mut want = da;
            want.extend(db.into_iter().map(|mut d| {
                d.s = shift(&d.s);
                d.e = shift(&d.e);
                for n in &mut d.nodes {
                    n.s = shift(&n.s);
                    n.e = shift(&n.e);
                }
                d
            }));
            if d != want {
                return Err(format!("documents loaded from one stream differ: {d:?} instead of {want:?}"));
            }
            let k = |e: &End| match e {
                End::Err(e) => Some((e.kind, e.problem.clone(), e.context.clone())),
                _ => None,
            };
            if k(&e) != k(&eb) {
                return Err(format!("loading from one stream ends with {}, alone {}", e.brief(), eb.brief()));
            }
            ctx.trans += d.len() as u64;
        }
        ctx.trans += lb.len() as u64;
        ctx.states.insert(hash(&lb.iter().map(|e| &e.v).collect::<Vec<_>>()));
        ctx.outcome(&(a, b));
        Ok(true)
    }
}
struct Lines<'a>(&'a [u8]);
impl Lines<'_> {
    fn count(&self) -> u64 {
        let t = std::str::from_utf8(self.0).unwrap();
        let mut n = 0;
        let mut it = t.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\r' if it.peek() == Some(&'\n') => {}
                '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}' => n += 1,
                _ => {}
            }
        }
        n
    }
}
const D_ATOMS: &[&str] = &[
    "a\n", "- ", "&a ", "*a ", "&b ", "%TAG !e! x:\n", "%TAG ! y:\n", "%TAG !! z:\n", "%YAML 1.1\n", "--- ", "!e!t ", "!t ", "!!t ", "[", "]", "b: ", "|\n  x\n", "'q'\n", "{", "}", "? ", "\n",
];
impl Prop for Docs {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "every first document of the declared space is followed in one stream by every declared later part; its events, documents and errors must be those of the later part alone with positions shifted; a state is the event sequence of the later part"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let t = thorough as usize;
        let right: Vec<Vec<u8>> = self.rights();
        let mut v = vec![];
        for (i, r) in right.iter().enumerate() {
            let mut suffix = vec![0xff];
            suffix.extend(r);
            v.push(Scope {
                kind: "pair",
                name: format!("all first documents of at most {} atoms before text {i} {}", if i < 6 { 4 + t } else { 3 + t }, show(r)),
                gen: Gen::Tree {
                    prefix: vec![],
                    atoms: D_ATOMS.iter().map(|a| a.as_bytes().to_vec()).collect(),
                    suffixes: vec![suffix],
                    depth: if i < 6 { 4 + t } else { 3 + t },
                    filter: None,
                },
            });
        }
        for (i, l) in LEFT.iter().chain(PROBES.iter()).enumerate() {
            let mut prefix = l.as_bytes().to_vec();
            prefix.push(0xff);
            prefix.extend(b"---");
            v.push(Scope {
                kind: "pair",
                name: format!("all later parts of at most {} atoms after text {i} {}", 3 + t, show(l.as_bytes())),
                gen: Gen::Tree {
                    prefix,
                    atoms: [" a\n", " - ", "&a ", " *a ", " *n ", "\n%TAG !e! q:\n", " !e!t ", " !t ", " !!t ", "\n--- ", "\n...\n", "b: ", " [", "]", "\n%YAML 1.1\n", " |\n  x\n", "*d "]
                        .iter()
                        .map(|a| a.as_bytes().to_vec())
                        .collect(),
                    suffixes: vec![vec![]],
                    depth: 3 + t,
                    filter: None,
                },
            });
        }
        // Everything after itself: whatever carries over is there twice.
        let many: &[usize] = if thorough { &[1, 2, 3, 8, 9, 16, 17, 33, 65, 130, 257, 600, 1025, 4100, 65_537] } else { &[1, 2, 9, 17, 130, 257, 600, 1025] };
        v.push(spaces::numbered("self", many));
        v.push(spaces::stretched("self", if thorough { &[2, 9, 17, 65, 130, 257, 600, 1025] } else { &[9, 130, 1025] }, 2, true));
        v.push(spaces::nested("self", &[1, 2, 9, 33, 65, 129, 257]));
        v.push(spaces::long_lite("long", thorough));
        // Many documents, and a different one.
        let runs: &[u32] = if thorough { &[2, 3, 9, 17, 33, 65, 129, 255, 256, 257, 600, 1025, 65_536] } else { &[3, 9, 17, 65, 129, 256, 257, 600] };
        let (nl, nr) = (LEFT.len() as u64, right.len() as u64);
        v.push(index("run", format!("{runs:?} documents of {nl} texts before {nr} texts"), nl * nr * runs.len() as u64, move |i| {
            let mut c = runs[(i / nl / nr) as usize].to_le_bytes().to_vec();
            c.extend([(i % nl) as u8, (i / nl % nr) as u8]);
            c
        }));
        v.push(index("run", format!("66 000 documents of {nl} texts before another text"), nl * 2, move |i| {
            let mut c = 66_000u32.to_le_bytes().to_vec();
            c.extend([(i % nl) as u8, (i / nl) as u8]);
            c
        }));
        // Many documents: the n-th is read like the first.
        v.push(index("many", format!("runs of up to 600 documents of {} texts", RIGHT.len()), RIGHT.len() as u64 * 12, |i| {
            let n = [2u32, 3, 5, 9, 17, 33, 65, 100, 129, 255, 257, 600][(i % 12) as usize];
            let mut v = n.to_le_bytes().to_vec();
            v.push((i / 12) as u8);
            v
        }));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        match kind {
            "pair" => {
                let Some(p) = case.iter().position(|b| *b == 0xff) else { return V::Skip };
                if !marked(&case[p + 1..]) && !case[p + 1..].starts_with(b"%") {
                    return V::Skip;
                }
                match self.one(&case[..p], &case[p + 1..], ctx) {
                    Ok(true) => V::Ok,
                    // Extensions can still close what is open.
                    Ok(false) => {
                        ctx.count("first part not a complete stream", 1);
                        V::Ok
                    }
                    Err(e) => V::Bad(e),
                }
            }
            "self" | "long" => {
                let Some(t) = (if kind == "self" { Some(case.to_vec()) } else { spaces::input(kind, case) }) else { return V::Skip };
                let mut later = t.clone();
                if !t.starts_with(b"%") && !marked(&t) {
                    later = b"---\n".to_vec();
                    later.extend(&t);
                }
                let others = self.rights();
                for b in [&later[..], &others[0], &others[1], &others[9]] {
                    match self.one(&t, b, ctx) {
                        Ok(true) => {}
                        Ok(false) => {
                            ctx.count("first part not a complete stream", 1);
                            return V::Ok;
                        }
                        Err(e) => return V::Bad(e),
                    }
                }
                V::Ok
            }
            "run" => {
                let &[n0, n1, n2, n3, a, b] = case else { return V::Skip };
                let n = u32::from_le_bytes([n0, n1, n2, n3]) as usize;
                let rights = self.rights();
                let (Some(a), Some(b)) = (LEFT.get(a as usize), rights.get(b as usize)) else { return V::Skip };
                if n > 100_000 {
                    return V::Skip;
                }
                let mut one = a.as_bytes().to_vec();
                if !one.starts_with(b"%") && !marked(&one) && !one.starts_with(b"\xef\xbb\xbf") {
                    one.splice(0..0, b"---\n".iter().copied());
                }
                if !one.ends_with(b"\n") {
                    one.push(b'\n');
                }
                for end in ["...\n", ""] {
                    let mut x = one.clone();
                    x.extend(end.as_bytes());
                    match self.one(&x.repeat(n), b, ctx) {
                        Ok(_) => {}
                        Err(e) => return V::Bad(e),
                    }
                }
                V::Ok
            }
            "many" => {
                if case.len() != 5 {
                    return V::Skip;
                }
                let n = u32::from_le_bytes(case[..4].try_into().unwrap()) as usize;
                let Some(t) = RIGHT.get(case[4] as usize) else { return V::Skip };
                let dotted = if t.starts_with('%') || t.starts_with("---") { format!("{t}...\n") } else { format!("--- {}{t}...\n", if t.contains([':', '-', '?']) { "\n" } else { "" }) };
                let bare = dotted.strip_suffix("...\n").filter(|t| t.starts_with("---")).map(|t| if t.ends_with('\n') { t.to_string() } else { format!("{t}\n") });
                for (what, one) in [("dotted", Some(dotted.clone())), ("bare", bare)] {
                let Some(one) = one else { continue };
                let (l1, e1) = rs::parse_on(one.as_bytes(), 0, one.len());
                if e1 != End::Done {
                    continue;
                }
                let body: Vec<&Ev> = l1[1..l1.len() - 1].iter().map(|e| &e.v).collect();
                let all = one.repeat(n.min(1000));
                let (r, e) = rs::parse_on(all.as_bytes(), 0, all.len());
                if e != End::Done || r.len() != body.len() * n + 2 {
                    return V::Bad(format!("{n} {what} copies give {} events, {}", r.len(), e.brief()));
                }
                for (k, x) in r[1..r.len() - 1].iter().enumerate() {
                    if &x.v != body[k % body.len()] {
                        return V::Bad(format!("{what} copy {}: {:?} instead of {:?}", k / body.len(), x.v, body[k % body.len()]));
                    }
                }
                let (d1, x1) = rs::load_on(one.as_bytes(), 0, one.len());
                let (d, x) = rs::load_on(all.as_bytes(), 0, all.len());
                let vals = |d: &Doc| (d.version, d.tags.clone(), d.nodes.iter().map(|n| (n.tag.clone(), n.v.clone())).collect::<Vec<_>>());
                if x1 == End::Done && (x != End::Done || d.len() != d1.len() * n || d.iter().enumerate().any(|(k, y)| vals(y) != vals(&d1[k % d1.len()]))) {
                    return V::Bad(format!("{n} {what} copies load as {} documents, {}", d.len(), x.brief()));
                }
                ctx.trans += r.len() as u64;
                }
                ctx.states.insert(hash(&(n, t)));
                V::Ok
            }
            _ => V::Skip,
        }
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind == "self" || kind == "long" {
            return format!("{} and itself again", show(&spaces::input(kind, case).unwrap_or(case.to_vec())));
        }
        if let ("run", &[n0, n1, n2, n3, a, b]) = (kind, case) {
            let r = self.rights();
            return format!("{} copies of {:?} before {}", u32::from_le_bytes([n0, n1, n2, n3]), LEFT.get(a as usize), r.get(b as usize).map_or(String::new(), |r| show(r)));
        }
        if kind == "many" && case.len() == 5 {
            return format!("{} copies of {:?}", u32::from_le_bytes(case[..4].try_into().unwrap()), RIGHT.get(case[4] as usize));
        }
        match case.iter().position(|b| *b == 0xff) {
            Some(p) => format!("{} then {}", show(&case[..p]), show(&case[p + 1..])),
            None => show(case),
        }
    }
}
impl Docs {
    fn rights(&self) -> Vec<Vec<u8>> {
        [
            "--- !e!a &a [*a, !t b, !!s c]\n", "%TAG !e! q:\n--- !e!a b\n", "--- *a\n", "--- !t [&b x, *b, !!t y]\n--- *b\n", "%YAML 1.1\n--- a\n", "--- a\n", "---\n- b\n- c: d\n", "--- ]\n",
            "--- |\n x\n", "%YAML 1.2\n%TAG ! w:\n--- !a b\n...\n--- !a c\n", "--- !e!a b\n", "---\n", "%TAG !! v:\n--- !!a b\n", "--- {a: b}: c: d\n", "--- 'a\n", "---\n? - a\n: b\n",
        ]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect()
    }
}
