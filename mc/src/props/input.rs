//! C06 read chunking, C07 encodings, C08 character repertoire, C09 reader
//! faults, C22 position and size independence.
use super::spaces;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::rs;
use libyaml_safer as l;
use std::io::{self, BufRead, Read};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Chunks), Box::new(Encodings), Box::new(Chars), Box::new(ReadFaults), Box::new(Padding)]
}

pub fn is_reader(e: &End) -> bool {
    matches!(e, End::Err(e) if matches!(e.kind, EKind::Reader | EKind::Io))
}

/// Same items and same end; a reader error may come earlier or later, because
/// how far ahead of the items the text is decoded is not observable API.
pub fn same_run<T: PartialEq + std::fmt::Debug>(a: &(Vec<M<T>>, End), b: &(Vec<M<T>>, End)) -> Result<(), String> {
    for (k, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        if x != y {
            return Err(format!("item {k}: {x:?} instead of {y:?}"));
        }
    }
    if let End::Panic(p) = &a.1 {
        return Err(format!("panic: {p}"));
    }
    if a.1.is_err() && b.1.is_err() && (is_reader(&a.1) || is_reader(&b.1)) {
        return Ok(());
    }
    if a.0.len() != b.0.len() {
        let k = a.0.len().min(b.0.len());
        let f = |r: &(Vec<M<T>>, End)| r.0.get(k).map_or(r.1.brief(), |x| format!("{x:?}"));
        return Err(format!("item {k}: {} instead of {}", f(a), f(b)));
    }
    if a.1 != b.1 {
        return Err(format!("{} instead of {}", a.1.brief(), b.1.brief()));
    }
    Ok(())
}

// ------------------------------------------------------------------- sources

/// Fails reads with ErrorKind::Interrupted, `times` in a row, before every
/// buffer.
struct Interrupting<'a> {
    f: Feed<'a>,
    times: usize,
    left: usize,
}
impl Interrupting<'_> {
    fn go(&mut self) -> io::Result<()> {
        if self.left > 0 {
            self.left -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.left = self.times;
        Ok(())
    }
}
impl Read for Interrupting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.go()?;
        self.f.read(buf)
    }
}
impl BufRead for Interrupting<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.go()?;
        self.f.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.f.consume(n)
    }
}

/// Fails when `at` bytes have been handed out, once or persistently.
struct Failing<'a> {
    f: Feed<'a>,
    at: usize,
    once: bool,
    kind: io::ErrorKind,
    hits: usize,
}
impl Failing<'_> {
    fn fail(&mut self) -> io::Result<()> {
        if self.f.pos >= self.at && !(self.once && self.hits > 0) {
            self.hits += 1;
            return Err(io::Error::new(self.kind, "injected"));
        }
        Ok(())
    }
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.fail()?;
        let left = if self.f.pos < self.at { self.at - self.f.pos } else { usize::MAX };
        let n = buf.len().min(left);
        self.f.read(&mut buf[..n])
    }
}
impl BufRead for Failing<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.fail()?;
        let left = if self.f.pos < self.at { self.at - self.f.pos } else { usize::MAX };
        let b = self.f.fill_buf()?;
        Ok(&b[..b.len().min(left)])
    }
    fn consume(&mut self, n: usize) {
        self.f.consume(n)
    }
}

pub fn utf16(text: &str, be: bool, bom: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut put = |u: u16| v.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
    if bom {
        put(0xfeff);
    }
    for u in text.encode_utf16() {
        put(u);
    }
    v
}

// ------------------------------------------------------------------- C06

struct Chunks;
const CHUNK_ATOMS: &[&[u8]] = &[
    b"a", b"- ", b"\n", b"\r\n", b": ", b"\xc3\xa9", b"\xe2\x80\xa8", b"\xf0\x9f\x8e\x89", b"\xc2\x85", b"\xef\xbb\xbf", b"\xef\xbf\xbd", b"\"", b"'",
    b"|\n", b"  ", b"#", b"...", b"---", b"\\", b"[", b"\xff", b"\xe2\x28", b"\xc3",
];
impl Chunks {
    fn one(&self, inp: &[u8], ctx: &mut Ctx) -> Result<(), String> {
        let n = inp.len();
        let base = rs::scan_on(&mut Feed::new(inp, Cut::Whole), 0, n);
        let pbase = rs::parse_on(&mut Feed::new(inp, Cut::Whole), 0, n);
        let mut cuts: Vec<Cut> = vec![];
        if n <= 9 {
            for m in 0u32..1 << n.saturating_sub(1) {
                cuts.push(Cut::At((0..n - n.min(1)).filter(|i| m >> i & 1 == 1).map(|i| i + 1).collect()));
            }
        } else {
            for i in 1..n.min(400) {
                cuts.push(Cut::At(vec![i]));
                if n <= 24 {
                    for j in i + 1..n {
                        cuts.push(Cut::At(vec![i, j]));
                    }
                } else if i + 1 < n {
                    cuts.push(Cut::At(vec![i, i + 1]));
                }
            }
            cuts.extend((1..=n.min(17)).map(Cut::Fixed));
        }
        for cut in cuts {
            let r = rs::scan_on(&mut Feed::new(inp, cut.clone()), 0, n);
            same_run(&r, &base).map_err(|e| format!("read as {cut:?} instead of at once: {e}"))?;
            ctx.trans += r.0.len() as u64;
            ctx.count("chunkings compared", 1);
            ctx.states.insert(hash(&(&r.0, format!("{cut:?}"))));
        }
        for cut in [Cut::Whole, Cut::Fixed(1), Cut::Fixed(2), Cut::Fixed(3)] {
            let bursts: &[(usize, usize)] = match cut {
                Cut::Whole => &[(1, 1), (1, 0), (300, 300), (5, 5)],
                Cut::Fixed(2) => &[(1, 1), (1, 0), (2, 2), (33, 33)],
                _ => &[(1, 1), (1, 0)],
            };
            for &(times, left) in bursts {
                let r = rs::scan_on(&mut Interrupting { f: Feed::new(inp, cut.clone()), times, left }, 0, n);
                same_run(&r, &base).map_err(|e| format!("read as {cut:?} with {times} interruptions of every read ({left} of the first): {e}"))?;
            }
            let r = rs::parse_on(&mut Feed::new(inp, cut.clone()), 0, n);
            same_run(&r, &pbase).map_err(|e| format!("parsed as {cut:?}: {e}"))?;
        }
        // The readers users have.
        for cap in [1, 2, 3, 7, 64] {
            let r = rs::scan_on(io::BufReader::with_capacity(cap, inp), 0, n);
            same_run(&r, &base).map_err(|e| format!("through a BufReader of {cap}: {e}"))?;
        }
        let r = rs::scan_on(io::Cursor::new(inp), 0, n);
        same_run(&r, &base).map_err(|e| format!("through a Cursor: {e}"))?;
        let mut s: &[u8] = inp;
        let mut sc = l::Scanner::default();
        sc.set_input_string(&mut s);
        let r = rs::drive(64 + 8 * n, |t| *t == Tok::StreamEnd, || l::Scanner::scan(&mut sc).map(rs::tok));
        same_run(&r, &base).map_err(|e| format!("through set_input_string: {e}"))?;
        let mut s: &[u8] = inp;
        let mut pa = l::Parser::default();
        pa.set_input_string(&mut s);
        let r = rs::drive(64 + 8 * n, |t| *t == Ev::StreamEnd, || pa.parse().map(rs::ev));
        same_run(&r, &pbase).map_err(|e| format!("through the parser's set_input_string: {e}"))?;
        let k = n / 2;
        let r = rs::scan_on(Read::chain(&inp[..k], &inp[k..]), 0, n);
        same_run(&r, &base).map_err(|e| format!("through Read::chain at {k}: {e}"))?;
        ctx.outcome(&(&base.0, base.1.is_err()));
        Ok(())
    }
}
pub fn bytes_tree(kind: &'static str, name: &str, prefix: &[u8], atoms: &[&[u8]], suffixes: &[&[u8]], depth: usize) -> Scope {
    Scope {
        kind,
        name: format!("{name} (all sequences of at most {depth} of {} atoms)", atoms.len()),
        gen: Gen::Tree {
            prefix: prefix.to_vec(),
            atoms: atoms.iter().map(|a| a.to_vec()).collect(),
            suffixes: suffixes.iter().map(|a| a.to_vec()).collect(),
            depth,
            filter: None,
        },
    }
}
/// Texts whose parsing looks ahead over several characters.
pub const PROBES: &[&str] = &[
    "a: b\r\n\r\nc: \"d\\\r\n  e\\u263a\\U0001F389\"\r\n",
    "--- |2-\r\n   a\u{85}   b\u{2028}   c\n...\n--- >+\n x\n\n y\n\n",
    "%YAML 1.1\n%TAG !e! tag:x,%C3%A9:\n--- !e!f%E2%98%83 &a [*a, {b: c}, ? d : e]\n...\n",
    "- 'it''s\r\n  \u{e9}\u{1f389}'\n- plain text\r  over \u{2029}  lines # comment\r\n- ? k\n  : v\n",
    "\u{feff}# c\r\n\u{feff}\n---\u{2028}...\u{85}\n",
    "a:\r\n- b\r\n- - c\r\n  - d\r\n-\r\n  e: |\r\n   f\r\n\r\n   g\r\n  h: i\r\n",
    "{a, b: , \"c\":d, ? , : e, [f]: g}\n---\r---\r\na\r\n...\r\n",
    "\u{fffd}\u{e000}\u{d7ff}\u{10ffff}: \u{a0}\u{10000}\n",
];
/// Many different short streams, for the properties that combine streams.
pub fn probes() -> Vec<Vec<u8>> {
    PROBES.iter().map(|p| p.as_bytes().to_vec()).collect()
}
impl Prop for Chunks {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "for every input, every placement of buffer boundaries (all subsets of cut points up to 9 bytes, all pairs up to 24, singles and neighbours beyond), interruption before every read and several standard readers must give the tokens, marks and error of one whole read; a state is the token sequence under one chunking"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let t = thorough as usize;
        let mut v = vec![
            bytes_tree("chunk", "short inputs", b"", CHUNK_ATOMS, &[b""], 4 + t),
            bytes_tree("chunk", "UTF-16LE", b"\xff\xfe", &[b"a\0", b"\n\0", b"\r\0", b"\xe9\0", b"\x3c\xd8\x89\xdf", b"(\x20", b"\"\0", b"-\0", b"\x00\xd8", b"x"], &[b""], 3 + t),
            bytes_tree("chunk", "UTF-16BE", b"\xfe\xff", &[b"\0a", b"\0\n", b"\0\r", b"\0\xe9", b"\xd8\x3c\xdf\x89", b"\x20(", b"\0\"", b"\0-", b"\xd8\x00", b"x"], &[b""], 3 + t),
            bytes_tree("chunk", "byte order marks", b"", &[b"\xef", b"\xbb", b"\xbf", b"\xff", b"\xfe", b"\0", b"a", b"\xc3", b"\xa9"], &[b""], 4 + t),
            list("chunk", "look-ahead texts", probes()),
        ];
        let mut u = vec![];
        for p in PROBES {
            for be in [false, true] {
                u.push(utf16(p, be, true));
            }
        }
        v.push(list("chunk", "look-ahead texts in UTF-16", u));
        v.push(spaces::long_lite("long", thorough));
        v.push(list("chunk", "constructs", spaces::snippets()));
        let mut all = probes();
        all.extend(spaces::snippets());
        v.push(spaces::across("far", all, &[64, 128, 256, 1024, 4096, 8192, 16_384, 32_768, 65_536, 131_072]));
        let at: &[usize] = if thorough { &[200, 1025, 4096, 16_384, 40_000, 65_536, 70_000] } else { &[200, 1025, 70_000] };
        v.push(spaces::stretched("far", at, 1, false));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        match kind {
            "far" => {
                let n = case.len();
                let base = rs::scan_on(&mut Feed::new(case, Cut::Fixed(1000)), 0, n);
                for k in [Cut::Whole, Cut::Fixed(4096), Cut::Fixed(16_384), Cut::At(vec![n / 2]), Cut::At(vec![n - n.min(2)])] {
                    let r = rs::scan_on(&mut Feed::new(case, k.clone()), 0, n);
                    if let Err(e) = same_run(&r, &base) {
                        return V::Bad(format!("read as {k:?} instead of in pieces of 1000: {e}"));
                    }
                    ctx.trans += r.0.len() as u64;
                    ctx.count("chunkings compared", 1);
                }
                ctx.states.insert(hash(&base.0));
                V::Ok
            }
            "chunk" => match self.one(case, ctx) {
                Ok(()) => V::Ok,
                Err(e) => V::Bad(e),
            },
            "long" => {
                let Some(inp) = spaces::input(kind, case) else { return V::Skip };
                let n = inp.len();
                if n > 40_000 || n < 64 {
                    return V::Skip;
                }
                let base = rs::scan_on(&mut Feed::new(&inp, Cut::Whole), 0, n);
                for k in [1, 3, 511, 1024, 4095, 8191, 8192, 16383, 16384] {
                    let r = rs::scan_on(&mut Feed::new(&inp, Cut::Fixed(k)), 0, n);
                    if let Err(e) = same_run(&r, &base) {
                        return V::Bad(format!("read in buffers of {k}: {e}"));
                    }
                    ctx.trans += r.0.len() as u64;
                    ctx.count("chunkings compared", 1);
                }
                ctx.states.insert(hash(&base.0));
                V::Ok
            }
            _ => V::Skip,
        }
    }
}

// ------------------------------------------------------------------- C07

struct Encodings;
impl Encodings {
    fn one(&self, text: &str, all: bool, ctx: &mut Ctx) -> Result<(), String> {
        let n = text.len();
        let plain = !text.starts_with('\u{feff}');
        let base = rs::scan_on(&mut Feed::new(text.as_bytes(), Cut::Whole), 0, n);
        let pbase = if all { Some(rs::parse_on(&mut Feed::new(text.as_bytes(), Cut::Whole), 0, n)) } else { None };
        let mut bom = b"\xef\xbb\xbf".to_vec();
        bom.extend(text.as_bytes());
        // bytes, declared encoding, encoding the stream start must name
        let mut forms: Vec<(Vec<u8>, u8, u8, &str)> = vec![
            (utf16(text, false, true), 0, 2, "UTF-16LE with a byte order mark"),
            (utf16(text, true, true), 0, 3, "UTF-16BE with a byte order mark"),
            (utf16(text, false, false), 2, 2, "declared UTF-16LE"),
            (utf16(text, true, false), 3, 3, "declared UTF-16BE"),
            (text.as_bytes().to_vec(), 1, 1, "declared UTF-8"),
        ];
        if plain {
            forms.push((bom, 0, 1, "UTF-8 with a byte order mark"));
        } else {
            // The base already lost its own mark.
            forms.truncate(0);
            let t = &text[3..];
            forms.push((utf16(t, false, true), 0, 2, "UTF-16LE with a byte order mark"));
            forms.push((utf16(t, true, true), 0, 3, "UTF-16BE with a byte order mark"));
        }
        let cuts: &[Cut] = if all { &[Cut::Whole, Cut::Fixed(1), Cut::Fixed(2), Cut::Fixed(3), Cut::Fixed(5)] } else { &[Cut::Whole, Cut::Fixed(3)] };
        for (b, declared, want, name) in &forms {
            for cut in cuts {
                let mut r = rs::scan_on(&mut Feed::new(b, cut.clone()), *declared, b.len());
                if let Some(x) = r.0.first_mut() {
                    if x.v != Tok::StreamStart(*want) {
                        return Err(format!("{name}: the stream starts with {:?}", x.v));
                    }
                    x.v = base.0.first().map_or(Tok::StreamEnd, |x| x.v.clone());
                }
                same_run(&r, &base).map_err(|e| format!("{name}, {cut:?}: {e}"))?;
                ctx.trans += r.0.len() as u64;
                ctx.count("encoded forms compared", 1);
                if let Some(pb) = &pbase {
                    let mut r = rs::parse_on(&mut Feed::new(b, cut.clone()), *declared, b.len());
                    if let (Some(x), Some(y)) = (r.0.first_mut(), pb.0.first()) {
                        x.v = y.v.clone();
                    }
                    same_run(&r, pb).map_err(|e| format!("{name}, {cut:?}, events: {e}"))?;
                }
            }
            ctx.states.insert(hash(b));
        }
        ctx.outcome(&(&base.0, base.1.is_err()));
        Ok(())
    }
}
impl Prop for Encodings {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "every text is encoded in six forms (UTF-8 with and without byte order mark, UTF-16 of both orders, detected and declared) and read under several chunkings; tokens, values, marks and errors must be those of the UTF-8 text; a state is one encoded form"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let t = thorough as usize;
        let step = if thorough { 1 } else { 7 };
        let cps: Vec<u32> = (0..0x11_0000u32)
            .filter(|c| char::from_u32(*c).is_some())
            .filter(|c| *c < 0x3000 || c % step == 0 || c & 0xff < 2 || c & 0xff > 0xfd)
            .collect();
        vec![
            tree("enc", "characters", spaces::CHARS, 3),
            tree(
                "enc",
                "wide characters and breaks",
                &["a", "\n", "\r", "\u{e9}", "\u{1f389}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{feff}", "\u{2028}", "\u{85}", "- ", "\"", "#"],
                4 + t,
            ),
            tree("enc", "lexical atoms", spaces::ATOMS, 3 + t),
            list("enc", "look-ahead texts", probes()),
            index("cp", format!("{} code points in three positions", cps.len()), cps.len() as u64, move |i| {
                let c = char::from_u32(cps[i as usize]).unwrap();
                format!("- a{c}b\n- \"{c}\"\n- {c} # {c}\n").into_bytes()
            }),
            spaces::long_lite("long", thorough),
            list("enc", "constructs", spaces::snippets()),
            // Half as many characters as bytes in UTF-16.
            spaces::across("cp", spaces::snippets(), &[64, 512, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536]),
            spaces::stretched("cp", if thorough { &[200, 1025, 16_384, 33_000, 70_000] } else { &[200, 1025, 33_000] }, 1, false),
        ]
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let inp = match kind {
            "long" => match spaces::input(kind, case) {
                Some(x) if x.len() <= 40_000 => x,
                _ => return V::Skip,
            },
            _ => case.to_vec(),
        };
        let Ok(t) = std::str::from_utf8(&inp) else { return V::Skip };
        match self.one(t, kind == "enc", ctx) {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        }
    }
}

// ------------------------------------------------------------------- C08

struct Chars;
/// The characters a YAML 1.1 stream may hold, from the specification.
pub fn allowed_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{7e}' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
/// Characters and what is none.
const BAD8: &[&[u8]] = &[
    b"\x07", b"\x7f", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xef\xbf\xbe", b"\0", b"\x1b", b"\x80", b"\xc0\x80", b"\xe2\x98", b"\xf0\x9f\x8e", b"\xf4\x90\x80\x80", b"\xc2\x80", b"\xc2\x9f", b"\xef\xbb\xbf", b"\xf0\x9f\x8e\x89", b"\xe2\x98\x83", b"b",
];
const BAD16: &[&[u16]] = &[&[7], &[0x7f], &[0xd800], &[0xdc00], &[0xfffe], &[0], &[0xd83c, 0x41], &[0xdc00, 0xd800], &[0x80], &[0x9f], &[0xffff], &[0xfeff], &[0xd83c, 0xdf89], &[0x62], &[0x85]];
impl Chars {
    /// What the stream holds, or None when it must be rejected.
    fn decode(bytes: &[u8], enc: u8) -> Option<String> {
        let t = if enc <= 1 {
            std::str::from_utf8(bytes).ok()?.to_string()
        } else {
            if bytes.len() % 2 != 0 {
                return None;
            }
            let u: Vec<u16> = bytes
                .chunks(2)
                .map(|x| if enc == 3 { u16::from_be_bytes([x[0], x[1]]) } else { u16::from_le_bytes([x[0], x[1]]) })
                .collect();
            String::from_utf16(&u).ok()?
        };
        t.chars().all(allowed_char).then_some(t)
    }
    /// Byte offset of the first malformed sequence or forbidden character.
    fn first_bad(bytes: &[u8], enc: u8) -> usize {
        if enc <= 1 {
            let n = std::str::from_utf8(bytes).map_or_else(|e| e.valid_up_to(), |t| t.len());
            let t = std::str::from_utf8(&bytes[..n]).unwrap();
            t.char_indices().find(|(_, c)| !allowed_char(*c)).map_or(n, |(i, _)| i)
        } else {
            let u = bytes.chunks_exact(2).map(|x| if enc == 3 { u16::from_be_bytes([x[0], x[1]]) } else { u16::from_le_bytes([x[0], x[1]]) });
            let mut at = 0;
            for c in char::decode_utf16(u) {
                match c {
                    Ok(c) if allowed_char(c) => at += 2 * c.len_utf16(),
                    _ => break,
                }
            }
            at
        }
    }
    /// A reader error must give the offset of what it refuses; an input that
    /// stops inside a character may be an I/O error without one.
    fn offset_ok(e: &End, bytes: &[u8], enc: u8, shift: usize) -> Result<(), String> {
        let End::Err(e) = e else { return Ok(()) };
        let bad = Self::first_bad(bytes, enc);
        match e.kind {
            EKind::Reader => {
                let want = format!("offset {},", bad + shift);
                if e.display.contains(&want) {
                    Ok(())
                } else {
                    Err(format!("the first bad character is at byte {}, the error says {:?}", bad + shift, e.display))
                }
            }
            EKind::Io if bad + 4 <= bytes.len() => Err(format!("a bad character at byte {bad} of {} is reported as {:?}", bytes.len(), e.display)),
            _ => Ok(()),
        }
    }
    fn one(&self, body: &[u8], enc: u8, ctx: &mut Ctx) -> Result<(), String> {
        let pad = |s: &str| if enc <= 1 { s.as_bytes().to_vec() } else { utf16(s, enc == 3, false) };
        let plain = Self::decode(body, enc);
        // In a comment nothing but the repertoire can be an error.
        let mut x = pad("# ");
        x.extend(body);
        for cut in [Cut::Whole, Cut::Fixed(1), Cut::Fixed(2), Cut::At(vec![x.len().saturating_sub(1)])] {
            let n = x.len();
            let (items, end) = rs::parse_on(&mut Feed::new(&x, cut.clone()), enc, n);
            ctx.trans += 1;
            if let End::Panic(p) = &end {
                return Err(format!("{cut:?}: panic: {p}"));
            }
            match (&plain, &end) {
                (Some(_), e) if is_reader(e) => return Err(format!("{cut:?}: well-formed characters rejected: {}", e.brief())),
                (None, e) if !is_reader(e) => return Err(format!("{cut:?}: malformed or forbidden characters accepted ({} events, {})", items.len(), e.brief())),
                (None, e) => Self::offset_ok(e, &x, enc, 0).map_err(|e| format!("{cut:?}: {e}"))?,
                _ => {}
            }
        }
        if enc != 1 {
            // The same with the encoding detected from a byte order mark.
            let mut z: Vec<u8> = match enc {
                0 => vec![0xef, 0xbb, 0xbf],
                2 => vec![0xff, 0xfe],
                _ => vec![0xfe, 0xff],
            };
            let bom = z.len();
            z.extend(&x);
            for cut in [Cut::Whole, Cut::Fixed(1)] {
                let n = z.len();
                let (items, end) = rs::parse_on(&mut Feed::new(&z, cut.clone()), 0, n);
                match (&plain, &end) {
                    (Some(_), e) if is_reader(e) => return Err(format!("after a byte order mark, {cut:?}: well-formed characters rejected: {}", e.brief())),
                    (None, e) if !is_reader(e) => return Err(format!("after a byte order mark, {cut:?}: malformed or forbidden characters accepted ({} events, {})", items.len(), e.brief())),
                    (None, e) => Self::offset_ok(e, &x, enc, bom).map_err(|e| format!("after a byte order mark, {cut:?}: {e}"))?,
                    _ => {}
                }
            }
        }
        // In a quoted scalar the characters themselves must come back.
        let mut y = pad("'");
        y.extend(body);
        y.extend(pad("'"));
        let (items, end) = rs::parse_on(&mut Feed::new(&y, Cut::Whole), enc, y.len());
        match &plain {
            Some(t) if !t.contains(['\'', '\n', '\r', ' ', '\t', '\u{85}', '\u{2028}', '\u{2029}']) => {
                let got = items.iter().find_map(|e| match &e.v {
                    Ev::Scalar { value, .. } => Some(value.clone()),
                    _ => None,
                });
                if got.as_deref() != Some(t.as_bytes()) || end != End::Done {
                    return Err(format!("quoted {t:?} comes back as {:?} ({})", got.map(|g| show(&g)), end.brief()));
                }
                ctx.count("scalars compared", 1);
            }
            None if !is_reader(&end) => return Err(format!("quoted malformed or forbidden characters accepted ({})", end.brief())),
            _ => {}
        }
        ctx.count(if plain.is_some() { "well-formed inputs" } else { "malformed inputs" }, 1);
        ctx.outcome(&(body, enc));
        ctx.states.insert(hash(&(plain, enc)));
        Ok(())
    }
}
impl Prop for Chars {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "every declared byte string is put in a comment and in a quoted scalar; it must be accepted exactly when the standard decoders and the YAML character repertoire accept it, and come back unchanged; a state is the decoded text or its absence"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let step = if thorough { 1 } else { 2 };
        let l2: Vec<u8> = (0u8..=255).collect();
        let cls: Vec<u8> = vec![0x00, 0x0a, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xe0, 0xf0, 0xff, 0xbb, 0xbe, 0xbd];
        let (n2, nc) = (l2.len() as u64, cls.len() as u64);
        let cls2 = cls.clone();
        // Something after many good characters, in one piece or not.
        let mut far = vec![];
        let mut sizes = vec![7usize, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4096, 8192, 16_384];
        if thorough {
            sizes.extend([65_533, 65_534, 65_535, 65_536, 70_000]);
        } else {
            sizes.push(65_536);
        }
        for n in sizes {
            for bad in 0..BAD8.len().max(BAD16.len()) as u8 {
                for good in 0..4u8 {
                    for after in 0..2u8 {
                        for enc in [0u8, 2, 3] {
                            // Wide characters only in a few sizes.
                            if n < 20_000 || good == 0 && after == 0 && (bad < 6 || thorough) {
                                let mut c = (n as u32).to_le_bytes().to_vec();
                                c.extend([bad, good, after, enc]);
                                far.push(c);
                            }
                        }
                    }
                }
            }
        }
        vec![
            list("far", "good and bad characters after many good ones", far),
            index("utf8", "all byte strings of length 1".into(), 256, |i| vec![i as u8]),
            index("utf8", "all byte strings of length 2".into(), 65536, |i| vec![(i >> 8) as u8, i as u8]),
            index("utf8", "all 3-byte strings, third byte by class".into(), n2 * n2 * nc, move |i| {
                vec![(i / (n2 * nc)) as u8, (i / nc % n2) as u8, cls[(i % nc) as usize]]
            }),
            index("utf8", "all 4-byte strings with a lead above 0xdf, last two bytes by class".into(), 32 * n2 * nc * nc, move |i| {
                vec![
                    (0xe0 + i / (n2 * nc * nc)) as u8,
                    (i / (nc * nc) % n2) as u8,
                    cls2[(i / nc % nc) as usize],
                    cls2[(i % nc) as usize],
                ]
            }),
            index("utf16", "all UTF-16 units in both orders".into(), 65536 * 2, |i| vec![(i / 2 >> 8) as u8, (i / 2) as u8, b'0' + (i % 2) as u8]),
            index("utf16", "pairs of UTF-16 units by class".into(), 44 * 44 * 2, |i| {
                let u: [u16; 11] = [0x41, 0xa, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xfeff];
                let a = u[(i / 2 % 11) as usize];
                let b = u[(i / 22 % 11) as usize];
                let mut v = vec![(a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8];
                match i / 242 % 16 {
                    0 => {}
                    k => v.extend([(u[k as usize % 11] >> 8) as u8, u[k as usize % 11] as u8]),
                }
                if i / 242 >= 12 {
                    v.push(0);
                }
                v.push(b'0' + (i % 2) as u8);
                v
            }),
            index("cp", format!("every {step}. code point in three encodings"), 0x11_0000 / step, move |i| (i as u32 * step as u32).to_le_bytes().to_vec()),
        ]
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let r = match kind {
            "utf8" => self.one(case, 0, ctx).and_then(|_| self.one(case, 1, ctx)),
            "utf16" => {
                let Some((o, b)) = case.split_last() else { return V::Skip };
                match o {
                    // Case bytes are in big-endian order.
                    b'1' => self.one(b, 3, ctx),
                    _ => {
                        let mut v = b.to_vec();
                        for x in v.chunks_exact_mut(2) {
                            x.swap(0, 1);
                        }
                        self.one(&v, 2, ctx)
                    }
                }
            }
            "far" => {
                let &[n0, n1, n2, n3, bad, good, after, enc] = case else { return V::Skip };
                let n = u32::from_le_bytes([n0, n1, n2, n3]) as usize;
                let good = ["a", "\u{e9}", "\u{1f389}", "a\u{2603}"][good as usize % 4];
                let after = if after == 0 { String::new() } else { good.repeat(70) };
                let wide = |s: &str| if enc <= 1 { s.as_bytes().to_vec() } else { utf16(s, enc == 3, false) };
                let mut x = wide(&good.repeat(n));
                if enc <= 1 {
                    let Some(b) = BAD8.get(bad as usize) else { return V::Skip };
                    x.extend(*b);
                } else {
                    let Some(b) = BAD16.get(bad as usize) else { return V::Skip };
                    x.extend(b.iter().flat_map(|u| if enc == 3 { u.to_be_bytes() } else { u.to_le_bytes() }));
                }
                x.extend(wide(&after));
                self.one(&x, enc, ctx)
            }
            "cp" => {
                let Ok(x) = case.try_into().map(u32::from_le_bytes) else { return V::Skip };
                let Some(c) = char::from_u32(x) else { return V::Skip };
                let s = c.to_string();
                self.one(s.as_bytes(), 0, ctx)
                    .and_then(|_| self.one(&utf16(&s, false, false), 2, ctx))
                    .and_then(|_| self.one(&utf16(&s, true, false), 3, ctx))
            }
            _ => return V::Skip,
        };
        match r {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        }
    }
    fn render(&self, _kind: &str, case: &[u8]) -> String {
        format!("{case:02x?}")
    }
}

// ------------------------------------------------------------------- C09

struct ReadFaults;
const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
];
impl ReadFaults {
    fn source_kind(e: l::Error) -> Result<io::ErrorKind, String> {
        use std::error::Error as _;
        if e.kind() != l::ErrorKind::Io {
            return Err(format!("a read error is reported as {e}"));
        }
        let k = match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
            Some(x) => x.kind(),
            None => return Err("the error does not carry the read error as its source".into()),
        };
        if !e.to_string().contains("injected") {
            return Err(format!("Display {e} does not give the read error"));
        }
        match io::Error::try_from(e) {
            Ok(x) if x.kind() == k && x.to_string() == "injected" => Ok(k),
            Ok(x) => Err(format!("converts to a different io::Error: {x}")),
            Err(e) => Err(format!("{e} does not convert back to io::Error")),
        }
    }
    fn one(&self, inp: &[u8], ctx: &mut Ctx) -> Result<(), String> {
        let n = inp.len();
        let small = n <= 64;
        // Read byte by byte: of all chunkings, the one that gets furthest
        // before a malformed character.
        let base = rs::parse_on(&mut Feed::new(inp, Cut::Fixed(1)), 0, n);
        let tbase = rs::scan_on(&mut Feed::new(inp, Cut::Fixed(1)), 0, n);
        let lbase = rs::load_on(&mut Feed::new(inp, Cut::Fixed(1)), 0, n);
        for cut in [Cut::Whole, Cut::Fixed(1), Cut::Fixed(3)] {
            for at in 0..=n {
                if !small && at > 40 && at + 40 < n && at % 97 != 0 {
                    continue;
                }
                for (ki, kind) in KINDS.iter().enumerate() {
                    if ki > 0 && (at % KINDS.len() != ki || !matches!(cut, Cut::Whole)) {
                        continue;
                    }
                    ctx.count("faults injected", 1);
                    let modes = if ki == 0 { 2 } else { 1 };
                    for (ep, once) in (0..3 * modes).map(|m| (m % 3, m >= 3)) {
                        let what = || format!("read error {kind:?} after {at} bytes{}, {cut:?}", if once { ", once" } else { "" });
                        let mut src = Failing { f: Feed::new(inp, cut.clone()), at, once, kind: *kind, hits: 0 };
                        let r = rs::guarded(|| -> Result<(), String> {
                            let mut k = 0;
                            if ep == 0 {
                                let mut p = l::Parser::new();
                                p.set_input(&mut src);
                                loop {
                                    match p.parse() {
                                        Ok(e) => {
                                            let e = rs::ev(e);
                                            if base.0.get(k) != Some(&e) {
                                                return Err(format!("event {k} is {e:?}, without the fault {:?}", base.0.get(k)));
                                            }
                                            k += 1;
                                            if e.v == Ev::StreamEnd {
                                                break;
                                            }
                                        }
                                        Err(e) => return self.ended(e, &base.1, *kind, k, base.0.len()),
                                    }
                                }
                            } else if ep == 1 {
                                let mut p = l::Scanner::new();
                                p.set_input(&mut src);
                                loop {
                                    match l::Scanner::scan(&mut p) {
                                        Ok(e) => {
                                            let e = rs::tok(e);
                                            if tbase.0.get(k) != Some(&e) {
                                                return Err(format!("token {k} is {e:?}, without the fault {:?}", tbase.0.get(k)));
                                            }
                                            k += 1;
                                            if e.v == Tok::StreamEnd {
                                                break;
                                            }
                                        }
                                        Err(e) => return self.ended(e, &tbase.1, *kind, k, tbase.0.len()),
                                    }
                                }
                            } else {
                                let mut p = l::Parser::new();
                                p.set_input(&mut src);
                                loop {
                                    match l::Document::load(&mut p) {
                                        Ok(d) => {
                                            if d.nodes.is_empty() {
                                                break;
                                            }
                                            let d = rs::doc(&d);
                                            if lbase.0.get(k) != Some(&d) {
                                                return Err(format!("document {k} differs from the one without the fault"));
                                            }
                                            k += 1;
                                        }
                                        Err(e) => return self.ended(e, &lbase.1, *kind, k, lbase.0.len()),
                                    }
                                }
                            }
                            Err("END".into())
                        });
                        let hits = src.hits;
                        ctx.trans += 1;
                        ctx.states.insert(hash(&(ep, at, hits, inp)));
                        match r {
                            Err(p) => return Err(format!("{}: panic: {p}", what())),
                            Ok(Err(e)) if e == "END" => {
                                if hits > 0 {
                                    return Err(format!("{}: the stream ends as if it were complete (entry point {ep})", what()));
                                }
                            }
                            Ok(Err(e)) => return Err(format!("{} (entry point {ep}): {e}", what())),
                            Ok(Ok(())) => {}
                        }
                        ctx.outcome(&(ep, hits > 0, at, inp));
                    }
                }
            }
        }
        Ok(())
    }
    /// The run with the fault ended with `e`.
    fn ended(&self, e: l::Error, base: &End, kind: io::ErrorKind, k: usize, n: usize) -> Result<(), String> {
        if let End::Err(b) = base {
            if rs::er(&e) == *b && k == n {
                return Ok(()); // the error the text has anyway
            }
            if matches!(b.kind, EKind::Reader | EKind::Io) && e.kind() == l::ErrorKind::Reader {
                return Ok(());
            }
        }
        let got = Self::source_kind(e)?;
        if got != kind {
            return Err(format!("the read error is reported as {got:?}"));
        }
        Ok(())
    }
}
impl Prop for ReadFaults {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "for every input a read error is injected after every possible number of bytes, once or persistently, in three chunkings and through three entry points; distinct by entry point, input, position and whether the fault was reached"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let t = thorough as usize;
        let mut v = vec![
            tree("rf", "lexical atoms", spaces::ATOMS, 3 + t),
            tree("rf", "characters", &["a", "\n", ": ", "- ", "\"", "'", "\u{e9}", "\u{1f389}", "|\n ", "[", "#", "...", "\u{feff}", "\r\n", "\\"], 4 + t),
            bytes_tree("rf", "UTF-16", b"", &[b"\xff\xfe", b"\xfe\xff", b"a\0", b"\0a", b"\n\0", b"\x3c\xd8\x89\xdf", b"\xd8\x3c\xdf\x89", b"-\0 \0", b"x"], &[b""], 4 + t),
            list("rf", "look-ahead texts", probes()),
        ];
        let mut u: Vec<Vec<u8>> = vec![];
        for p in PROBES {
            u.push(utf16(p, false, true));
            u.push(utf16(p, true, true));
        }
        for (f, n) in [("items", 900), ("words", 3000), ("lit", 900), ("dq", 3000), ("docs", 400), ("fitems", 2000), ("comment", 9000)] {
            u.push(spaces::expand(format!("{f};{n}").as_bytes()).unwrap());
        }
        v.push(list("rf", "look-ahead texts in UTF-16 and long texts", u));
        v.push(list("rf", "constructs", spaces::snippets()));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind != "rf" {
            return V::Skip;
        }
        match self.one(case, ctx) {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        }
    }
}

// ------------------------------------------------------------------- C22

struct Padding;
const TAILS: &[&str] = &[
    "a: b\n", "- a\n- b\n", "? a\n: b\n", "[a, {b: c}]\n", "{a: [b], c}\n", "'a\n  b'\n", "\"a\\\n  b\\n\\u00e9\"\n", "|\n a\n\n b\n", ">-\n a\n b\n\n  c\n",
    "&x a: *x\n", "!t a: !!str b\n", "a\n b\n\n c\n", "a: \u{e9}\u{1f389}\nb: \u{2028} c\n", "a:\n- b\n-\n  c: d\n", "# c\na # d\n", "k: |2\n    a\n   b\n",
    "a: 'b\n", "[a, b", "a: b: c\n", "- a\n b: c\n", "\"\\q\"", "!u!v a\n", "\ta: b\n", "a:\n\t- b\n", "|-\n a\n \u{85} b", "a\r\nb: c\r\n", "%YAML 1.1\n", "- - - a\n    - b\n  - c\n- d\n",
    "*a : b\n", "{? a, : b, \"c\":d}\n", "--- a\n", "...\n", "a", "", "\u{feff}a\n",
];
fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (2..=40).collect();
    for c in [64, 128, 255, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        let r = if thorough { 12 } else { 4 };
        v.extend(c - r..=c + r);
    }
    if thorough {
        v.extend([131071, 131072, 131073]);
    }
    v
}
/// Texts that mean the same when every line is moved to the right.
const MOVABLE: &[&str] = &[
    "a: b\n", "a: b\nc: d", "- a\n- b\n", "? a\n: b\n", "? a\n? b\n: - c\n  - d\n", "[a, {b: c}]\n", "a:\n- b\n- c: d\n  e: f\ng: h\n",
    "a:\n  b: |\n    x\n\n    y\n  c: d\n", "'a\n  b'\n", "'a': \"b\n  c\"\n", "a\n b\n\n c\n", "&x a: *x\n", "- - - a\n    - b\n  - c\n- d\n", "a: b: c\n",
    "- a\n b: c\n", "a:\n - b\n c: d\n", "a: [b,\n c]\n", "\"a\" : b\n", "a: 'b\n", "k: >-\n  a\n  b\n\n  c\n", "# c\na # d\n", "k: |2\n    a\n   b\n",
    "{a: [b], c}: d\n", "!t a: !!str b\n- c\n", "- ? a\n  : b\n-\n  c: d\n", "a\nb: c\n", "\"a\nb\": c\n", "*a : b\n", ": a\n", "-\n-\n",
];
impl Padding {
    /// The text with every line that is not empty moved by `n` columns.
    fn moved(n: usize, text: &[u8], ctx: &mut Ctx) -> Result<(), String> {
        let lines: Vec<&[u8]> = text.split(|c| *c == b'\n').collect();
        let pad = vec![b' '; n];
        let mut p = vec![];
        for (k, l) in lines.iter().enumerate() {
            if k > 0 {
                p.push(b'\n');
            }
            if !l.is_empty() {
                p.extend(&pad);
                p.extend(*l);
            }
        }
        let shift = |m: &Mk| {
            let k = m.line as usize;
            let before = lines.iter().take(k + 1).filter(|l| !l.is_empty()).count();
            let here = lines.get(k).is_some_and(|l| !l.is_empty());
            Mk { idx: m.idx + (n * before) as u64, line: m.line, col: m.col + if here { n as u64 } else { 0 } }
        };
        let (bt, be) = rs::scan_on(&mut Feed::new(text, Cut::Whole), 0, text.len());
        let (it, ie) = rs::scan_on(&mut Feed::new(&p, Cut::Whole), 0, p.len());
        let what = || format!("{} with every line moved by {n} columns", show(text));
        if bt.len() != it.len() {
            return Err(format!("{}: {} tokens instead of {}", what(), it.len(), bt.len()));
        }
        for (k, (a, b)) in bt.iter().zip(&it).enumerate() {
            // A block scalar ends at the start of a line.
            let block = matches!(&a.v, Tok::Scalar(_, 4 | 5));
            let want = M { s: if k == 0 { a.s } else { shift(&a.s) }, e: if k == 0 { a.e } else { shift(&a.e) }, v: a.v.clone() };
            if want.v != b.v || want.s != b.s || (!block && want.e != b.e) {
                return Err(format!("{}: token {k} is {b:?}, expected {want:?}", what()));
            }
        }
        match (be, ie) {
            (End::Err(mut a), End::Err(mut b)) => {
                a.pmark = a.pmark.map(|m| shift(&m));
                a.cmark = a.cmark.map(|m| shift(&m));
                a.display.clear();
                b.display.clear();
                if a != b {
                    return Err(format!("{}: fails with {b:?}, expected {a:?}", what()));
                }
            }
            (a, b) if a == b => {}
            (a, b) => return Err(format!("{}: ends with {b:?}, expected {a:?}", what())),
        }
        let (pv, pe) = rs::parse_on(&mut Feed::new(text, Cut::Whole), 0, text.len());
        let (iv, ie) = rs::parse_on(&mut Feed::new(&p, Cut::Fixed(8192)), 0, p.len());
        if !(iv.len() == pv.len() && iv.iter().zip(&pv).all(|(a, b)| a.v == b.v) && ie.is_err() == pe.is_err()) {
            return Err(format!("{}: the events differ", what()));
        }
        ctx.trans += (it.len() + iv.len()) as u64;
        ctx.states.insert(hash(&(n, &it)));
        ctx.outcome(&(n, text));
        Ok(())
    }
    /// Prefix of exactly `size` bytes, and how far it moves the position.
    fn prefix(kind: u8, size: usize) -> Option<(Vec<u8>, u64)> {
        Some(match kind {
            0 => {
                let mut v = vec![b'#'; size - 1];
                v.push(b'\n');
                (v, 1)
            }
            1 => (vec![b'\n'; size], size as u64),
            2 => {
                let mut v = b"#".to_vec();
                while v.len() + 3 < size {
                    v.extend("\u{2603}".as_bytes());
                }
                while v.len() + 1 < size {
                    v.push(b' ');
                }
                v.push(b'\n');
                (v, 1)
            }
            3 if size % 2 == 0 => (b"\r\n".repeat(size / 2), size as u64 / 2),
            4 if size > 2 => {
                // Alternating lines of two lengths.
                let mut v = vec![];
                let mut lines = 0;
                while v.len() + 8 < size {
                    v.extend(b"# ab\n\n\n");
                    lines += 3;
                }
                while v.len() + 1 < size {
                    v.push(b' ');
                }
                v.push(b'\n');
                (v, lines + 1)
            }
            _ => return None,
        })
    }
    fn one(&self, kind: u8, size: usize, tail: &[u8], ctx: &mut Ctx) -> Result<bool, String> {
        if tail.starts_with("\u{feff}".as_bytes()) {
            return Ok(false);
        }
        let Some((mut p, lines)) = Self::prefix(kind, size) else { return Ok(false) };
        let shift = |m: &Mk| Mk { idx: m.idx + size as u64, line: m.line + lines, col: m.col };
        p.extend(tail);
        let n = p.len();
        let (bt, be) = rs::scan_on(&mut Feed::new(tail, Cut::Whole), 0, tail.len());
        let want: Vec<M<Tok>> = bt
            .into_iter()
            .enumerate()
            .map(|(k, x)| if k == 0 { x } else { M { s: shift(&x.s), e: shift(&x.e), v: x.v } })
            .collect();
        let want_end = match be {
            End::Err(mut e) => {
                e.pmark = e.pmark.map(|m| shift(&m));
                e.cmark = e.cmark.map(|m| shift(&m));
                e.display.clear();
                End::Err(e)
            }
            x => x,
        };
        let (pv, pe) = rs::parse_on(&mut Feed::new(tail, Cut::Whole), 0, tail.len());
        for cut in [Cut::Whole, Cut::Fixed(8192)] {
            let (it, mut ie) = rs::scan_on(&mut Feed::new(&p, cut.clone()), 0, n);
            if let End::Err(e) = &mut ie {
                e.display.clear();
            }
            same_run(&(it, ie), &(want.clone(), want_end.clone())).map_err(|e| format!("after {size} bytes of padding: {e}"))?;
            let (iv, ie) = rs::parse_on(&mut Feed::new(&p, cut), 0, n);
            let same = iv.len() == pv.len() && iv.iter().zip(&pv).all(|(a, b)| a.v == b.v) && ie.is_err() == pe.is_err();
            if !same {
                return Err(format!("after {size} bytes of padding the events differ"));
            }
            ctx.trans += iv.len() as u64;
        }
        ctx.states.insert(hash(&(size, kind, &want)));
        ctx.outcome(&(size, kind, tail));
        Ok(true)
    }
}
impl Prop for Padding {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "every text is preceded by neutral padding of every declared size and kind; tokens, events and errors must be those of the text alone with all positions shifted; a state is the shifted token sequence"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let s = sizes(thorough);
        let tails: Vec<&str> = TAILS.iter().chain(spaces::SNIPPETS).copied().collect();
        let n = (s.len() * 5 * tails.len()) as u64;
        let mut v = vec![index("pad", format!("{} sizes x 5 paddings x {} texts", s.len(), tails.len()), n, move |i| {
            let i = i as usize;
            let t = tails[i % tails.len()];
            let k = i / tails.len() % 5;
            let z = s[i / tails.len() / 5];
            let mut v = vec![k as u8];
            v.extend((z as u32).to_le_bytes());
            v.extend(t.as_bytes());
            v
        })];
        let s = sizes(thorough);
        v.push(index("move", format!("{} texts with all lines moved to the right by {} distances", MOVABLE.len(), s.len()), (s.len() * MOVABLE.len()) as u64, move |i| {
            let i = i as usize;
            let mut v = (s[i / MOVABLE.len()] as u32).to_le_bytes().to_vec();
            v.extend(MOVABLE[i % MOVABLE.len()].as_bytes());
            v
        }));
        for n in [1u32, 2, 300] {
            let a: &[&str] = &["a", ": ", "- ", "? ", "\n", "  ", "[", "]", ", ", "'", "\"", "#", "- |\n", "&x ", "{"];
            v.push(Scope {
                kind: "move",
                name: format!("all sequences of lexical atoms with every line moved by {n} columns"),
                gen: Gen::Tree {
                    prefix: n.to_le_bytes().to_vec(),
                    atoms: a.iter().map(|a| a.as_bytes().to_vec()).collect(),
                    suffixes: vec![b"".to_vec(), b"\nb: c".to_vec()],
                    depth: if n > 100 { 4 } else { 5 } + thorough as usize,
                    filter: None,
                },
            });
        }
        // Every short text behind a few paddings.
        for (k, z) in [(0u8, 7u32), (1, 300), (2, 1030), (3, 16), (4, 8190)] {
            let mut prefix = vec![k];
            prefix.extend(z.to_le_bytes());
            v.push(Scope {
                kind: "pad",
                name: format!("all sequences of lexical atoms behind padding {k} of {z} bytes"),
                gen: Gen::Tree {
                    prefix,
                    atoms: spaces::ATOMS.iter().map(|a| a.as_bytes().to_vec()).collect(),
                    suffixes: vec![vec![]],
                    depth: if z > 1000 { 2 + thorough as usize } else { 3 + thorough as usize },
                    filter: None,
                },
            });
        }
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "move" && case.len() >= 4 {
            let n = u32::from_le_bytes(case[..4].try_into().unwrap()) as usize;
            if n > 200_000 {
                return V::Skip;
            }
            return match Self::moved(n, &case[4..], ctx) {
                Ok(()) => V::Ok,
                Err(e) => V::Bad(e),
            };
        }
        if kind != "pad" || case.len() < 5 || case[0] > 4 {
            return V::Skip;
        }
        let size = u32::from_le_bytes(case[1..5].try_into().unwrap()) as usize;
        if !(2..=200_000).contains(&size) {
            return V::Skip;
        }
        match self.one(case[0], size, &case[5..], ctx) {
            Ok(true) => V::Ok,
            Ok(false) => V::Skip,
            Err(e) => V::Bad(e),
        }
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if case.len() < 5 {
            return show(case);
        }
        if kind == "move" {
            return format!("{} with every line moved by {} columns", show(&case[4..]), u32::from_le_bytes(case[..4].try_into().unwrap()));
        }
        format!("padding {} of {} bytes, then {}", case[0], u32::from_le_bytes(case[1..5].try_into().unwrap()), show(&case[5..]))
    }
}
