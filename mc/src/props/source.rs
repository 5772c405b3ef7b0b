//! C27 how the input source is used.
use super::input::{bytes_tree, probes, utf16, PROBES};
use super::spaces;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::rs;
use libyaml_safer as l;
use std::io::{self, BufRead, Read};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Source)]
}

/// How the source stops.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    End,
    Fail(io::ErrorKind),
}
/// A source that watches how it is used.
struct Watched<'a> {
    f: Feed<'a>,
    at: usize,
    stop: Stop,
    /// Interrupt every other call.
    interrupt: Option<bool>,
    stopped: bool,
    /// Bytes of the last buffer that may still be consumed.
    given: usize,
    calls: usize,
    bad: Option<String>,
}
impl<'a> Watched<'a> {
    fn next(&mut self) -> io::Result<&'a [u8]> {
        self.calls += 1;
        if let Some(armed) = &mut self.interrupt {
            *armed = !*armed;
            if *armed {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        if self.stopped && self.bad.is_none() {
            self.bad = Some("it is asked again".into());
        }
        if self.f.pos >= self.at {
            self.stopped = true;
            return match self.stop {
                Stop::End => Ok(&[]),
                Stop::Fail(k) => Err(io::Error::new(k, "injected")),
            };
        }
        let left = self.at - self.f.pos;
        let b = self.f.chunk();
        Ok(&b[..b.len().min(left)])
    }
}
impl Read for Watched<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let b = self.next()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.f.pos += n;
        self.given = 0;
        Ok(n)
    }
}
impl BufRead for Watched<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.given = 0;
        let b = self.next()?;
        self.given = b.len();
        Ok(b)
    }
    fn consume(&mut self, n: usize) {
        if n > self.given {
            self.bad = Some(format!("{n} bytes are consumed of {} given", self.given));
            return;
        }
        self.given -= n;
        self.f.pos += n;
    }
}

/// Calls after the end or the error.
const AFTER: usize = 4;

struct Source;
impl Source {
    /// Drives one entry point; whether the end of the stream was delivered.
    fn drive(src: &mut Watched, encoding: u8, ep: u8, limit: usize) -> Result<(bool, u64), String> {
        let (mut after, mut n, mut ended) = (0, 0, false);
        let mut log = vec![];
        if ep == 0 || ep == 3 {
            let mut s = l::Scanner::new();
            s.set_input(src);
            if encoding != 0 {
                s.set_encoding(rs::enc(encoding));
            }
            while after < AFTER && n < limit {
                n += 1;
                match if ep == 0 { Some(l::Scanner::scan(&mut s)) } else { Iterator::next(&mut s) } {
                    Some(Ok(t)) if after == 0 => {
                        ended = matches!(t.data, l::TokenData::StreamEnd);
                        after += ended as usize;
                        log.push(hash(&rs::tok(t)));
                    }
                    Some(Err(_)) if after == 0 => after += 1,
                    _ if after > 0 => after += 1,
                    _ => return Err("the iterator stops".into()),
                }
            }
        } else {
            let mut s = l::Parser::new();
            s.set_input(src);
            if encoding != 0 {
                s.set_encoding(rs::enc(encoding));
            }
            while after < AFTER && n < limit {
                n += 1;
                if ep == 2 {
                    match l::Document::load(&mut s) {
                        Ok(d) if after == 0 => {
                            ended = d.nodes.is_empty();
                            after += ended as usize;
                            log.push(hash(&rs::doc(&d)));
                        }
                        _ => after += 1,
                    }
                    continue;
                }
                match if ep == 1 { Some(s.parse()) } else { s.next() } {
                    Some(Ok(t)) if after == 0 => {
                        ended = matches!(t.data, l::EventData::StreamEnd);
                        after += ended as usize;
                        log.push(hash(&rs::ev(t)));
                    }
                    Some(Err(_)) if after == 0 => after += 1,
                    _ if after > 0 => after += 1,
                    _ => return Err("the iterator stops".into()),
                }
            }
        }
        Ok((ended, hash(&log)))
    }
    fn one(inp: &[u8], encoding: u8, ctx: &mut Ctx) -> Result<(), String> {
        let n = inp.len();
        let limit = 64 + 8 * n;
        for cut in [Cut::Whole, Cut::Fixed(1), Cut::Fixed(3)] {
            for at in 0..=n {
                // Everywhere in short inputs, near the ends of long ones.
                let edge = if n > 2000 { 12 } else { 40 };
                if n > 64 && at > edge && at + edge < n && at % 97.max(n / 12) != 0 {
                    continue;
                }
                let stops = [Stop::End, Stop::Fail(io::ErrorKind::Other), Stop::Fail(io::ErrorKind::UnexpectedEof), Stop::Fail(io::ErrorKind::WouldBlock)];
                for stop in stops {
                    for ep in 0..5 {
                        for interrupt in [None, Some(false), Some(true)] {
                            if interrupt.is_some() && (ep > 2 || at != n) {
                                continue;
                            }
                            let mut src = Watched { f: Feed::new(inp, cut.clone()), at, stop, interrupt, stopped: false, given: 0, calls: 0, bad: None };
                            let what = || format!("entry point {ep}, {stop:?} after {at} bytes, {cut:?}, interrupted {interrupt:?}");
                            let r = rs::guarded(|| Self::drive(&mut src, encoding, ep, limit));
                            ctx.trans += src.calls as u64;
                            ctx.states.insert(hash(&(inp, at, src.f.pos, src.stopped)));
                            if let Some(b) = src.bad {
                                return Err(format!("{}: {b}", what()));
                            }
                            // Panics belong to C01.
                            let Ok(r) = r else { continue };
                            let (ended, log) = r.map_err(|e| format!("{}: {e}", what()))?;
                            if ended && src.f.pos != at {
                                return Err(format!("{}: the stream ends with {} bytes unread", what(), at - src.f.pos));
                            }
                            if ended && !(src.stopped && stop == Stop::End) {
                                return Err(format!("{}: the stream ends although the source has not", what()));
                            }
                            ctx.count("runs", 1);
                            ctx.outcome(&(ended, src.stopped, log));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
impl Prop for Source {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "every input is cut off or fails after every number of bytes, in three chunkings, with and without interruptions, through five entry points and with three more calls at the end; the source watches how it is used; a state is an input, the place where it stops and what was read"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let t = thorough as usize;
        let mut v = vec![
            tree("text", "lexical atoms", spaces::ATOMS, 3 + t),
            tree("text", "characters", &["a", "\n", ": ", "- ", "\"", "'", "\u{e9}", "\u{1f389}", "|\n ", "[", "#", "...", "\u{feff}", "\r\n", "\\"], 4 + t),
            bytes_tree("text", "bytes", b"", &[b"a", b"\n", b"\xef", b"\xbb", b"\xbf", b"\xff", b"\xfe", b"\0", b"\xc3", b"\xa9", b"\xf0\x9f"], &[b""], 4 + t),
            bytes_tree("text", "UTF-16", b"", &[b"\xff\xfe", b"\xfe\xff", b"a\0", b"\0a", b"\n\0", b"\x3c\xd8\x89\xdf", b"\xd8\x3c\xdf\x89", b"-\0 \0", b"x"], &[b""], 4 + t),
            bytes_tree("le", "UTF-16LE", b"", &[b"\xff\xfe", b"a\0", b"\n\0", b"\x3c\xd8", b"\x89\xdf", b"-\0 \0", b"x", b"\"\0"], &[b""], 4 + t),
            bytes_tree("be", "UTF-16BE", b"", &[b"\xfe\xff", b"\0a", b"\0\n", b"\xd8\x3c", b"\xdf\x89", b"\0-\0 ", b"x", b"\0\""], &[b""], 4 + t),
            list("text", "look-ahead texts", probes()),
        ];
        let mut u: Vec<Vec<u8>> = vec![];
        for p in PROBES {
            u.push(utf16(p, false, true));
            u.push(utf16(p, true, true));
        }
        for (f, n) in [("items", 900), ("words", 3000), ("lit", 900), ("dq", 3000), ("docs", 400), ("fitems", 2000), ("comment", 9000)] {
            u.push(spaces::expand(format!("{f};{n}").as_bytes()).unwrap());
        }
        v.push(list("text", "look-ahead texts in UTF-16 and long texts", u));
        v.push(list("text", "constructs", spaces::snippets()));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let r = match kind {
            "text" => Self::one(case, 0, ctx).and_then(|_| Self::one(case, 1, ctx)),
            "le" => Self::one(case, 2, ctx),
            "be" => Self::one(case, 3, ctx),
            _ => return V::Skip,
        };
        match r {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        }
    }
    fn render(&self, _: &str, case: &[u8]) -> String {
        show(case)
    }
}
