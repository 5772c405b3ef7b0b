//! C02 events, C03 tokens, C19 errors, C05 positions: lock-step conformance
//! of the implementation with the reference model.
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::{c, rs};
use super::spaces;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Events), Box::new(Tokens), Box::new(Marks), Box::new(Errors)]
}

/// Implementation strings may hold NUL where C strings stop.
fn seq(i: &[u8], m: &[u8]) -> bool {
    i == m || i.contains(&0)
}
fn seqo(i: &Option<S>, m: &Option<S>) -> bool {
    match (i, m) {
        (None, None) => true,
        (Some(a), Some(b)) => seq(a, b),
        _ => false,
    }
}
/// The implicit flags follow from the tag libyaml sees.
fn nulo(t: &Option<S>) -> bool {
    t.as_ref().is_some_and(|t| t.contains(&0))
}
pub fn same_tok(i: &Tok, m: &Tok) -> bool {
    match (i, m) {
        // A suffix that starts with NUL is empty to libyaml, which then takes
        // the handle for the suffix.
        (Tok::Tag(a, b), Tok::Tag(c, d)) => (a == c && b == d) || a.contains(&0) || b.contains(&0),
        (Tok::TagDirective(a, b), Tok::TagDirective(c, d)) => seq(a, c) && seq(b, d),
        _ => i == m,
    }
}
pub fn same_ev(i: &Ev, m: &Ev) -> bool {
    match (i, m) {
        (
            Ev::Scalar { anchor, tag, value, plain, quoted, style },
            Ev::Scalar { anchor: a2, tag: t2, value: v2, plain: p2, quoted: q2, style: s2 },
        ) => anchor == a2 && seqo(tag, t2) && value == v2 && (nulo(tag) || plain == p2 && quoted == q2) && style == s2,
        (
            Ev::SeqStart { anchor, tag, implicit, style },
            Ev::SeqStart { anchor: a2, tag: t2, implicit: i2, style: s2 },
        )
        | (
            Ev::MapStart { anchor, tag, implicit, style },
            Ev::MapStart { anchor: a2, tag: t2, implicit: i2, style: s2 },
        ) => anchor == a2 && seqo(tag, t2) && (nulo(tag) || implicit == i2) && style == s2,
        (
            Ev::DocStart { version, tags, implicit },
            Ev::DocStart { version: v2, tags: t2, implicit: i2 },
        ) => {
            version == v2
                && implicit == i2
                && tags.len() == t2.len()
                && tags.iter().zip(t2).all(|(x, y)| seq(&x.0, &y.0) && seq(&x.1, &y.1))
        }
        _ => i == m,
    }
}

/// libyaml passes percent-escaped octets through without checking that they
/// encode a character; a Rust string cannot, so those inputs must be errors.
pub trait Utf8 {
    fn utf8(&self) -> bool;
}
fn u(s: &[u8]) -> bool {
    std::str::from_utf8(s).is_ok()
}
impl Utf8 for Tok {
    fn utf8(&self) -> bool {
        match self {
            Tok::Tag(a, b) | Tok::TagDirective(a, b) => u(a) && u(b),
            _ => true,
        }
    }
}
impl Utf8 for Ev {
    fn utf8(&self) -> bool {
        match self {
            Ev::Scalar { tag: Some(t), .. } | Ev::SeqStart { tag: Some(t), .. } | Ev::MapStart { tag: Some(t), .. } => u(t),
            Ev::DocStart { tags, .. } => tags.iter().all(|t| u(&t.0) && u(&t.1)),
            _ => true,
        }
    }
}

/// Compare item by item; Ok(()) or what differs.
pub fn cmp<T: std::fmt::Debug + Utf8>(i: &Run<T>, m: &Run<T>, same: impl Fn(&T, &T) -> bool) -> Result<(), String> {
    if let End::Panic(p) = &i.end {
        return Err(format!("implementation panics after {} items: {p}", i.items.len()));
    }
    if i.end == End::Unbounded {
        return Err(format!("implementation does not stop: {} items", i.items.len()));
    }
    for (k, (a, b)) in i.items.iter().zip(&m.items).enumerate() {
        if !b.v.utf8() {
            return Err(format!("item {k}: libyaml's bytes are not UTF-8 ({:?}), the implementation has {:?}", b.v, a.v));
        }
        if !same(&a.v, &b.v) {
            return Err(format!("item {k}: implementation {:?}, libyaml {:?}", a.v, b.v));
        }
    }
    if i.end.is_err() && i.items.len() <= m.items.len() && m.items.iter().any(|x| !x.v.utf8()) {
        return Ok(());
    }
    let reader = |e: &End| matches!(e, End::Err(e) if matches!(e.kind, EKind::Reader | EKind::Io));
    if reader(&i.end) && reader(&m.end) {
        // How far ahead of a bad byte a reader may be is not observable API.
        return Ok(());
    }
    if i.items.len() != m.items.len() || i.end.is_err() != m.end.is_err() {
        let k = i.items.len().min(m.items.len());
        let side = |r: &Run<T>| match r.items.get(k) {
            Some(x) => format!("{:?}", x.v),
            None => r.end.brief(),
        };
        return Err(format!("item {k}: implementation {}, libyaml {}", side(i), side(m)));
    }
    Ok(())
}

pub fn prunable<T>(i: &Run<T>, m: &Run<T>) -> bool {
    i.end.is_err() && m.end.is_err() && !i.saw_eof && !m.saw_eof
}

struct Events;
impl Prop for Events {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "every input of the declared spaces is parsed event by event by the implementation and by libyaml's own parser in lock-step; two outcomes are distinct when their event sequences or error differ"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 1);
        v.push(spaces::long("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let Some(inp) = spaces::input(kind, case) else { return V::Skip };
        let m = c::parse_all(&mut Feed::new(&inp, Cut::Char), 0, |p| {
            ctx.states.insert(p.state());
        });
        let i = rs::parse_all(&mut Feed::new(&inp, Cut::Char), 0);
        ctx.trans += m.items.len() as u64 + 1;
        match cmp(&i, &m, same_ev) {
            Err(e) => V::Bad(e),
            Ok(()) => {
                ctx.outcome(&(m.items.iter().map(|x| &x.v).collect::<Vec<_>>(), m.end.is_err()));
                ctx.count(if m.end.is_err() { "inputs rejected by both" } else { "inputs accepted by both" }, 1);
                if prunable(&i, &m) {
                    V::Prune
                } else {
                    V::Ok
                }
            }
        }
    }
}

struct Tokens;
impl Prop for Tokens {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "every input of the declared spaces is scanned token by token by the implementation and by libyaml's own scanner in lock-step; two outcomes are distinct when their token sequences or error differ"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 1);
        v.push(spaces::long("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let Some(inp) = spaces::input(kind, case) else { return V::Skip };
        let m = c::scan_all(&mut Feed::new(&inp, Cut::Char), 0, |p| {
            ctx.states.insert(p.state());
        });
        let i = rs::scan_all(&mut Feed::new(&inp, Cut::Char), 0);
        ctx.trans += m.items.len() as u64 + 1;
        match cmp(&i, &m, same_tok) {
            Err(e) => V::Bad(e),
            Ok(()) => {
                ctx.outcome(&(m.items.iter().map(|x| &x.v).collect::<Vec<_>>(), m.end.is_err()));
                ctx.count(if m.end.is_err() { "inputs rejected by both" } else { "inputs accepted by both" }, 1);
                if prunable(&i, &m) {
                    V::Prune
                } else {
                    V::Ok
                }
            }
        }
    }
}

/// Independent position counter: (line, column) of every byte offset that can
/// be a position, counted from the text alone.
pub struct Lines {
    at: Vec<Option<(u64, u64)>>,
}
impl Lines {
    /// `text` is without a leading byte order mark.
    pub fn new(text: &str) -> Lines {
        let mut at = vec![None; text.len() + 1];
        let (mut line, mut col) = (0, 0);
        let mut it = text.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            at[i] = Some((line, col));
            match c {
                '\r' if matches!(it.peek(), Some((_, '\n'))) => col += 1, // inside CR LF
                '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                    line += 1;
                    col = 0;
                }
                _ => col += 1,
            }
        }
        at[text.len()] = Some((line, col));
        // The middle of a CR LF pair is not a position.
        let b = text.as_bytes();
        for i in 1..b.len() {
            if b[i - 1] == b'\r' && b[i] == b'\n' {
                at[i] = None;
            }
        }
        Lines { at }
    }
    pub fn ok(&self, m: &Mk) -> bool {
        let p = self.at.get(m.idx as usize).copied().flatten();
        // The end of the stream counts as a line break unless it follows one.
        let eof = m.idx as usize + 1 == self.at.len();
        p == Some((m.line, m.col)) || (eof && m.col == 0 && p.is_some_and(|p| p.1 > 0 && p.0 + 1 == m.line))
    }
}

struct Marks;
impl Marks {
    fn cmp<T: std::fmt::Debug>(&self, what: &str, i: &Run<T>, m: &Run<T>, l: Option<&Lines>) -> Result<(), String> {
        if let End::Panic(p) = &i.end {
            return Err(format!("{what}: implementation panics: {p}"));
        }
        let mut last = Mk::default();
        for (k, x) in i.items.iter().enumerate() {
            if let Some(l) = l {
                for (n, m) in [("start", &x.s), ("end", &x.e)] {
                    if !l.ok(m) {
                        return Err(format!("{what} {k} {x:?}: the {n} mark is not a position of the text"));
                    }
                }
            }
            if x.e < x.s {
                return Err(format!("{what} {k} {x:?}: ends before it starts"));
            }
            if x.s < last {
                return Err(format!("{what} {k} {x:?}: starts before the previous one does ({last:?})"));
            }
            last = x.s;
            if let Some(y) = m.items.get(k) {
                if (x.s, x.e) != (y.s, y.e) {
                    return Err(format!("{what} {k} {x:?}: libyaml has {:?}..{:?}", y.s, y.e));
                }
            }
        }
        Ok(())
    }
}
impl Prop for Marks {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "every input is scanned and parsed by both sides; every start and end mark is compared with an independent position counter over the text, with its predecessor and with libyaml's; outcomes are distinct by the sequence of marks"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 1);
        v.push(spaces::long_lite("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let Some(inp) = spaces::input(kind, case) else { return V::Skip };
        let text = std::str::from_utf8(&inp).ok().map(|t| t.strip_prefix('\u{feff}').unwrap_or(t));
        let lines = text.map(Lines::new);
        let m = c::scan_all(&mut Feed::new(&inp, Cut::Char), 0, |p| {
            ctx.states.insert(p.state());
        });
        let i = rs::scan_all(&mut Feed::new(&inp, Cut::Char), 0);
        if let Err(e) = self.cmp("token", &i, &m, lines.as_ref()) {
            return V::Bad(e);
        }
        let m2 = c::parse_all(&mut Feed::new(&inp, Cut::Char), 0, |p| {
            ctx.states.insert(p.state());
        });
        let i2 = rs::parse_all(&mut Feed::new(&inp, Cut::Char), 0);
        if let Err(e) = self.cmp("event", &i2, &m2, lines.as_ref()) {
            return V::Bad(e);
        }
        ctx.trans += (m.items.len() + m2.items.len()) as u64;
        ctx.count("marks compared", 2 * (i.items.len() + i2.items.len()) as u64);
        ctx.outcome(&i.items.iter().map(|x| (x.s, x.e)).collect::<Vec<_>>());
        if prunable(&i, &m) && prunable(&i2, &m2) {
            V::Prune
        } else {
            V::Ok
        }
    }
}

/// What an error must report, whatever its layout.
pub fn display_ok(e: &Er) -> Result<(), String> {
    let d = &e.display;
    if e.kind != EKind::Io && !d.contains(&e.problem) {
        return Err(format!("Display {d:?} does not name the problem {:?}", e.problem));
    }
    for m in [e.pmark, e.cmark].into_iter().flatten() {
        let p = format!("line {} column {}", m.line + 1, m.col + 1);
        if !d.contains(&p) {
            return Err(format!("Display {d:?} does not give the position {p}"));
        }
    }
    if let Some(c) = &e.context {
        if !d.contains(c.as_str()) {
            return Err(format!("Display {d:?} does not give the context {c:?}"));
        }
    }
    let k = match e.kind {
        EKind::Reader => "Reader",
        EKind::Scanner => "Scanner",
        EKind::Parser => "Parser",
        EKind::Composer => "Composer",
        EKind::Emitter => "Emitter",
        EKind::Io => "I/O",
        EKind::Other => "",
    };
    if !d.starts_with(k) {
        return Err(format!("Display {d:?} does not name the kind {k}"));
    }
    Ok(())
}

struct Errors;
impl Errors {
    fn cmp(&self, what: &str, i: &End, m: &End, bad_utf8: bool) -> Result<(), String> {
        match (i, m) {
            (End::Err(i), End::Err(m)) => {
                display_ok(i).map_err(|e| format!("{what}: {e}"))?;
                let reader = |e: &Er| matches!(e.kind, EKind::Reader | EKind::Io);
                if bad_utf8 || (reader(i) && reader(m)) {
                    return Ok(());
                }
                // The spelling libyaml itself once had.
                let problem = i.problem.replace("hexdecimal", "hexadecimal");
                if i.kind != m.kind || problem != m.problem || i.pmark != m.pmark || i.context != m.context || i.cmark != m.cmark {
                    return Err(format!("{what}: implementation {}, libyaml {}", End::Err(i.clone()).brief(), End::Err(m.clone()).brief()));
                }
                Ok(())
            }
            (End::Done, End::Done) => Ok(()),
            (End::Err(i), End::Done) if bad_utf8 => display_ok(i),
            _ => Err(format!("{what}: implementation {}, libyaml {}", i.brief(), m.brief())),
        }
    }
}
impl Prop for Errors {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "every input is scanned and loaded by both sides; the error, or its absence, is compared field by field with libyaml's; outcomes are distinct by kind, problem, context and both marks"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 1);
        v.push(spaces::long_lite("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let Some(inp) = spaces::input(kind, case) else { return V::Skip };
        let mut m_eof = Feed::new(&inp, Cut::Char);
        let m = c::scan_all(&mut m_eof, 0, |p| {
            ctx.states.insert(p.state());
        });
        let i = rs::scan_all(&mut Feed::new(&inp, Cut::Char), 0);
        if let Err(e) = self.cmp("scan", &i.end, &m.end, m.items.iter().any(|x| !x.v.utf8())) {
            return V::Bad(e);
        }
        // Only the composer can add an error to a stream that parses.
        let (mut f1, mut f2) = (Feed::new(&inp, Cut::Char), Feed::new(&inp, Cut::Char));
        let (dm, em) = c::load_all(&mut f1, 0);
        let (_, ei) = rs::load_on(&mut f2, 0, inp.len());
        let bad = dm.iter().any(|d| d.nodes.iter().any(|n| n.tag.as_deref().is_some_and(|t| !u(t)))) || m.items.iter().any(|x| !x.v.utf8());
        if let Err(e) = self.cmp("load", &ei, &em, bad) {
            return V::Bad(e);
        }
        ctx.trans += m.items.len() as u64;
        for (w, e) in [(0, &i.end), (1, &ei)] {
            ctx.outcome(&(w, e));
            if let End::Err(e) = e {
                ctx.count(
                    match e.kind {
                        EKind::Reader | EKind::Io => "reader errors",
                        EKind::Scanner => "scanner errors",
                        EKind::Parser => "parser errors",
                        EKind::Composer => "composer errors",
                        _ => "other errors",
                    },
                    1,
                );
            }
        }
        if prunable(&i, &m) && ei.is_err() && em.is_err() && !f1.saw_eof && !f2.saw_eof {
            V::Prune
        } else {
            V::Ok
        }
    }
}
