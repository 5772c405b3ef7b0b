//! C10 round trip, C11 same output as the reference, C12 accepted event
//! sequences, C13 write faults, C14 configuration.
use super::events::*;
use super::stream::Grammar;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::{c, rs};
use libyaml_safer as l;
use std::cell::Cell;
use std::io;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(RoundTrip), Box::new(Same), Box::new(Accept), Box::new(Faults), Box::new(Config)]
}

// ------------------------------------------------------------------ C10

fn kind_name(e: &Ev) -> &'static str {
    match e {
        Ev::StreamStart(_) => "stream start",
        Ev::StreamEnd => "stream end",
        Ev::DocStart { .. } => "document start",
        Ev::DocEnd { .. } => "document end",
        Ev::Alias(_) => "alias",
        Ev::Scalar { .. } => "scalar",
        Ev::SeqStart { .. } => "sequence start",
        Ev::SeqEnd => "sequence end",
        Ev::MapStart { .. } => "mapping start",
        Ev::MapEnd => "mapping end",
    }
}

/// What is read back for an emitted event.
fn survives(cfg: &Cfg, o: &Ev, g: &Ev) -> Result<(), String> {
    let canonical = cfg.canonical == Some(true);
    let bad = |what: &str| Err(format!("{what}: emitted {o:?}, read back {g:?}"));
    let coll = |t: &Option<S>, implicit: bool| if implicit && !canonical { None } else { t.clone() };
    match (o, g) {
        (Ev::StreamStart(_), Ev::StreamStart(e)) => {
            let want = cfg.encoding.unwrap_or(match o {
                Ev::StreamStart(0) => 1,
                Ev::StreamStart(e) => *e,
                _ => 1,
            });
            if *e != want {
                return bad("encoding");
            }
        }
        (Ev::DocStart { version, tags, implicit }, Ev::DocStart { version: v2, tags: t2, implicit: i2 }) => {
            if version != v2 {
                return bad("version directive");
            }
            if tags != t2 {
                return bad("tag directives");
            }
            if *i2 && !*implicit {
                return bad("explicit document start");
            }
        }
        (Ev::DocEnd { implicit }, Ev::DocEnd { implicit: i2 }) => {
            if *i2 && !*implicit {
                return bad("explicit document end");
            }
        }
        (Ev::Alias(a), Ev::Alias(b)) => {
            if a != b {
                return bad("anchor");
            }
        }
        (
            Ev::Scalar { anchor, tag, value, plain, quoted, .. },
            Ev::Scalar { anchor: a2, tag: t2, value: v2, plain: p2, quoted: q2, style: s2 },
        ) => {
            if value != v2 {
                return bad("value");
            }
            if anchor != a2 {
                return bad("anchor");
            }
            // A tag is kept unless one of the flags allows to leave it out.
            let kept = if *plain || *quoted {
                if canonical {
                    tag.clone()
                } else {
                    None
                }
            } else {
                tag.clone()
            };
            match kept {
                Some(t) => {
                    if t2.as_ref() != Some(&t) {
                        return bad("tag");
                    }
                }
                None if *s2 == 1 => {
                    if t2.is_some() || !*p2 || !*plain {
                        return bad("resolution of the plain scalar");
                    }
                }
                None if *quoted => {
                    if t2.is_some() || !*q2 {
                        return bad("resolution of the quoted scalar");
                    }
                }
                None => {
                    if t2.as_deref() != Some(b"!") {
                        return bad("non-specific tag");
                    }
                }
            }
        }
        (
            Ev::SeqStart { anchor, tag, implicit, .. },
            Ev::SeqStart { anchor: a2, tag: t2, .. },
        )
        | (
            Ev::MapStart { anchor, tag, implicit, .. },
            Ev::MapStart { anchor: a2, tag: t2, .. },
        ) => {
            if anchor != a2 {
                return bad("anchor");
            }
            if *t2 != coll(tag, *implicit) {
                return bad("tag");
            }
        }
        (Ev::SeqEnd, Ev::SeqEnd) | (Ev::MapEnd, Ev::MapEnd) | (Ev::StreamEnd, Ev::StreamEnd) => {}
        _ => return bad("kind of event"),
    }
    Ok(())
}

/// Requested styles that must be honoured, given the context.
fn styles(cfg: &Cfg, o: &[Ev], g: &[M<Ev>]) -> Result<(), String> {
    let canonical = cfg.canonical == Some(true);
    let mut open: Vec<bool> = vec![];
    for (k, (a, b)) in o.iter().zip(g).enumerate() {
        match (a, &b.v) {
            (Ev::SeqStart { style, .. }, Ev::SeqStart { style: s2, .. })
            | (Ev::MapStart { style, .. }, Ev::MapStart { style: s2, .. }) => {
                let flow = open.last() == Some(&true);
                let empty = matches!(o.get(k + 1), Some(Ev::SeqEnd | Ev::MapEnd));
                let want = if flow || canonical || *style == 2 || empty { 2 } else { 1 };
                if *s2 != want {
                    return Err(format!("collection style: emitted {a:?}, read back {:?}, expected style {want}", b.v));
                }
                open.push(*s2 == 2);
            }
            (Ev::SeqEnd | Ev::MapEnd, _) => {
                open.pop();
            }
            (Ev::Scalar { style, .. }, Ev::Scalar { style: s2, .. }) => {
                if (canonical || *style == 3) && *s2 != 3 {
                    return Err(format!("scalar style: emitted {a:?}, read back {:?}", b.v));
                }
                if matches!(s2, 4 | 5) && (open.last() == Some(&true) || s2 != style) {
                    return Err(format!("scalar style: emitted {a:?}, read back {:?}", b.v));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

struct RoundTrip;
impl Prop for RoundTrip {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "every event stream of the space is emitted, the output parsed back and compared event by event; states are those of a pushdown recogniser of the event grammar together with the requested style, transitions are emitted events; cases whose stream the emitter refuses do not count as round trips (counter 'refused')"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = structure(thorough, &[0, 1, 3, 4, 9], 1);
        v.extend(documents(thorough, &[0, 1, 8]));
        v.extend(scalars(thorough, &[0, 3], 1));
        v.extend(lines(thorough, &[0, 2, 17]));
        v.extend(keys(thorough, &[0, 1, 8]));
        v.extend(folding(thorough, 1));
        v.extend(tags(thorough));
        v.extend(anchors(false));
        v.extend(attributes(&[0, 1, 2]));
        v.extend(long(thorough));
        v.extend(repeated(thorough));
        v.push(grid(thorough));
        v.extend(codepoints(thorough));
        v.extend(super::spaces::text("text", thorough, 0));
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        render(kind, case)
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "text" {
            return from_text(case, ctx, |cfg, evs, ctx| self.one(cfg, evs, ctx));
        }
        if duplicate(kind, case) {
            return V::Dup;
        }
        let Some((cfg, evs)) = decode(kind, case) else { return V::Skip };
        self.one(&cfg, &evs, ctx)
    }
}
impl RoundTrip {
    fn one(&self, cfg: &Cfg, evs: &[Ev], ctx: &mut Ctx) -> V {
        let mut g = Grammar::default();
        for e in evs {
            if g.step(e).is_err() {
                return V::Skip;
            }
            let style = match e {
                Ev::Scalar { style, .. } | Ev::SeqStart { style, .. } | Ev::MapStart { style, .. } => *style,
                _ => 0,
            };
            ctx.states.insert(hash(&(g.hash(), kind_name(e), style, cfg)));
            ctx.trans += 1;
        }
        let (out, n, end) = rs::emit_all(cfg, evs, true);
        match &end {
            End::Done => {}
            End::Err(_) => {
                ctx.count("refused", 1);
                ctx.outcome(&end);
                return V::Ok;
            }
            _ => return V::Bad(format!("emit fails after {n} events: {}", end.brief())),
        }
        let back = rs::parse_all(&mut Feed::new(&out, Cut::Whole), 0);
        ctx.outcome(&back.items.iter().map(|e| &e.v).collect::<Vec<_>>());
        match round_trip(cfg, evs, &out, &back) {
            Ok(()) => V::Ok,
            Err((m, None)) => V::Bad(m),
            Err((m, Some(id))) => V::Known(id, m),
        }
    }
}

/// The events of a text, emitted under two configurations.
fn from_text(text: &[u8], ctx: &mut Ctx, mut f: impl FnMut(&Cfg, &[Ev], &mut Ctx) -> V) -> V {
    let mut feed = Feed::new(text, Cut::Char);
    let r = rs::parse_all(&mut feed, 0);
    if r.end != End::Done {
        ctx.count("texts that are not YAML", 1);
        return if r.end.is_err() && !feed.saw_eof { V::Prune } else { V::Ok };
    }
    let evs: Vec<Ev> = r.items.into_iter().map(|e| e.v).collect();
    for cfg in [0usize, 12] {
        match f(&CFGS[cfg], &evs, ctx) {
            V::Ok => {}
            v => return v,
        }
    }
    V::Ok
}

/// The stream survives; or what differs and the finding it belongs to.
pub fn round_trip(cfg: &Cfg, evs: &[Ev], out: &[u8], back: &Run<Ev>) -> Result<(), (String, Option<&'static str>)> {
    let at = Cell::new(evs.len());
    let compare = |evs: &[Ev]| {
        for (k, e) in evs.iter().enumerate() {
            at.set(k);
            match back.items.get(k) {
                Some(b) => survives(cfg, e, &b.v).map_err(|m| format!("event {k}: {m}"))?,
                None => return Err(format!("event {k} {e:?} is not read back: {}", back.end.brief())),
            }
        }
        at.set(evs.len());
        if back.items.len() != evs.len() || back.end != End::Done {
            return Err(format!("{} events emitted, {} read back, then {}", evs.len(), back.items.len(), back.end.brief()));
        }
        styles(cfg, evs, &back.items)
    };
    let r = compare(evs);
    r.map_err(|m| {
        let mut id = inherited(cfg, evs, out, at.get(), back.items.get(at.get()).map(|b| &b.v));
        if id == Some("empty-first-document") {
            // Everything else survives, except after a document end marker,
            // which is not allowed after nothing.
            let marker = matches!(evs[3..], [Ev::DocEnd { implicit: false }, ..]) || matches!(&evs[3..], [_, Ev::DocStart { version, tags, .. }, ..] if version.is_some() || !tags.is_empty());
            if !marker && compare(&[&evs[..1], &evs[4..]].concat()).is_err() {
                id = None;
            }
        }
        if id == Some("folded-leading-blank") {
            // Everything but such scalars survives.
            let mut rest = evs.to_vec();
            loop {
                rest[at.get()] = back.items[at.get()].v.clone();
                if compare(&rest).is_ok() {
                    break;
                }
                if !rest.get(at.get()).is_some_and(|a| folded(a, back.items.get(at.get()).map(|b| &b.v))) {
                    id = None;
                    break;
                }
            }
        }
        (format!("{m}; output {}", show(out)), id)
    })
}

/// A line that starts with a blank is folded although the folded style keeps
/// the breaks around such lines.
fn folded(a: &Ev, b: Option<&Ev>) -> bool {
    let (Ev::Scalar { value: a, style: 5, .. }, Some(Ev::Scalar { value: b, style: 5, .. })) = (a, b) else { return false };
    let breaks = ['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}'];
    let bare = |s: &[u8]| rs::st(s).chars().filter(|c| *c != ' ' && *c != '\n').collect::<String>();
    rs::st(a).split(breaks).any(|l| l.starts_with([' ', '\t'])) && a != b && bare(a) == bare(b)
}

/// Round trips that libyaml itself fails, byte for byte the same way.
fn inherited(cfg: &Cfg, evs: &[Ev], out: &[u8], at: usize, got: Option<&Ev>) -> Option<&'static str> {
    if has_nul(evs) {
        return None;
    }
    let (m, _, end) = reference(cfg, evs, |_| {});
    if end != End::Done || m != out {
        return None;
    }
    // The first document is implicit and its root an empty plain scalar
    // without properties: nothing at all is written for it.
    if let [Ev::StreamStart(_), Ev::DocStart { version: None, tags, implicit: true }, Ev::Scalar { anchor: None, value, plain: true, style: 0 | 1, .. }, ..] = evs {
        if tags.is_empty() && value.is_empty() && cfg.canonical != Some(true) {
            return Some("empty-first-document");
        }
    }
    // ',', '[' and ']' are written as they are in a shorthand tag, where the
    // scanner no longer takes them.
    // (Nothing is read back for the events before it either: the scanner
    // reads ahead.)
    let end = if got.is_none() { evs.len() } else { evs.len().min(at + 1) };
    let mut prefixes: Vec<&[u8]> = vec![];
    for (k, e) in evs[..end].iter().enumerate() {
        let tag = match e {
            Ev::DocStart { tags, .. } => {
                prefixes = vec![b"!", b"tag:yaml.org,2002:"];
                prefixes.extend(tags.iter().map(|t| &t.1[..]));
                None
            }
            // Not written when implied.
            Ev::Scalar { plain: true, quoted: true, .. } | Ev::SeqStart { implicit: true, .. } | Ev::MapStart { implicit: true, .. } if cfg.canonical != Some(true) => None,
            Ev::Scalar { tag, .. } | Ev::SeqStart { tag, .. } | Ev::MapStart { tag, .. } => tag.as_deref(),
            _ => None,
        };
        let Some(tag) = tag.filter(|_| k >= at.min(end)) else { continue };
        let short = |p: &&[u8]| tag.strip_prefix(*p).is_some_and(|s| s.iter().any(|c| matches!(c, b',' | b'[' | b']')));
        if prefixes.iter().any(short) {
            return Some("tag-flow-indicator");
        }
    }
    if evs.get(at).is_some_and(|e| folded(e, got)) {
        return Some("folded-leading-blank");
    }
    None
}

// ------------------------------------------------------------------ C11

fn reference(cfg: &Cfg, evs: &[Ev], mut on: impl FnMut(&c::Ce)) -> (Vec<u8>, usize, End) {
    let mut e = c::Ce::new(cfg);
    let mut n = 0;
    let mut end = End::Done;
    for x in evs {
        match e.emit(x) {
            Ok(()) => {
                n += 1;
                on(&e);
            }
            Err(er) => {
                end = End::Err(er);
                break;
            }
        }
    }
    if end == End::Done {
        if let Err(er) = e.flush() {
            end = End::Err(er);
        }
    }
    (std::mem::take(&mut e.sink.out), n, end)
}

/// Some(big endian) when the stream is written in UTF-16.
pub fn utf16(cfg: &Cfg, evs: &[Ev]) -> Option<bool> {
    match cfg.encoding.or(match evs.first() {
        Some(Ev::StreamStart(e)) => Some(*e),
        _ => None,
    }) {
        Some(2) => Some(false),
        Some(3) => Some(true),
        _ => None,
    }
}
fn to16(s: &str, be: bool) -> Vec<u8> {
    s.encode_utf16().flat_map(|x| if be { x.to_be_bytes() } else { x.to_le_bytes() }).collect()
}

fn compare(cfg: &Cfg, evs: &[Ev], ctx: &mut Ctx) -> Result<End, String> {
    let (out, n, end) = rs::emit_all(cfg, evs, true);
    let (mut st, mut tr) = (vec![], 0u64);
    let (mo, mn, mend) = reference(cfg, evs, |e| {
        st.push(e.state());
        tr += 1;
    });
    for s in st {
        ctx.states.insert(s);
    }
    ctx.trans += tr;
    if let End::Panic(p) = &end {
        return Err(format!("emit panics after {n} events: {p}; libyaml: {}", mend.brief()));
    }
    if n != mn || end.is_err() != mend.is_err() {
        return Err(format!("emitter accepts {n} events, then {}; libyaml accepts {mn}, then {}", end.brief(), mend.brief()));
    }
    if let (End::Err(a), End::Err(b)) = (&end, &mend) {
        if b.kind != EKind::Other && (a.kind != b.kind || a.problem != b.problem) {
            return Err(format!("error {}, libyaml's {}", end.brief(), mend.brief()));
        }
    }
    let utf8 = cfg.encoding == Some(1) || cfg.encoding.is_none() && matches!(evs.first(), Some(Ev::StreamStart(0 | 1)));
    if utf8 && *cfg == (Cfg { encoding: cfg.encoding, ..Cfg::default() }) {
        let s = rs::emit_to_string(cfg, evs).map_err(|p| format!("panic with set_output_string: {p}"))?;
        if s != out {
            return Err(format!("through set_output_string {}, through set_output {}", show(&s), show(&out)));
        }
    }
    if out != mo && !mend.is_err() {
        // libyaml writes wrong UTF-16 surrogates: there the reference is its
        // own UTF-8 output, transcoded.
        if let Some(be) = utf16(cfg, evs) {
            let (u, _, _) = reference(&Cfg { encoding: Some(1), ..*cfg }, evs, |_| {});
            let u = String::from_utf8_lossy(&u).into_owned();
            if u.chars().any(|c| c as u32 > 0xffff) && out == to16(&format!("\u{feff}{u}"), be) {
                return Ok(end);
            }
        }
        return Err(format!("output {}, libyaml's {}", show(&out), show(&mo)));
    }
    Ok(end)
}

struct Same;
impl Prop for Same {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "the implementation and the reference model (unsafe-libyaml) emit the same event stream; output bytes, number of accepted events and error must agree; states are distinct control states of the reference emitter (state stack, indents, flags, queue), transitions its accepted events"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = structure(thorough, &[0, 1, 3, 4, 6, 10, 11, 14], 1);
        v.extend(documents(thorough, &[0, 1, 8, 16]));
        v.extend(scalars(thorough, &[0, 2, 12], 1));
        v.extend(lines(thorough, &[0, 2, 3, 16]));
        v.extend(keys(thorough, &[0, 1, 2, 8]));
        v.extend(folding(thorough, 1));
        v.extend(tags(thorough));
        v.extend(anchors(thorough));
        v.extend(attributes(&[0, 1, 2, 4]));
        v.extend(long(thorough));
        v.extend(repeated(thorough));
        v.push(grid(thorough));
        v.extend(codepoints(thorough));
        v.extend(super::spaces::text("text", thorough, 0));
        v
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["tags, anchors and directives with NUL are outside the comparison: libyaml takes C strings", "output written before an error is not compared"]
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        render(kind, case)
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "text" {
            return from_text(case, ctx, |cfg, evs, ctx| {
                if has_nul(evs) {
                    return V::Ok;
                }
                match compare(cfg, evs, ctx) {
                    Ok(_) => V::Ok,
                    Err(m) => V::Bad(m),
                }
            });
        }
        if duplicate(kind, case) {
            return V::Dup;
        }
        let Some((cfg, evs)) = decode(kind, case) else { return V::Skip };
        if has_nul(&evs) {
            return V::Skip;
        }
        match compare(&cfg, &evs, ctx) {
            Ok(end) => {
                ctx.outcome(&(case.len(), end.is_err(), evs.len()));
                V::Ok
            }
            Err(m) => V::Bad(m),
        }
    }
}

// ------------------------------------------------------------------ C12

/// What makes a single event unacceptable, whatever its place.
fn content_ok(e: &Ev, canonical: bool) -> bool {
    let name = |a: &[u8]| !a.is_empty() && a.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-'));
    let anchor = |a: &Option<S>| a.as_ref().is_none_or(|a| name(a));
    match e {
        Ev::Alias(a) => name(a),
        Ev::Scalar { anchor: a, tag, plain, quoted, .. } => {
            let used = canonical || (!plain && !quoted);
            let no_tag = tag.is_none() || !used;
            anchor(a) && !(used && tag.as_ref().is_some_and(|t| t.is_empty())) && !(no_tag && !plain && !quoted)
        }
        Ev::SeqStart { anchor: a, tag, implicit, .. } | Ev::MapStart { anchor: a, tag, implicit, .. } => {
            anchor(a) && !((canonical || !implicit) && tag.as_ref().is_some_and(|t| t.is_empty()))
        }
        Ev::DocStart { version, tags, .. } => {
            let h = |h: &[u8]| {
                h.first() == Some(&b'!')
                    && h.last() == Some(&b'!')
                    && (h.len() <= 2 || h[1..h.len() - 1].iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-')))
            };
            version.is_none_or(|v| v.0 == 1 && (v.1 == 1 || v.1 == 2))
                && tags.iter().all(|t| h(&t.0) && !t.1.is_empty())
                && (0..tags.len()).all(|i| tags[..i].iter().all(|u| u.0 != tags[i].0))
        }
        _ => true,
    }
}

/// With which event the emitter, which looks at most three events ahead, has
/// to handle event `w`: the start of a document waits for one event, of a
/// sequence for two, of a mapping for three, unless it ends before that.
fn seen(evs: &[Ev], w: usize) -> usize {
    let mut head = 0;
    for k in 0..evs.len() {
        while head <= k {
            let wait = match evs[head] {
                Ev::DocStart { .. } => 1,
                Ev::SeqStart { .. } => 2,
                Ev::MapStart { .. } => 3,
                _ => 0,
            };
            if k - head < wait {
                let mut level = 0;
                let ends = evs[head..=k].iter().any(|e| {
                    level += match e {
                        Ev::StreamStart(_) | Ev::DocStart { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. } => 1,
                        Ev::StreamEnd | Ev::DocEnd { .. } | Ev::SeqEnd | Ev::MapEnd => -1,
                        _ => 0,
                    };
                    level == 0
                });
                if !ends {
                    break;
                }
            }
            if head == w {
                return k;
            }
            head += 1;
        }
    }
    evs.len()
}

struct Accept;
impl Prop for Accept {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "every sequence of events, well formed or not, is emitted; a pushdown recogniser of the event grammar with the rules on names, tags and directives says which must be refused; states are those of the recogniser, transitions are emitted events; after a refusal every further kind of call is made and must not panic"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = any(thorough);
        v.extend(documents(thorough, &[0, 1]));
        v.extend(tags(thorough));
        v.extend(anchors(thorough));
        v.extend(attributes(&[0, 1]));
        v.extend(structure(thorough, &[0, 1], 1));
        v.extend(repeated(thorough));
        v.push(index("cp", "all code points below 0x3000 in tags, aliases and tag prefixes".into(), 0x2fff * 3, |i| {
            let mut c = vec![0, 1, 3 + (i % 3) as u8, 1];
            c.extend_from_slice(&((i / 3) as u32 + 1).to_le_bytes());
            c
        }));
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        render(kind, case)
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if duplicate(kind, case) {
            return V::Dup;
        }
        let Some((cfg, mut evs)) = decode(kind, case) else { return V::Skip };
        let canonical = cfg.canonical == Some(true);
        // First event that must be refused, if any.
        let mut g = Grammar::default();
        let mut wrong = None;
        for (k, e) in evs.iter().enumerate() {
            if g.step(e).is_err() || !content_ok(e, canonical) {
                wrong = Some(k);
                break;
            }
            ctx.states.insert(g.hash());
        }
        let given = evs.len();
        // The emitter looks ahead by up to three events: let it see them.
        evs.extend([Ev::StreamEnd, Ev::StreamEnd, Ev::StreamEnd, Ev::StreamEnd]);
        let mut out = Vec::new();
        let mut at = None;
        let r = rs::guarded(|| {
            let mut e = l::Emitter::new();
            e.set_output(&mut out);
            rs::configure(&mut e, &cfg);
            for (k, x) in evs.iter().enumerate() {
                ctx.trans += 1;
                if let Err(err) = e.emit(rs::to_event(x)) {
                    at = Some((k, rs::er_of(err)));
                    break;
                }
            }
            at.is_some()
        });
        match r {
            Err(p) => return V::Bad(format!("emit panics: {p}")),
            Ok(false) => return V::Bad(format!("{given} events and four STREAM-END are all accepted (first invalid: {wrong:?})")),
            Ok(true) => {}
        }
        let (k, er) = at.unwrap();
        ctx.outcome(&(&er.problem, k, wrong));
        if er.kind != EKind::Emitter {
            return V::Bad(format!("refused with {er:?}"));
        }
        if let Err(m) = super::parse::display_ok(&er) {
            return V::Bad(m);
        }
        match wrong {
            Some(w) if k < w => return V::Bad(format!("event {k} is refused ({}) although it is valid", er.problem)),
            Some(w) if k > seen(&evs, w) => return V::Bad(format!("invalid event {w} is refused only at {k}: {}", er.problem)),
            Some(_) => {}
            None if g.complete() => {
                if k != given {
                    return V::Bad(format!("valid stream refused at event {k}: {}", er.problem));
                }
            }
            None => {
                // A valid prefix: only the STREAM-END that follows may be refused.
                if k < given {
                    return V::Bad(format!("event {k} is refused ({}) although it is valid", er.problem));
                }
            }
        }
        // Calls after the refusal.
        let n = evs.len() - 4;
        let mut out2 = Vec::new();
        let r = rs::guarded(|| {
            let mut e = l::Emitter::new();
            e.set_output(&mut out2);
            rs::configure(&mut e, &cfg);
            for x in &evs[..=k.min(evs.len() - 1)] {
                let _ = e.emit(rs::to_event(x));
            }
            let more = [sc("q", 1), seq(1), Ev::SeqEnd, map(2), Ev::MapEnd, Ev::Alias(b"q".to_vec()), ds(), de(), Ev::StreamEnd, Ev::StreamStart(1)];
            more.iter().chain(&evs[..n]).find(|x| e.emit(rs::to_event(x)).is_ok()).cloned()
        });
        match r {
            Err(p) => V::Bad(format!("emit after the refusal of event {k} panics: {p}")),
            Ok(Some(x)) => V::Bad(format!("after the refusal of event {k} the emitter accepts {x:?}")),
            Ok(None) => V::Ok,
        }
    }
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Error(io::ErrorKind),
    /// The writer accepts nothing.
    Zero,
    /// Before every call, to be retried silently.
    Interrupt,
}
const FAULTS: &[Fault] = &[
    Fault::Error(io::ErrorKind::BrokenPipe),
    Fault::Zero,
    Fault::Error(io::ErrorKind::WouldBlock),
    Fault::Error(io::ErrorKind::UnexpectedEof),
    Fault::Error(io::ErrorKind::WriteZero),
    Fault::Error(io::ErrorKind::TimedOut),
    Fault::Error(io::ErrorKind::Other),
    Fault::Error(io::ErrorKind::InvalidInput),
];
/// What the harness sees and sets while the emitter owns the writer.
#[derive(Clone, Default)]
struct Wire(std::rc::Rc<WireState>);
#[derive(Default)]
struct WireState {
    got: std::cell::RefCell<Vec<u8>>,
    /// Calls and faults so far.
    calls: std::cell::Cell<usize>,
    faults: std::cell::Cell<usize>,
    /// The next calls fail, however many bytes they bring.
    armed: std::cell::Cell<usize>,
}
impl Wire {
    fn got(&self) -> std::cell::Ref<'_, Vec<u8>> {
        self.0.got.borrow()
    }
    fn len(&self) -> usize {
        self.0.got.borrow().len()
    }
    fn calls(&self) -> u64 {
        self.0.calls.get() as u64
    }
    fn faults(&self) -> usize {
        self.0.faults.get()
    }
}
/// Takes at most `step` bytes per call; fails once, or from then on, when
/// `after` bytes have been taken, or when it is armed.
struct Writer {
    wire: Wire,
    step: usize,
    after: usize,
    fault: Option<Fault>,
    sticky: bool,
    toggle: usize,
}
impl Writer {
    fn fail(&mut self, f: Fault) -> io::Result<usize> {
        self.wire.0.faults.set(self.wire.faults() + 1);
        match f {
            Fault::Error(k) => Err(io::Error::new(k, "planned fault")),
            _ => Ok(0),
        }
    }
}
impl io::Write for Writer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let w = self.wire.0.clone();
        w.calls.set(w.calls.get() + 1);
        if self.fault == Some(Fault::Interrupt) {
            // Forty times in a row for one size of the pieces, else once.
            self.toggle = (self.toggle + 1) % if self.step == 2 { 41 } else { 2 };
            if self.toggle != 0 {
                w.faults.set(w.faults.get() + 1);
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
        }
        let mut n = b.len().min(self.step);
        if let Some(f @ (Fault::Error(_) | Fault::Zero)) = self.fault {
            if w.armed.get() > 0 {
                w.armed.set(w.armed.get() - 1);
                return self.fail(f);
            }
            let len = w.got.borrow().len();
            if len >= self.after {
                if !self.sticky {
                    self.after = usize::MAX;
                }
                return self.fail(f);
            }
            n = n.min(self.after - len);
        }
        w.got.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn writer(step: usize, after: usize, fault: Option<Fault>, sticky: bool) -> Writer {
    Writer { wire: Wire::default(), step, after, fault, sticky, toggle: 0 }
}
/// The cause an error carries.
fn cause(e: &l::Error) -> Option<io::ErrorKind> {
    std::error::Error::source(e).and_then(|s| s.downcast_ref::<io::Error>()).map(|e| e.kind())
}
fn reported(e: &l::Error, f: Fault) -> Result<(), String> {
    let kind = match f {
        Fault::Error(k) => k,
        _ => io::ErrorKind::WriteZero,
    };
    if e.kind() != l::ErrorKind::Io {
        return Err(format!("the write fault is reported as {e}"));
    }
    if cause(e) != Some(kind) {
        return Err(format!("the error's source is {:?}, the writer's error was {kind:?}", cause(e)));
    }
    let want = if f == Fault::Zero { "write" } else { "planned fault" };
    if !e.to_string().contains(want) {
        return Err(format!("the error does not carry the cause: {e}"));
    }
    Ok(())
}

struct Faults;
const FAULT_STREAMS: u8 = 6;
fn fault_stream(i: u8) -> Vec<Ev> {
    match i {
        0 => wrap(3, vec![sc("a\nb", 4)]),
        1 => {
            let mut v = vec![Ev::StreamStart(0)];
            for (k, t) in ["one", "two\n\n", "\u{e9}\u{1f600}"].iter().enumerate() {
                v.extend([Ev::DocStart { version: if k == 1 { Some((1, 1)) } else { None }, tags: vec![], implicit: true }, sc(t, if k == 1 { 4 } else { 0 }), Ev::DocEnd { implicit: k != 1 }]);
            }
            v.push(Ev::StreamEnd);
            v
        }
        2 => wrap(1, vec![sc(std::str::from_utf8(&pattern(1, 17000)).unwrap(), 1)]),
        3 => wrap(5, vec![sc(std::str::from_utf8(&pattern(6, 33000)).unwrap(), 3)]),
        4 => wrap(8, vec![sc(std::str::from_utf8(&pattern(4, 16500)).unwrap(), 4)]),
        _ => wrap(10, vec![seq(2), sc("", 2), Ev::SeqEnd]),
    }
}
impl Faults {
    /// The fault, once or for good, after `k` bytes: it is reported by the
    /// very call that met it, the bytes taken are the first k of the output,
    /// and the emitter may be called again.
    fn after(cfg: &Cfg, evs: &[Ev], full: &[u8], k: usize, fault: Fault, sticky: bool, ctx: &mut Ctx) -> Result<(), String> {
        let w = writer(usize::MAX, k, Some(fault), sticky);
        let wire = w.wire.clone();
        let r = rs::guarded(|| -> Result<(), String> {
            let mut e = l::Emitter::new();
            let mut w = w;
            e.set_output(&mut w);
            rs::configure(&mut e, cfg);
            for k in 0..=evs.len() {
                let before = wire.len();
                let r = match evs.get(k) {
                    Some(x) => e.emit(rs::to_event(x)),
                    None => e.flush(),
                };
                match r {
                    Ok(()) if wire.faults() > 0 => return Err(format!("call {k} meets the write fault and succeeds")),
                    Ok(()) => {}
                    Err(er) if wire.faults() == 0 => return Err(format!("call {k} fails without a write fault: {er}")),
                    Err(er) => {
                        reported(&er, fault).map_err(|m| format!("call {k}: {m}"))?;
                        if wire.got()[..] != full[..wire.len().min(full.len())] {
                            return Err(format!("delivered bytes are not the beginning of the output: {}", show(&wire.got())));
                        }
                        if !sticky {
                            // Nothing was taken: nothing may be lost or doubled.
                            let whole = wire.len() == before;
                            let r = e.flush();
                            if whole {
                                r.map_err(|e| format!("flush after the fault: {e}"))?;
                                if !full.starts_with(&wire.got()) {
                                    return Err(format!("flushing after a fault that took nothing delivers {}, the output is {}", show(&wire.got()), show(full)));
                                }
                            }
                        }
                        // Further calls are safe.
                        for y in evs[k.min(evs.len())..].iter().chain(evs) {
                            let _ = e.emit(rs::to_event(y));
                        }
                        let _ = e.flush();
                        let _ = e.flush();
                        return Ok(());
                    }
                }
            }
            if wire.got()[..] != *full {
                return Err(format!("no fault happened, yet {} of {} bytes are delivered", wire.len(), full.len()));
            }
            Ok(())
        });
        ctx.trans += wire.calls();
        ctx.count(if wire.faults() > 0 { "runs with a fault" } else { "runs without a fault" }, 1);
        ctx.outcome(&(hash(full), k, sticky, format!("{fault:?}")));
        match r {
            Err(p) => Err(format!("panics: {p}")),
            Ok(r) => r,
        }
    }
    /// flush() after the first k+1 events fails `times` times without taking
    /// anything and is repeated; nothing is lost or doubled.
    fn repeated(cfg: &Cfg, evs: &[Ev], full: &[u8], k: usize, fault: Fault, times: usize, ctx: &mut Ctx) -> Result<(), String> {
        let w = writer(usize::MAX, usize::MAX, Some(fault), false);
        let wire = w.wire.clone();
        let r = rs::guarded(|| -> Result<(), String> {
            let mut e = l::Emitter::new();
            let mut w = w;
            e.set_output(&mut w);
            rs::configure(&mut e, cfg);
            for (j, x) in evs.iter().enumerate() {
                e.emit(rs::to_event(x)).map_err(|e| format!("event {j}: {e}"))?;
                if j == k {
                    wire.0.armed.set(times);
                    for t in 0..times {
                        let r = e.flush();
                        match (&r, wire.faults() == t + 1) {
                            (Err(er), true) => reported(er, fault)?,
                            (Ok(()), false) => break,
                            _ => return Err(format!("flush gives {r:?}, the writer failed: {}", wire.faults() == t + 1)),
                        }
                    }
                    wire.0.armed.set(0);
                    e.flush().map_err(|e| format!("repeated flush: {e}"))?;
                }
            }
            e.flush().map_err(|e| format!("last flush: {e}"))
        });
        ctx.trans += wire.calls();
        ctx.outcome(&(hash(full), k, times, format!("{fault:?}")));
        match r {
            Err(p) => Err(format!("panics: {p}")),
            Ok(Err(m)) => Err(m),
            Ok(Ok(())) if wire.got()[..] != *full => {
                Err(format!("after a failed and a repeated flush {} bytes are delivered instead of {}: {}", wire.len(), full.len(), show(&wire.got())))
            }
            _ => Ok(()),
        }
    }
    fn short(cfg: &Cfg, evs: &[Ev], full: &[u8], step: usize, interrupt: bool, ctx: &mut Ctx) -> Result<(), String> {
        let w = writer(step, usize::MAX, interrupt.then_some(Fault::Interrupt), true);
        let wire = w.wire.clone();
        let r = rs::guarded(|| {
            let mut e = l::Emitter::new();
            let mut w = w;
            e.set_output(&mut w);
            rs::configure(&mut e, cfg);
            for (k, x) in evs.iter().enumerate() {
                e.emit(rs::to_event(x)).map_err(|e| format!("call {k}: {e}"))?;
            }
            e.flush().map_err(|e| format!("flush: {e}"))
        });
        ctx.trans += wire.calls();
        ctx.outcome(&(hash(full), step, interrupt));
        match r {
            Err(p) => Err(format!("panics: {p}")),
            Ok(Err(m)) => Err(format!("short or interrupted writes are reported as an error: {m}")),
            Ok(Ok(())) if wire.got()[..] != *full => Err(format!("{} bytes delivered, {} expected", wire.len(), full.len())),
            _ => Ok(()),
        }
    }
    /// All faults of a short stream.
    fn all(cfg: &Cfg, evs: &[Ev], ctx: &mut Ctx) -> V {
        let (full, _, end) = rs::emit_all(cfg, evs, true);
        if end != End::Done {
            return V::Skip;
        }
        ctx.states.insert(hash(&full));
        let r = (|| {
            for k in 0..=full.len() {
                let fault = FAULTS[k % FAULTS.len()];
                for (f, sticky) in [(Fault::Error(io::ErrorKind::Other), true), (Fault::Zero, false), (fault, false)] {
                    Faults::after(cfg, evs, &full, k, f, sticky, ctx).map_err(|m| format!("{f:?} after {k} bytes, sticky {sticky}: {m}"))?;
                }
            }
            for k in 0..evs.len() {
                for (n, f) in FAULTS.iter().enumerate() {
                    let times = 1 + (n + k) % 2;
                    Faults::repeated(cfg, evs, &full, k, *f, times, ctx).map_err(|m| format!("flush after event {k} fails {times} times with {f:?}: {m}"))?;
                }
            }
            for step in [1, 2, 3] {
                Faults::short(cfg, evs, &full, step, step != 2, ctx).map_err(|m| format!("{step} bytes per call: {m}"))?;
            }
            Ok(())
        })();
        match r {
            Ok(()) => V::Ok,
            Err(m) => V::Bad(m),
        }
    }
    /// Loaded documents written by dump() to an output that fails after every
    /// number of bytes.
    fn dump(cfg: &Cfg, text: &[u8], ctx: &mut Ctx) -> V {
        let docs = || -> Option<Vec<l::Document>> {
            let mut p = l::Parser::new();
            p.set_input(text);
            let mut v = vec![];
            loop {
                match l::Document::load(&mut p) {
                    Ok(d) if d.nodes.is_empty() => return Some(v),
                    Ok(d) => v.push(d),
                    Err(_) => return None,
                }
            }
        };
        let Ok(Some(n)) = rs::guarded(|| docs().map(|d| d.len())) else { return V::Skip };
        // Calls: open, one dump per document, close, flush.
        let run = |w: Writer| -> Result<(), String> {
            let wire = w.wire.clone();
            let fault = w.fault;
            rs::guarded(move || {
                let mut w = w;
                let mut e = l::Emitter::new();
                e.set_output(&mut w);
                rs::configure(&mut e, cfg);
                let mut docs = docs().unwrap().into_iter();
                for k in 0..n + 3 {
                    let r = match k {
                        0 => e.open(),
                        k if k <= n => docs.next().unwrap().dump(&mut e),
                        k if k == n + 1 => e.close(),
                        _ => e.flush(),
                    };
                    match r {
                        Ok(()) if wire.faults() > 0 => return Err(format!("call {k} meets the write fault and succeeds")),
                        Ok(()) => {}
                        Err(er) if wire.faults() == 0 => return Err(format!("call {k} fails without a write fault: {er}")),
                        Err(er) => return reported(&er, fault.unwrap()).map_err(|m| format!("call {k}: {m}")),
                    }
                }
                Ok(())
            })
            .unwrap_or_else(|p| Err(format!("panics: {p}")))
        };
        let w = writer(usize::MAX, usize::MAX, None, false);
        let wire = w.wire.clone();
        if run(w).is_err() {
            // What cannot be dumped is not this property's business.
            return V::Skip;
        }
        let full = wire.got().clone();
        ctx.states.insert(hash(&(&full, "dump")));
        for k in 0..full.len() {
            for (f, sticky) in [(FAULTS[k % FAULTS.len()], true), (Fault::Zero, false)] {
                let w = writer(usize::MAX, k, Some(f), sticky);
                let wire = w.wire.clone();
                let r = run(w);
                ctx.trans += wire.calls();
                ctx.count("dumps with a fault", 1);
                ctx.outcome(&(hash(&full), k, sticky));
                if let Err(m) = r {
                    return V::Bad(format!("dump, {f:?} after {k} bytes: {m}"));
                }
                if wire.faults() == 0 || wire.got()[..] != full[..k] {
                    return V::Bad(format!("dump, {f:?} after {k} bytes: {} faults, delivered {}", wire.faults(), show(&wire.got())));
                }
            }
        }
        V::Ok
    }
}
impl Prop for Faults {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "a case is one stream with one or all of its fault plans: the writer fails (eight kinds of error, or accepts nothing) after exactly k bytes for every k, once or for good, or at every flush, takes at most s bytes per call, or is interrupted before every call; documents are dumped under the same faults; a distinct outcome is a (stream, fault, delivered length) triple; a state is an output; steps are write calls"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = vec![];
        let nf = FAULTS.len() as u8;
        for s in 0..FAULT_STREAMS {
            for cfg in [0u8, 2, 8, 9] {
                let evs = fault_stream(s);
                let (out, _, _) = rs::emit_all(&CFGS[cfg as usize], &evs, true);
                let n = out.len() as u64 + 2;
                // Long streams: every k near the ends of the buffers.
                let ks: Vec<u64> = (0..n)
                    .filter(|k| {
                        n < 400 || thorough && k % 3 == 0 || k % 256 == 0 || (k % 16384) < 12 || (k % 16384) > 16384 - 30 || *k + 40 > n || (k % 32768) > 32768 - 60
                    })
                    .collect();
                v.push(list(
                    "f",
                    &format!("stream {s}, {}: error or zero write after k bytes", cfg_name(&CFGS[cfg as usize])),
                    ks.iter()
                        .flat_map(|k| {
                            (0..if n < 400 { 2 * nf } else { 6 }).map(move |f| {
                                let mut c = vec![0, s, cfg, f];
                                c.extend_from_slice(&(*k as u32).to_le_bytes());
                                c
                            })
                        })
                        .collect(),
                ));
                v.push(list(
                    "f",
                    &format!("stream {s}, {}: short and interrupted writes", cfg_name(&CFGS[cfg as usize])),
                    [1u32, 2, 3, 7, 100, 4095, 16383, 100000]
                        .iter()
                        .flat_map(|k| {
                            (0..2u8).map(move |f| {
                                let mut c = vec![1, s, cfg, f];
                                c.extend_from_slice(&k.to_le_bytes());
                                c
                            })
                        })
                        .collect(),
                ));
            }
        }
        // Explicit flush, failing, then repeated.
        let mut c2 = vec![];
        for s in 0..FAULT_STREAMS {
            for cfg in [0u8, 2, 8, 9] {
                for k in 0..fault_stream(s).len() as u32 {
                    for f in 0..3 * nf {
                        let mut c = vec![2, s, cfg, f];
                        c.extend_from_slice(&k.to_le_bytes());
                        c2.push(c);
                    }
                }
            }
        }
        v.push(list("f", "flush() after every prefix fails once, twice or three times before taking anything, then is repeated", c2));
        let up = thorough as usize;
        for mut s in structure(false, &[0, 9], 0) {
            if let Gen::Tree { depth, atoms, .. } = &mut s.gen {
                *depth = if atoms.len() > 10 { 2 } else { 3 } + up;
                s.name = format!("every fault, {} (here at most {})", s.name, *depth);
            }
            v.push(s);
        }
        for mut s in documents(false, &[0, 8]) {
            if let Gen::Tree { depth, .. } = &mut s.gen {
                *depth = 1;
                s.name = format!("every fault, {} (here at most 1)", s.name);
            }
            v.push(s);
        }
        for style in 0..6u8 {
            for ctx in [0u8, 3, 5, 11] {
                for c in [0u8, 12, 9] {
                    let mut s = t_scalar(style, ctx, &["a", " ", "\n", "\u{e9}", "word ", "\u{1f600}", "\u{7}"], 2 + up);
                    if let Gen::Tree { prefix, .. } = &mut s.gen {
                        prefix[0] = c;
                    }
                    s.name = format!("every fault, {}, {}", s.name, cfg_name(&CFGS[c as usize]));
                    v.push(s);
                }
            }
        }
        for (c, name) in [(b'0', "UTF-8"), (b'9', "UTF-16")] {
            v.push(tree_ps(
                "dump",
                &format!("dumping loaded texts, {name}"),
                &(c as char).to_string(),
                &["a\n", "- ", "&a ", "*a ", "[", "]", "b: ", "!t ", "'\u{e9}'\n", "|\n  x\n", "--- ", "{", "}", ", ", "%TAG !e! x:\n"],
                &[""],
                4 + up,
            ));
        }
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind == "dump" {
            return show(case);
        }
        if kind != "f" {
            return render(kind, case);
        }
        let what = ["fault after k bytes", "short writes of at most k bytes", "flush fails after event k, then is repeated"];
        format!(
            "{} (variant {}), k = {}, stream {}, {}",
            what.get(case[0] as usize).unwrap_or(&"?"),
            case[3],
            u32::from_le_bytes(case[4..8].try_into().unwrap()),
            case[1],
            cfg_name(&CFGS[case[2] as usize])
        )
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "dump" {
            let Some((c, t)) = case.split_first() else { return V::Skip };
            let Some(cfg) = CFGS.get(c.wrapping_sub(b'0') as usize) else { return V::Skip };
            return Faults::dump(cfg, t, ctx);
        }
        if kind != "f" {
            if duplicate(kind, case) {
                return V::Dup;
            }
            let Some((cfg, evs)) = decode(kind, case) else { return V::Skip };
            return Faults::all(&cfg, &evs, ctx);
        }
        if case.len() != 8 || case[1] >= FAULT_STREAMS || case[2] as usize >= CFGS.len() {
            return V::Skip;
        }
        let (mode, s, cfg, f) = (case[0], case[1], CFGS[case[2] as usize], case[3] as usize);
        let k = u32::from_le_bytes(case[4..8].try_into().unwrap()) as usize;
        let evs = fault_stream(s);
        let (full, _, end) = rs::emit_all(&cfg, &evs, true);
        if end != End::Done {
            return V::Bad(format!("without a fault: {}", end.brief()));
        }
        let nf = FAULTS.len();
        let r = match mode {
            0 => Faults::after(&cfg, &evs, &full, k, FAULTS[f / 2 % nf], f & 1 == 0, ctx),
            1 => Faults::short(&cfg, &evs, &full, k, f == 1, ctx),
            2 => Faults::repeated(&cfg, &evs, &full, k, FAULTS[f % nf], 1 + f / nf, ctx),
            _ => return V::Skip,
        };
        match r {
            Ok(()) => V::Ok,
            Err(m) => V::Bad(m),
        }
    }
}

// ------------------------------------------------------------------ C14

struct Config;
fn content(run: &Run<Ev>) -> Vec<(&'static str, S, Option<S>, Option<S>)> {
    run.items
        .iter()
        .map(|e| match &e.v {
            Ev::Scalar { value, anchor, tag, .. } => ("scalar", value.clone(), anchor.clone(), tag.clone()),
            Ev::SeqStart { anchor, tag, .. } => ("seq", vec![], anchor.clone(), tag.clone()),
            Ev::MapStart { anchor, tag, .. } => ("map", vec![], anchor.clone(), tag.clone()),
            Ev::Alias(a) => ("alias", a.clone(), None, None),
            e => (kind_name(e), vec![], None, None),
        })
        .collect()
}
impl Prop for Config {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "every stream is emitted under the configurations of a grid and the outputs are related to each other: same content, escaped to ASCII unless unicode is allowed, the chosen break only, UTF-16 the same text behind a byte order mark, one line per scalar at unlimited width, nested blocks indented by the chosen amount; states are (configuration, stream shape) pairs, transitions are emissions"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = structure(thorough, &[0], 0);
        v.extend(documents(false, &[0]).into_iter().map(|mut s| {
            if let Gen::Tree { depth, .. } = &mut s.gen {
                *depth = 2;
            }
            s
        }));
        for style in 0..6u8 {
            for ctx in [0u8, 2, 3, 4, 7, 11] {
                let d = if thorough { 3 } else { 2 };
                v.push(t_scalar(style, ctx, WIDE, d));
                v.push(t_scalar(style, ctx, &["a", " ", "\n", "\u{e9}", "word ", "\u{2028}"], d + 2));
            }
        }
        v.extend(lines(false, &[0]));
        v.extend(keys(thorough, &[0]));
        v.extend(long(thorough).into_iter().take(1));
        v.extend(attributes(&[0]));
        v.extend(repeated_at(&if thorough { vec![2, 9, 10, 32, 64, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 1100] } else { vec![9, 64, 128, 256, 1100] }));
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        render(kind, case)
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if duplicate(kind, case) {
            return V::Dup;
        }
        let Some((_, evs)) = decode(kind, case) else { return V::Skip };
        // An empty tag is refused where tags are shown, as canonical output does.
        // The resolution of a scalar with one of the two implicit flags may
        // depend on the style it ends up with.
        if kind == "fl" && (case[5] == 1 || case[1] == 0 && matches!(case[4], 1 | 2)) {
            return V::Skip;
        }
        let mut evs = evs;
        evs[0] = Ev::StreamStart(0);
        let base = Cfg::default();
        let mut emit = |c: &Cfg| -> Result<Vec<u8>, String> {
            ctx.trans += 1;
            ctx.states.insert(hash(&(c, evs.len(), kind)));
            match rs::emit_all(c, &evs, true) {
                (o, _, End::Done) => Ok(o),
                (_, n, e) => Err(format!("{} at event {n}: {}", cfg_name(c), e.brief())),
            }
        };
        let plain = match emit(&base) {
            Ok(o) => o,
            Err(m) => {
                // Refused: no setting may change that.
                for c in &CFGS[1..] {
                    if let Ok(o) = emit(c) {
                        return V::Bad(format!("refused by default ({m}), accepted with {}: {}", cfg_name(c), show(&o)));
                    }
                }
                return V::Ok;
            }
        };
        let parse = |o: &[u8]| rs::parse_all(&mut Feed::new(o, Cut::Whole), 0);
        let first = parse(&plain);
        // What does not even read back by default is C10's business.
        let faith = |p: &Run<Ev>| {
            p.items.len() == evs.len()
                && evs.iter().zip(&p.items).all(|(a, b)| {
                    kind_name(a) == kind_name(&b.v)
                        && match (a, &b.v) {
                            (Ev::Scalar { value, .. }, Ev::Scalar { value: v, .. }) => value == v,
                            _ => true,
                        }
                })
        };
        let faithful = faith(&first);
        let text = |o: &[u8]| String::from_utf8(o.to_vec()).map_err(|_| "output is not UTF-8".to_string());
        let r = (|| -> Result<(), String> {
            let plain_t = text(&plain)?;
            // Content does not depend on the configuration.
            let want = content(&first);
            for c in &CFGS[1..] {
                let o = emit(c)?;
                let p = parse(&o);
                let got = content(&p);
                // Canonical output also shows tags that are implicit.
                let canon = c.canonical == Some(true);
                let same = got.len() == want.len()
                    && got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && (a.3 == b.3 || canon && b.3.is_none()));
                if faithful && !same && !matches!(round_trip(c, &evs, &o, &p), Err((_, Some(_)))) {
                    return Err(format!("with {} the content differs: {} instead of {}", cfg_name(c), show(&o), show(&plain)));
                }
                // Any UTF-8 output: ASCII without unicode.
                if c.encoding.is_none_or(|e| e == 1) && c.unicode != Some(true) && !o.is_ascii() {
                    return Err(format!("non-ASCII output without unicode, {}: {}", cfg_name(c), show(&o)));
                }
            }
            if !plain.is_ascii() {
                return Err(format!("non-ASCII output without unicode: {}", show(&plain)));
            }
            for unicode in [false, true] {
                let u = Cfg { unicode: Some(unicode), ..base };
                let ln = text(&emit(&u)?)?;
                // Line breaks.
                for (brk, s) in [(1u8, "\r"), (3, "\r\n")] {
                    let o = text(&emit(&Cfg { brk: Some(brk), ..u })?)?;
                    if o != ln.replace('\n', s) {
                        return Err(format!("with break {s:?}: {o:?}, expected {:?}", ln.replace('\n', s)));
                    }
                }
                let o = text(&emit(&Cfg { brk: Some(2), ..u })?)?;
                if o != ln {
                    return Err(format!("the default break is not a line feed: {o:?}"));
                }
                // Encodings.
                for (e, be) in [(2u8, false), (3, true)] {
                    let o = emit(&Cfg { encoding: Some(e), ..u })?;
                    let w = to16(&format!("\u{feff}{ln}"), be);
                    if o != w {
                        let units: Vec<u16> = o.chunks(2).map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).collect();
                        return Err(format!("encoding {e}: {:?}, the UTF-8 output is {ln:?}", String::from_utf16_lossy(&units)));
                    }
                    let mut es = evs.clone();
                    es[0] = Ev::StreamStart(e);
                    let (o2, _, _) = rs::emit_all(&u, &es, true);
                    if o2 != o {
                        return Err(format!("encoding {e} asked for by the event differs from the one that is configured"));
                    }
                }
                if text(&emit(&Cfg { encoding: Some(1), ..u })?)? != ln {
                    return Err("UTF-8 is not the default".into());
                }
            }
            // Out-of-range settings mean the defaults.
            for i in [i32::MIN, -1, 0, 1, 10, i32::MAX] {
                if emit(&Cfg { indent: Some(i), ..base })? != plain {
                    return Err(format!("indent {i} is not the default indent of 2"));
                }
            }
            for w in 0..5 {
                if emit(&Cfg { width: Some(w), ..base })? != plain {
                    return Err(format!("width {w} is not the default width of 80"));
                }
            }
            if emit(&Cfg { indent: Some(2), width: Some(80), canonical: Some(false), unicode: Some(false), ..base })? != plain {
                return Err("the defaults are not indent 2, width 80, not canonical, no unicode".into());
            }
            if plain_t.is_empty() {
                return Ok(());
            }
            // Unlimited width.
            let a = emit(&Cfg { width: Some(-1), ..base })?;
            let b = emit(&Cfg { width: Some(i32::MAX), ..base })?;
            if a != b || emit(&Cfg { width: Some(-2), ..base })? != a {
                return Err("negative widths are not unlimited".into());
            }
            let p = parse(&a);
            for e in &p.items {
                if let Ev::Scalar { value, style, .. } = &e.v {
                    if *style <= 3 && e.s.line != e.e.line && !value.contains(&b'\n') && !value.windows(2).any(|w| w == [0xc2, 0x85]) && !value.windows(2).any(|w| w == [0xe2, 0x80]) {
                        return Err(format!("a scalar is folded at unlimited width: {}", show(&a)));
                    }
                }
            }
            // Canonical output.
            let o = emit(&Cfg { canonical: Some(true), ..base })?;
            let p = parse(&o);
            for e in if faith(&p) { p.items } else { vec![] } {
                match &e.v {
                    Ev::Scalar { style, .. } if *style != 3 => return Err(format!("canonical scalar style {style}: {}", show(&o))),
                    Ev::SeqStart { style, .. } | Ev::MapStart { style, .. } if *style != 2 => return Err(format!("canonical block collection: {}", show(&o))),
                    Ev::DocStart { implicit: true, .. } => return Err(format!("canonical document without a marker: {}", show(&o))),
                    _ => {}
                }
            }
            // Indentation of nested block collections.
            for ind in 2..10u64 {
                let o = emit(&Cfg { indent: Some(ind as i32), ..base })?;
                let p = parse(&o);
                if !faith(&p) {
                    continue;
                }
                indentation(&p.items, ind).map_err(|m| format!("indent {ind}: {m} in {}", show(&o)))?;
            }
            Ok(())
        })();
        ctx.outcome(&content(&first));
        match r {
            Ok(()) => V::Ok,
            Err(m) => V::Bad(m),
        }
    }
}
fn t_scalar(style: u8, ctx: u8, al: &[&str], depth: usize) -> Scope {
    Scope {
        kind: "sc",
        name: format!("scalars, style {style} context {ctx} (all sequences of at most {depth} of {} atoms)", al.len()),
        gen: Gen::Tree { prefix: vec![0, style, ctx, 3], atoms: al.iter().map(|x| x.as_bytes().to_vec()).collect(), suffixes: vec![vec![]], depth, filter: None },
    }
}

/// Every block collection inside another one starts `ind` columns further
/// right, except that a sequence that is a mapping value may start at the
/// column of the mapping.
fn indentation(items: &[M<Ev>], ind: u64) -> Result<(), String> {
    // (is mapping, column of the entries, flow, children seen)
    let mut open: Vec<(bool, u64, bool, u64)> = vec![];
    for e in items {
        if !matches!(e.v, Ev::SeqEnd | Ev::MapEnd) {
            if let Some(o) = open.last_mut() {
                o.3 += 1;
            }
        }
        match &e.v {
            Ev::SeqStart { style, .. } | Ev::MapStart { style, .. } => {
                let is_map = matches!(e.v, Ev::MapStart { .. });
                let col = e.s.col;
                let has_props = matches!(&e.v, Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } if anchor.is_some() || tag.is_some());
                if *style == 1 && !has_props {
                    if let Some((pm, pc, false, n)) = open.last() {
                        if *pc != u64::MAX {
                            let ok = col == pc + ind || *pm && !is_map && n % 2 == 0 && col == *pc;
                            if !ok {
                                return Err(format!("a nested block collection at column {col}, its parent is at {pc}"));
                            }
                        }
                    }
                }
                open.push((is_map, if has_props { u64::MAX } else { col }, *style == 2, 0));
            }
            Ev::SeqEnd | Ev::MapEnd => {
                open.pop();
            }
            _ => {}
        }
    }
    Ok(())
}
