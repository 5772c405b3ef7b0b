//! The implementation under test: libyaml-safer, observed through its public
//! API and the neutral types. Every call is made under catch_unwind.
use crate::feed::Feed;
use crate::nt::*;
use libyaml_safer as l;
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    let verbose = std::env::var("MC_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        if verbose {
            eprintln!("{info}");
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // The line is left out: the same panic must compare equal after an
        // edit elsewhere in the file.
        let loc = info
            .location()
            .map(|l| l.file().rsplit('/').next().unwrap_or("").to_string())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Run on a thread with little stack, where recursion over the input shows.
pub fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, f).expect("spawn");
        h.join().expect("small stack")
    })
}

pub fn mk(m: l::Mark) -> Mk {
    Mk { idx: m.index, line: m.line, col: m.column }
}
pub fn enc(e: u8) -> l::Encoding {
    match e {
        0 => l::Encoding::Any,
        1 => l::Encoding::Utf8,
        2 => l::Encoding::Utf16Le,
        _ => l::Encoding::Utf16Be,
    }
}
fn encn(e: l::Encoding) -> u8 {
    match e {
        l::Encoding::Any => 0,
        l::Encoding::Utf8 => 1,
        l::Encoding::Utf16Le => 2,
        l::Encoding::Utf16Be => 3,
        _ => 9,
    }
}
fn ssn(s: l::ScalarStyle) -> u8 {
    match s {
        l::ScalarStyle::Any => 0,
        l::ScalarStyle::Plain => 1,
        l::ScalarStyle::SingleQuoted => 2,
        l::ScalarStyle::DoubleQuoted => 3,
        l::ScalarStyle::Literal => 4,
        l::ScalarStyle::Folded => 5,
        _ => 9,
    }
}
pub fn ss(x: u8) -> l::ScalarStyle {
    match x {
        1 => l::ScalarStyle::Plain,
        2 => l::ScalarStyle::SingleQuoted,
        3 => l::ScalarStyle::DoubleQuoted,
        4 => l::ScalarStyle::Literal,
        5 => l::ScalarStyle::Folded,
        _ => l::ScalarStyle::Any,
    }
}
fn qsn(s: l::SequenceStyle) -> u8 {
    match s {
        l::SequenceStyle::Any => 0,
        l::SequenceStyle::Block => 1,
        l::SequenceStyle::Flow => 2,
        _ => 9,
    }
}
pub fn qs(x: u8) -> l::SequenceStyle {
    match x {
        1 => l::SequenceStyle::Block,
        2 => l::SequenceStyle::Flow,
        _ => l::SequenceStyle::Any,
    }
}
fn msn(s: l::MappingStyle) -> u8 {
    match s {
        l::MappingStyle::Any => 0,
        l::MappingStyle::Block => 1,
        l::MappingStyle::Flow => 2,
        _ => 9,
    }
}
pub fn ms(x: u8) -> l::MappingStyle {
    match x {
        1 => l::MappingStyle::Block,
        2 => l::MappingStyle::Flow,
        _ => l::MappingStyle::Any,
    }
}
fn b(s: String) -> S {
    s.into_bytes()
}
fn bo(s: Option<String>) -> Option<S> {
    s.map(b)
}
/// Strings in cases are always valid UTF-8.
pub fn st(s: &[u8]) -> &str {
    std::str::from_utf8(s).expect("case string is UTF-8")
}

pub fn tok(t: l::Token) -> M<Tok> {
    use l::TokenData as T;
    let v = match t.data {
        T::StreamStart { encoding } => Tok::StreamStart(encn(encoding)),
        T::StreamEnd => Tok::StreamEnd,
        T::VersionDirective { major, minor } => Tok::Version(major, minor),
        T::TagDirective { handle, prefix } => Tok::TagDirective(b(handle), b(prefix)),
        T::DocumentStart => Tok::DocStart,
        T::DocumentEnd => Tok::DocEnd,
        T::BlockSequenceStart => Tok::BlockSeq,
        T::BlockMappingStart => Tok::BlockMap,
        T::BlockEnd => Tok::BlockEnd,
        T::FlowSequenceStart => Tok::FlowSeq,
        T::FlowSequenceEnd => Tok::FlowSeqEnd,
        T::FlowMappingStart => Tok::FlowMap,
        T::FlowMappingEnd => Tok::FlowMapEnd,
        T::BlockEntry => Tok::BlockEntry,
        T::FlowEntry => Tok::FlowEntry,
        T::Key => Tok::Key,
        T::Value => Tok::Value,
        T::Alias { value } => Tok::Alias(b(value)),
        T::Anchor { value } => Tok::Anchor(b(value)),
        T::Tag { handle, suffix } => Tok::Tag(b(handle), b(suffix)),
        T::Scalar { value, style } => Tok::Scalar(b(value), ssn(style)),
    };
    M { v, s: mk(t.start_mark), e: mk(t.end_mark) }
}
pub fn evd(d: l::EventData) -> Ev {
    use l::EventData as E;
    match d {
        E::StreamStart { encoding } => Ev::StreamStart(encn(encoding)),
        E::StreamEnd => Ev::StreamEnd,
        E::DocumentStart { version_directive, tag_directives, implicit } => Ev::DocStart {
            version: version_directive.map(|v| (v.major, v.minor)),
            tags: tag_directives.into_iter().map(|t| (b(t.handle), b(t.prefix))).collect(),
            implicit,
        },
        E::DocumentEnd { implicit } => Ev::DocEnd { implicit },
        E::Alias { anchor } => Ev::Alias(b(anchor)),
        E::Scalar { anchor, tag, value, plain_implicit, quoted_implicit, style } => Ev::Scalar {
            anchor: bo(anchor),
            tag: bo(tag),
            value: b(value),
            plain: plain_implicit,
            quoted: quoted_implicit,
            style: ssn(style),
        },
        E::SequenceStart { anchor, tag, implicit, style } => {
            Ev::SeqStart { anchor: bo(anchor), tag: bo(tag), implicit, style: qsn(style) }
        }
        E::SequenceEnd => Ev::SeqEnd,
        E::MappingStart { anchor, tag, implicit, style } => {
            Ev::MapStart { anchor: bo(anchor), tag: bo(tag), implicit, style: msn(style) }
        }
        E::MappingEnd => Ev::MapEnd,
    }
}
pub fn ev(e: l::Event) -> M<Ev> {
    M { s: mk(e.start_mark), e: mk(e.end_mark), v: evd(e.data) }
}
pub fn er(e: &l::Error) -> Er {
    Er {
        kind: match e.kind() {
            l::ErrorKind::Reader => EKind::Reader,
            l::ErrorKind::Scanner => EKind::Scanner,
            l::ErrorKind::Parser => EKind::Parser,
            l::ErrorKind::Composer => EKind::Composer,
            l::ErrorKind::Emitter => EKind::Emitter,
            l::ErrorKind::Io => EKind::Io,
        },
        problem: e.problem().to_string(),
        pmark: e.problem_mark().map(mk),
        context: e.context().map(|s| s.to_string()),
        cmark: e.context_mark().map(mk),
        offset: 0,
        value: 0,
        display: e.to_string(),
    }
}

/// The same, and that the error converts as it should: what is not about input
/// or output comes back unchanged, and has no source.
pub fn er_of(e: l::Error) -> Er {
    use std::error::Error as _;
    let mut r = er(&e);
    let io = r.kind == EKind::Io;
    if e.source().is_some() != io {
        r.display = format!("(source of {e})");
    }
    match std::io::Error::try_from(e) {
        Ok(_) if io => {}
        Err(back) if !io && er(&back) == r => {}
        x => r.display = format!("(converted into {x:?})"),
    }
    r
}

/// Drive `next` until a terminator, an error, a panic or the item limit.
pub fn drive<T: PartialEq>(
    limit: usize,
    done: impl Fn(&T) -> bool,
    mut next: impl FnMut() -> Result<M<T>, l::Error>,
) -> (Vec<M<T>>, End) {
    let mut items = vec![];
    let end = guarded(|| loop {
        match next() {
            Ok(t) => {
                let d = done(&t.v);
                items.push(t);
                if d {
                    break End::Done;
                }
                if items.len() > limit {
                    break End::Unbounded;
                }
            }
            Err(e) => break End::Err(er_of(e)),
        }
    })
    .unwrap_or_else(End::Panic);
    (items, end)
}

pub fn scan_on<R: BufRead>(src: R, encoding: u8, len: usize) -> (Vec<M<Tok>>, End) {
    let mut p = l::Scanner::new();
    p.set_input(src);
    if encoding != 0 {
        p.set_encoding(enc(encoding));
    }
    drive(64 + 8 * len, |t| *t == Tok::StreamEnd, || l::Scanner::scan(&mut p).map(tok))
}
pub fn parse_on<R: BufRead>(src: R, encoding: u8, len: usize) -> (Vec<M<Ev>>, End) {
    let mut p = l::Parser::new();
    p.set_input(src);
    if encoding != 0 {
        p.set_encoding(enc(encoding));
    }
    drive(64 + 8 * len, |t| *t == Ev::StreamEnd, || p.parse().map(ev))
}
pub fn scan_all(feed: &mut Feed, encoding: u8) -> Run<Tok> {
    let len = feed.data.len();
    let (items, end) = scan_on(&mut *feed, encoding, len);
    Run { items, end, saw_eof: feed.saw_eof }
}
pub fn parse_all(feed: &mut Feed, encoding: u8) -> Run<Ev> {
    let len = feed.data.len();
    let (items, end) = parse_on(&mut *feed, encoding, len);
    Run { items, end, saw_eof: feed.saw_eof }
}

pub fn doc(d: &l::Document) -> Doc {
    Doc {
        version: d.version_directive.map(|v| (v.major, v.minor)),
        tags: d
            .tag_directives
            .iter()
            .map(|t| (t.handle.clone().into_bytes(), t.prefix.clone().into_bytes()))
            .collect(),
        start_implicit: d.start_implicit,
        end_implicit: d.end_implicit,
        s: mk(d.start_mark),
        e: mk(d.end_mark),
        nodes: d.nodes.iter().map(node).collect(),
    }
}
pub fn node(n: &l::Node) -> Node {
    Node {
        tag: n.tag.clone().map(|s| s.into_bytes()),
        s: mk(n.start_mark),
        e: mk(n.end_mark),
        v: match &n.data {
            l::NodeData::NoNode => Nd::None,
            l::NodeData::Scalar { value, style } => Nd::Scalar(value.clone().into_bytes(), ssn(*style)),
            l::NodeData::Sequence { items, style } => Nd::Seq(items.clone(), qsn(*style)),
            l::NodeData::Mapping { pairs, style } => {
                Nd::Map(pairs.iter().map(|p| (p.key, p.value)).collect(), msn(*style))
            }
        },
    }
}

pub fn load_on<R: BufRead>(src: R, encoding: u8, len: usize) -> (Vec<Doc>, End) {
    let mut docs = vec![];
    let end = guarded(|| {
        let mut p = l::Parser::new();
        p.set_input(src);
        if encoding != 0 {
            p.set_encoding(enc(encoding));
        }
        loop {
            match l::Document::load(&mut p) {
                Ok(d) => {
                    if d.nodes.is_empty() {
                        break End::Done;
                    }
                    docs.push(doc(&d));
                    if docs.len() > 64 + len {
                        break End::Unbounded;
                    }
                }
                Err(e) => break End::Err(er_of(e)),
            }
        }
    })
    .unwrap_or_else(End::Panic);
    (docs, end)
}

// ---------------------------------------------------------------- emitter

thread_local! {
    static TEMPLATES: (l::VersionDirective, l::TagDirective) = templates();
}
/// The directive types have no public constructor: obtain one by parsing.
fn templates() -> (l::VersionDirective, l::TagDirective) {
    let mut src: &[u8] = b"%YAML 1.1\n%TAG !a! b\n--- x\n";
    let mut p = l::Parser::new();
    p.set_input(&mut src);
    loop {
        match p.parse().expect("template parses").data {
            l::EventData::DocumentStart { version_directive, tag_directives, .. } => {
                return (version_directive.expect("version"), tag_directives[0].clone());
            }
            l::EventData::StreamEnd => panic!("no document in the template"),
            _ => {}
        }
    }
}
pub fn version(v: (i32, i32)) -> l::VersionDirective {
    TEMPLATES.with(|t| {
        let mut x = t.0;
        x.major = v.0;
        x.minor = v.1;
        x
    })
}
pub fn tagdir(h: &[u8], p: &[u8]) -> l::TagDirective {
    TEMPLATES.with(|t| {
        let mut x = t.1.clone();
        x.handle = st(h).to_string();
        x.prefix = st(p).to_string();
        x
    })
}
pub fn to_event(e: &Ev) -> l::Event {
    match e {
        Ev::StreamStart(x) => l::Event::stream_start(enc(*x)),
        Ev::StreamEnd => l::Event::stream_end(),
        Ev::DocStart { version: v, tags, implicit } => {
            let t: Vec<_> = tags.iter().map(|(a, b)| tagdir(a, b)).collect();
            l::Event::document_start(v.map(version), &t, *implicit)
        }
        Ev::DocEnd { implicit } => l::Event::document_end(*implicit),
        Ev::Alias(a) => l::Event::alias(st(a)),
        Ev::Scalar { anchor, tag, value, plain, quoted, style } => l::Event::scalar(
            anchor.as_deref().map(st),
            tag.as_deref().map(st),
            st(value),
            *plain,
            *quoted,
            ss(*style),
        ),
        Ev::SeqStart { anchor, tag, implicit, style } => {
            l::Event::sequence_start(anchor.as_deref().map(st), tag.as_deref().map(st), *implicit, qs(*style))
        }
        Ev::SeqEnd => l::Event::sequence_end(),
        Ev::MapStart { anchor, tag, implicit, style } => {
            l::Event::mapping_start(anchor.as_deref().map(st), tag.as_deref().map(st), *implicit, ms(*style))
        }
        Ev::MapEnd => l::Event::mapping_end(),
    }
}
pub fn configure(e: &mut l::Emitter, cfg: &Cfg) {
    if let Some(x) = cfg.encoding {
        e.set_encoding(enc(x));
    }
    if let Some(x) = cfg.canonical {
        e.set_canonical(x);
    }
    if let Some(x) = cfg.indent {
        e.set_indent(x);
    }
    if let Some(x) = cfg.width {
        e.set_width(x);
    }
    if let Some(x) = cfg.unicode {
        e.set_unicode(x);
    }
    if let Some(x) = cfg.brk {
        e.set_break(match x {
            1 => l::Break::Cr,
            2 => l::Break::Ln,
            3 => l::Break::CrLn,
            _ => l::Break::Any,
        });
    }
}

/// Emit all events; flush at the end when `flush`. Returns output, the number
/// of events accepted, and how it ended.
pub fn emit_all(cfg: &Cfg, evs: &[Ev], flush: bool) -> (Vec<u8>, usize, End) {
    let mut out = Vec::new();
    let mut n = 0;
    let end = guarded(|| {
        let mut e = l::Emitter::new();
        e.set_output(&mut out);
        configure(&mut e, cfg);
        for x in evs {
            if let Err(err) = e.emit(to_event(x)) {
                return End::Err(er_of(err));
            }
            n += 1;
        }
        if flush {
            if let Err(err) = e.flush() {
                return End::Err(er_of(err));
            }
        }
        End::Done
    })
    .unwrap_or_else(End::Panic);
    (out, n, end)
}

/// The same into a string of another stream.
pub fn emit_to_string(cfg: &Cfg, evs: &[Ev]) -> Result<Vec<u8>, String> {
    let mut out = b"left from something else".to_vec();
    guarded(|| {
        let mut e = l::Emitter::default();
        if let Some(x) = cfg.encoding {
            e.set_encoding(enc(x));
        }
        e.set_output_string(&mut out);
        configure(&mut e, &Cfg { encoding: None, ..*cfg });
        if evs.iter().all(|x| e.emit(to_event(x)).is_ok()) {
            let _ = e.flush();
        }
    })?;
    Ok(out)
}

/// Build a library document from the neutral form through the builder API.
pub fn build_doc(d: &Doc) -> l::Document {
    let t: Vec<_> = d.tags.iter().map(|(a, b)| tagdir(a, b)).collect();
    let mut x = l::Document::new(d.version.map(version), &t, d.start_implicit, d.end_implicit);
    for n in &d.nodes {
        let tag = n.tag.as_deref().map(st);
        let _ = match &n.v {
            Nd::Scalar(v, s) => x.add_scalar(tag, st(v), ss(*s)),
            Nd::Seq(_, s) => x.add_sequence(tag, qs(*s)),
            Nd::Map(_, s) => x.add_mapping(tag, ms(*s)),
            Nd::None => panic!("no-node in a document to build"),
        };
    }
    for (i, n) in d.nodes.iter().enumerate() {
        let id = i as i32 + 1;
        match &n.v {
            Nd::Seq(items, _) => {
                for y in items {
                    x.append_sequence_item(id, *y);
                }
            }
            Nd::Map(pairs, _) => {
                for (k, v) in pairs {
                    x.yaml_document_append_mapping_pair(id, *k, *v);
                }
            }
            _ => {}
        }
    }
    x
}
