//! The reference model: unsafe-libyaml (libyaml transpiled), observed through
//! the neutral types.
use crate::feed::Feed;
use crate::nt::*;
use std::ffi::CStr;
use std::mem::MaybeUninit;
use std::os::raw::c_void;
use unsafe_libyaml::*;

fn mk(m: yaml_mark_t) -> Mk {
    Mk { idx: m.index, line: m.line, col: m.column }
}
unsafe fn s(p: *const u8) -> S {
    if p.is_null() {
        S::new()
    } else {
        CStr::from_ptr(p as *const _).to_bytes().to_vec()
    }
}
unsafe fn so(p: *const u8) -> Option<S> {
    if p.is_null() {
        None
    } else {
        Some(s(p))
    }
}
unsafe fn sl(p: *const u8, n: u64) -> S {
    if p.is_null() {
        S::new()
    } else {
        std::slice::from_raw_parts(p, n as usize).to_vec()
    }
}
unsafe fn str_(p: *const i8) -> String {
    if p.is_null() {
        String::new()
    } else {
        CStr::from_ptr(p as *const _).to_string_lossy().into_owned()
    }
}

unsafe fn read_cb(data: *mut c_void, buffer: *mut u8, size: u64, size_read: *mut u64) -> i32 {
    let feed = &mut *(data as *mut Feed<'static>);
    let c = feed.chunk();
    let n = c.len().min(size as usize);
    std::ptr::copy_nonoverlapping(c.as_ptr(), buffer, n);
    feed.pos += n;
    *size_read = n as u64;
    1
}

fn enc(e: u8) -> yaml_encoding_t {
    match e {
        0 => YAML_ANY_ENCODING,
        1 => YAML_UTF8_ENCODING,
        2 => YAML_UTF16LE_ENCODING,
        _ => YAML_UTF16BE_ENCODING,
    }
}

/// Owns an initialised reference parser.
pub struct Cp {
    pub p: Box<MaybeUninit<yaml_parser_t>>,
}
impl Cp {
    /// `feed` must stay at its address and outlive the parser.
    pub unsafe fn new(feed: *mut Feed<'_>, encoding: u8) -> Cp {
        let mut p = Box::new(MaybeUninit::<yaml_parser_t>::uninit());
        assert!(yaml_parser_initialize(p.as_mut_ptr()).ok);
        yaml_parser_set_input(p.as_mut_ptr(), read_cb, feed as *mut c_void);
        if encoding != 0 {
            yaml_parser_set_encoding(p.as_mut_ptr(), enc(encoding));
        }
        Cp { p }
    }
    pub fn get(&self) -> &yaml_parser_t {
        unsafe { &*self.p.as_ptr() }
    }
    pub fn error(&self) -> Er {
        let p = self.get();
        let kind = match p.error {
            YAML_READER_ERROR => EKind::Reader,
            YAML_SCANNER_ERROR => EKind::Scanner,
            YAML_PARSER_ERROR => EKind::Parser,
            YAML_COMPOSER_ERROR => EKind::Composer,
            _ => EKind::Other,
        };
        let has_mark = matches!(kind, EKind::Scanner | EKind::Parser | EKind::Composer);
        unsafe {
            Er {
                kind,
                problem: str_(p.problem),
                pmark: if has_mark { Some(mk(p.problem_mark)) } else { None },
                context: if p.context.is_null() { None } else { Some(str_(p.context)) },
                cmark: if has_mark && !p.context.is_null() { Some(mk(p.context_mark)) } else { None },
                offset: p.problem_offset,
                value: p.problem_value as i64,
                display: String::new(),
            }
        }
    }
    /// One scan() step.
    pub fn scan(&mut self) -> Result<M<Tok>, Er> {
        unsafe {
            let mut t = MaybeUninit::<yaml_token_t>::zeroed();
            if yaml_parser_scan(self.p.as_mut_ptr(), t.as_mut_ptr()).ok {
                let r = tok(&*t.as_ptr());
                yaml_token_delete(t.as_mut_ptr());
                Ok(r)
            } else {
                Err(self.error())
            }
        }
    }
    /// One parse() step. None is YAML_NO_EVENT (after the end or an error).
    pub fn parse(&mut self) -> Result<Option<M<Ev>>, Er> {
        unsafe {
            let mut e = MaybeUninit::<yaml_event_t>::zeroed();
            if yaml_parser_parse(self.p.as_mut_ptr(), e.as_mut_ptr()).ok {
                let r = ev(&*e.as_ptr());
                yaml_event_delete(e.as_mut_ptr());
                Ok(r)
            } else {
                Err(self.error())
            }
        }
    }
    pub fn load(&mut self) -> Result<Doc, Er> {
        unsafe {
            let mut d = MaybeUninit::<yaml_document_t>::zeroed();
            if yaml_parser_load(self.p.as_mut_ptr(), d.as_mut_ptr()).ok {
                let r = doc(d.as_mut_ptr());
                yaml_document_delete(d.as_mut_ptr());
                Ok(r)
            } else {
                Err(self.error())
            }
        }
    }
    /// Canonical hash of the control state of the reference parser: parser
    /// state stack, flow level, indentation relative state, simple keys and
    /// queued tokens. Positions in the text are left out.
    pub fn state(&self) -> u64 {
        use std::hash::Hasher;
        let p = self.get();
        let mut h = Fx::default();
        unsafe {
            h.write_u64(p.state as u64);
            let mut q = p.states.start;
            while q < p.states.top {
                h.write_u64(*q as u64 + 100);
                q = q.add(1);
            }
            h.write_i32(p.flow_level);
            h.write_i32(p.indent);
            let mut q = p.indents.start;
            while q < p.indents.top {
                h.write_u64(*q as u64);
                q = q.add(1);
            }
            h.write_u64(p.simple_key_allowed as u64 + 2 * p.stream_end_produced as u64 + 4 * p.eof as u64);
            let mut q = p.simple_keys.start;
            while q < p.simple_keys.top {
                h.write_u64((*q).possible as u64 + 2 * (*q).required as u64);
                q = q.add(1);
            }
            let mut q = p.tokens.head;
            while q < p.tokens.tail {
                h.write_u64((*q).type_ as u64 + 1000);
                q = q.add(1);
            }
            let mut q = p.tag_directives.start;
            while q < p.tag_directives.top {
                h.write(&s((*q).handle));
                q = q.add(1);
            }
            h.write_u64(p.error as u64);
        }
        h.finish()
    }
}
impl Drop for Cp {
    fn drop(&mut self) {
        unsafe { yaml_parser_delete(self.p.as_mut_ptr()) }
    }
}

unsafe fn tok(t: &yaml_token_t) -> M<Tok> {
    let d = &t.data;
    let v = match t.type_ {
        YAML_NO_TOKEN => Tok::StreamEnd,
        YAML_STREAM_START_TOKEN => Tok::StreamStart(d.stream_start.encoding as u8),
        YAML_STREAM_END_TOKEN => Tok::StreamEnd,
        YAML_VERSION_DIRECTIVE_TOKEN => Tok::Version(d.version_directive.major, d.version_directive.minor),
        YAML_TAG_DIRECTIVE_TOKEN => Tok::TagDirective(s(d.tag_directive.handle), s(d.tag_directive.prefix)),
        YAML_DOCUMENT_START_TOKEN => Tok::DocStart,
        YAML_DOCUMENT_END_TOKEN => Tok::DocEnd,
        YAML_BLOCK_SEQUENCE_START_TOKEN => Tok::BlockSeq,
        YAML_BLOCK_MAPPING_START_TOKEN => Tok::BlockMap,
        YAML_BLOCK_END_TOKEN => Tok::BlockEnd,
        YAML_FLOW_SEQUENCE_START_TOKEN => Tok::FlowSeq,
        YAML_FLOW_SEQUENCE_END_TOKEN => Tok::FlowSeqEnd,
        YAML_FLOW_MAPPING_START_TOKEN => Tok::FlowMap,
        YAML_FLOW_MAPPING_END_TOKEN => Tok::FlowMapEnd,
        YAML_BLOCK_ENTRY_TOKEN => Tok::BlockEntry,
        YAML_FLOW_ENTRY_TOKEN => Tok::FlowEntry,
        YAML_KEY_TOKEN => Tok::Key,
        YAML_VALUE_TOKEN => Tok::Value,
        YAML_ALIAS_TOKEN => Tok::Alias(s(d.alias.value)),
        YAML_ANCHOR_TOKEN => Tok::Anchor(s(d.anchor.value)),
        YAML_TAG_TOKEN => Tok::Tag(s(d.tag.handle), s(d.tag.suffix)),
        YAML_SCALAR_TOKEN => Tok::Scalar(sl(d.scalar.value, d.scalar.length), d.scalar.style as u8),
        _ => panic!("oracle produced an unknown token type"),
    };
    M { v, s: mk(t.start_mark), e: mk(t.end_mark) }
}

unsafe fn vd(v: *mut yaml_version_directive_t) -> Option<(i32, i32)> {
    if v.is_null() {
        None
    } else {
        Some(((*v).major, (*v).minor))
    }
}
unsafe fn tds(a: *mut yaml_tag_directive_t, b: *mut yaml_tag_directive_t) -> Vec<(S, S)> {
    let mut v = vec![];
    let mut a = a;
    while a < b {
        v.push((s((*a).handle), s((*a).prefix)));
        a = a.add(1);
    }
    v
}

unsafe fn ev(e: &yaml_event_t) -> Option<M<Ev>> {
    let d = &e.data;
    let v = match e.type_ {
        YAML_NO_EVENT => return None,
        YAML_STREAM_START_EVENT => Ev::StreamStart(d.stream_start.encoding as u8),
        YAML_STREAM_END_EVENT => Ev::StreamEnd,
        YAML_DOCUMENT_START_EVENT => Ev::DocStart {
            version: vd(d.document_start.version_directive),
            tags: tds(d.document_start.tag_directives.start, d.document_start.tag_directives.end),
            implicit: d.document_start.implicit,
        },
        YAML_DOCUMENT_END_EVENT => Ev::DocEnd { implicit: d.document_end.implicit },
        YAML_ALIAS_EVENT => Ev::Alias(s(d.alias.anchor)),
        YAML_SCALAR_EVENT => Ev::Scalar {
            anchor: so(d.scalar.anchor),
            tag: so(d.scalar.tag),
            value: sl(d.scalar.value, d.scalar.length),
            plain: d.scalar.plain_implicit,
            quoted: d.scalar.quoted_implicit,
            style: d.scalar.style as u8,
        },
        YAML_SEQUENCE_START_EVENT => Ev::SeqStart {
            anchor: so(d.sequence_start.anchor),
            tag: so(d.sequence_start.tag),
            implicit: d.sequence_start.implicit,
            style: d.sequence_start.style as u8,
        },
        YAML_SEQUENCE_END_EVENT => Ev::SeqEnd,
        YAML_MAPPING_START_EVENT => Ev::MapStart {
            anchor: so(d.mapping_start.anchor),
            tag: so(d.mapping_start.tag),
            implicit: d.mapping_start.implicit,
            style: d.mapping_start.style as u8,
        },
        YAML_MAPPING_END_EVENT => Ev::MapEnd,
        _ => panic!("oracle produced an unknown event type"),
    };
    Some(M { v, s: mk(e.start_mark), e: mk(e.end_mark) })
}

unsafe fn doc(d: *mut yaml_document_t) -> Doc {
    let d = &*d;
    let mut nodes = vec![];
    let mut n = d.nodes.start;
    while n < d.nodes.top {
        let nd = &*n;
        let v = match nd.type_ {
            YAML_SCALAR_NODE => Nd::Scalar(sl(nd.data.scalar.value, nd.data.scalar.length), nd.data.scalar.style as u8),
            YAML_SEQUENCE_NODE => {
                let mut v = vec![];
                let mut q = nd.data.sequence.items.start;
                while q < nd.data.sequence.items.top {
                    v.push(*q);
                    q = q.add(1);
                }
                Nd::Seq(v, nd.data.sequence.style as u8)
            }
            YAML_MAPPING_NODE => {
                let mut v = vec![];
                let mut q = nd.data.mapping.pairs.start;
                while q < nd.data.mapping.pairs.top {
                    v.push(((*q).key, (*q).value));
                    q = q.add(1);
                }
                Nd::Map(v, nd.data.mapping.style as u8)
            }
            _ => Nd::None,
        };
        nodes.push(Node { tag: so(nd.tag), v, s: mk(nd.start_mark), e: mk(nd.end_mark) });
        n = n.add(1);
    }
    Doc {
        version: vd(d.version_directive),
        tags: tds(d.tag_directives.start, d.tag_directives.end),
        start_implicit: d.start_implicit,
        end_implicit: d.end_implicit,
        s: mk(d.start_mark),
        e: mk(d.end_mark),
        nodes,
    }
}

/// Scan to the end or the first error.
pub fn scan_all(feed: &mut Feed, encoding: u8, mut on: impl FnMut(&Cp)) -> Run<Tok> {
    let mut items = vec![];
    let limit = 64 + 8 * feed.data.len();
    let end = unsafe {
        let mut p = Cp::new(feed as *mut _, encoding);
        loop {
            match p.scan() {
                Ok(t) => {
                    on(&p);
                    let done = t.v == Tok::StreamEnd;
                    items.push(t);
                    if done {
                        break End::Done;
                    }
                    if items.len() > limit {
                        break End::Unbounded;
                    }
                }
                Err(e) => break End::Err(e),
            }
        }
    };
    Run { items, end, saw_eof: feed.saw_eof }
}

pub fn parse_all(feed: &mut Feed, encoding: u8, mut on: impl FnMut(&Cp)) -> Run<Ev> {
    let mut items = vec![];
    let limit = 64 + 8 * feed.data.len();
    let end = unsafe {
        let mut p = Cp::new(feed as *mut _, encoding);
        loop {
            match p.parse() {
                Ok(Some(t)) => {
                    on(&p);
                    let done = t.v == Ev::StreamEnd;
                    items.push(t);
                    if done {
                        break End::Done;
                    }
                    if items.len() > limit {
                        break End::Unbounded;
                    }
                }
                Ok(None) => break End::Done,
                Err(e) => break End::Err(e),
            }
        }
    };
    Run { items, end, saw_eof: feed.saw_eof }
}

/// Load every document; the end marker is the first document without nodes.
pub fn load_all(feed: &mut Feed, encoding: u8) -> (Vec<Doc>, End) {
    let mut docs = vec![];
    let limit = 64 + feed.data.len();
    unsafe {
        let mut p = Cp::new(feed as *mut _, encoding);
        loop {
            match p.load() {
                Ok(d) => {
                    if d.nodes.is_empty() {
                        return (docs, End::Done);
                    }
                    docs.push(d);
                    if docs.len() > limit {
                        return (docs, End::Unbounded);
                    }
                }
                Err(e) => return (docs, End::Err(e)),
            }
        }
    }
}

// ---------------------------------------------------------------- emitter

pub struct Sink {
    pub out: Vec<u8>,
    pub fail_at: Option<usize>,
    pub calls: usize,
}
unsafe fn write_cb(data: *mut c_void, buffer: *mut u8, size: u64) -> i32 {
    let w = &mut *(data as *mut Sink);
    w.calls += 1;
    if w.fail_at == Some(w.calls) {
        return 0;
    }
    w.out.extend_from_slice(std::slice::from_raw_parts(buffer, size as usize));
    1
}

fn z(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    v.push(0);
    v
}
fn zo(s: &Option<S>) -> Option<Vec<u8>> {
    s.as_ref().map(|s| z(s))
}
fn ptr(o: &Option<Vec<u8>>) -> *const u8 {
    o.as_ref().map_or(std::ptr::null(), |v| v.as_ptr())
}
pub fn scalar_style(x: u8) -> yaml_scalar_style_t {
    match x {
        1 => YAML_PLAIN_SCALAR_STYLE,
        2 => YAML_SINGLE_QUOTED_SCALAR_STYLE,
        3 => YAML_DOUBLE_QUOTED_SCALAR_STYLE,
        4 => YAML_LITERAL_SCALAR_STYLE,
        5 => YAML_FOLDED_SCALAR_STYLE,
        _ => YAML_ANY_SCALAR_STYLE,
    }
}
pub fn seq_style(x: u8) -> yaml_sequence_style_t {
    match x {
        1 => YAML_BLOCK_SEQUENCE_STYLE,
        2 => YAML_FLOW_SEQUENCE_STYLE,
        _ => YAML_ANY_SEQUENCE_STYLE,
    }
}
pub fn map_style(x: u8) -> yaml_mapping_style_t {
    match x {
        1 => YAML_BLOCK_MAPPING_STYLE,
        2 => YAML_FLOW_MAPPING_STYLE,
        _ => YAML_ANY_MAPPING_STYLE,
    }
}

pub struct Ce {
    e: Box<MaybeUninit<yaml_emitter_t>>,
    pub sink: Box<Sink>,
}
impl Ce {
    pub fn new(cfg: &Cfg) -> Ce {
        unsafe {
            let mut e = Box::new(MaybeUninit::<yaml_emitter_t>::uninit());
            let mut sink = Box::new(Sink { out: vec![], fail_at: None, calls: 0 });
            let p = e.as_mut_ptr();
            assert!(yaml_emitter_initialize(p).ok);
            yaml_emitter_set_output(p, write_cb, &mut *sink as *mut Sink as *mut c_void);
            if let Some(x) = cfg.encoding {
                yaml_emitter_set_encoding(p, enc(x));
            }
            let mut new = Ce { e, sink };
            new.set(cfg);
            new
        }
    }
    /// Apply the settings, except for the encoding.
    pub fn set(&mut self, cfg: &Cfg) {
        unsafe {
            let p = self.e.as_mut_ptr();
            if let Some(x) = cfg.canonical {
                yaml_emitter_set_canonical(p, x);
            }
            if let Some(x) = cfg.indent {
                yaml_emitter_set_indent(p, x);
            }
            if let Some(x) = cfg.width {
                yaml_emitter_set_width(p, x);
            }
            if let Some(x) = cfg.unicode {
                yaml_emitter_set_unicode(p, x);
            }
            if let Some(x) = cfg.brk {
                yaml_emitter_set_break(
                    p,
                    match x {
                        1 => YAML_CR_BREAK,
                        2 => YAML_LN_BREAK,
                        3 => YAML_CRLN_BREAK,
                        _ => YAML_ANY_BREAK,
                    },
                );
            }
        }
    }
    fn err(&self) -> Er {
        unsafe {
            let e = &*self.e.as_ptr();
            Er {
                kind: if e.error == YAML_WRITER_ERROR { EKind::Io } else { EKind::Emitter },
                problem: str_(e.problem),
                pmark: None,
                context: None,
                cmark: None,
                offset: 0,
                value: 0,
                display: String::new(),
            }
        }
    }
    /// Err also for events the reference refuses to construct.
    pub fn emit(&mut self, ev: &Ev) -> Result<(), Er> {
        unsafe {
            let mut m = MaybeUninit::<yaml_event_t>::zeroed();
            let p = m.as_mut_ptr();
            let ok = match ev {
                Ev::StreamStart(e) => yaml_stream_start_event_initialize(p, enc(*e)).ok,
                Ev::StreamEnd => yaml_stream_end_event_initialize(p).ok,
                Ev::DocStart { version, tags, implicit } => {
                    let mut v = MaybeUninit::<yaml_version_directive_t>::zeroed();
                    let vp = match version {
                        None => std::ptr::null_mut(),
                        Some((a, b)) => {
                            (*v.as_mut_ptr()).major = *a;
                            (*v.as_mut_ptr()).minor = *b;
                            v.as_mut_ptr()
                        }
                    };
                    let zs: Vec<(Vec<u8>, Vec<u8>)> = tags.iter().map(|(a, b)| (z(a), z(b))).collect();
                    let mut td: Vec<MaybeUninit<yaml_tag_directive_t>> = vec![];
                    for (a, b) in &zs {
                        let mut t = MaybeUninit::<yaml_tag_directive_t>::zeroed();
                        (*t.as_mut_ptr()).handle = a.as_ptr() as *mut u8;
                        (*t.as_mut_ptr()).prefix = b.as_ptr() as *mut u8;
                        td.push(t);
                    }
                    let st = if td.is_empty() { std::ptr::null_mut() } else { td.as_mut_ptr() as *mut yaml_tag_directive_t };
                    let en = if td.is_empty() { st } else { st.add(td.len()) };
                    yaml_document_start_event_initialize(p, vp, st, en, *implicit).ok
                }
                Ev::DocEnd { implicit } => yaml_document_end_event_initialize(p, *implicit).ok,
                Ev::Alias(a) => yaml_alias_event_initialize(p, z(a).as_ptr()).ok,
                Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
                    let (a, t) = (zo(anchor), zo(tag));
                    let v = z(value);
                    yaml_scalar_event_initialize(
                        p,
                        ptr(&a),
                        ptr(&t),
                        v.as_ptr(),
                        value.len() as i32,
                        *plain,
                        *quoted,
                        scalar_style(*style),
                    )
                    .ok
                }
                Ev::SeqStart { anchor, tag, implicit, style } => {
                    let (a, t) = (zo(anchor), zo(tag));
                    yaml_sequence_start_event_initialize(p, ptr(&a), ptr(&t), *implicit, seq_style(*style)).ok
                }
                Ev::SeqEnd => yaml_sequence_end_event_initialize(p).ok,
                Ev::MapStart { anchor, tag, implicit, style } => {
                    let (a, t) = (zo(anchor), zo(tag));
                    yaml_mapping_start_event_initialize(p, ptr(&a), ptr(&t), *implicit, map_style(*style)).ok
                }
                Ev::MapEnd => yaml_mapping_end_event_initialize(p).ok,
            };
            if !ok {
                return Err(Er {
                    kind: EKind::Other,
                    problem: "event not constructible".into(),
                    pmark: None,
                    context: None,
                    cmark: None,
                    offset: 0,
                    value: 0,
                    display: String::new(),
                });
            }
            if yaml_emitter_emit(self.e.as_mut_ptr(), p).ok {
                Ok(())
            } else {
                Err(self.err())
            }
        }
    }
    pub fn flush(&mut self) -> Result<(), Er> {
        unsafe {
            if yaml_emitter_flush(self.e.as_mut_ptr()).ok {
                Ok(())
            } else {
                Err(self.err())
            }
        }
    }
    pub fn open(&mut self) -> Result<(), Er> {
        unsafe {
            if yaml_emitter_open(self.e.as_mut_ptr()).ok {
                Ok(())
            } else {
                Err(self.err())
            }
        }
    }
    pub fn close(&mut self) -> Result<(), Er> {
        unsafe {
            if yaml_emitter_close(self.e.as_mut_ptr()).ok {
                Ok(())
            } else {
                Err(self.err())
            }
        }
    }
    /// Build the document with the reference API and dump it.
    pub fn dump(&mut self, d: &Doc) -> Result<(), Er> {
        unsafe {
            let mut m = MaybeUninit::<yaml_document_t>::zeroed();
            let p = m.as_mut_ptr();
            let mut v = MaybeUninit::<yaml_version_directive_t>::zeroed();
            let vp = match d.version {
                None => std::ptr::null_mut(),
                Some((a, b)) => {
                    (*v.as_mut_ptr()).major = a;
                    (*v.as_mut_ptr()).minor = b;
                    v.as_mut_ptr()
                }
            };
            let zs: Vec<(Vec<u8>, Vec<u8>)> = d.tags.iter().map(|(a, b)| (z(a), z(b))).collect();
            let mut td: Vec<MaybeUninit<yaml_tag_directive_t>> = vec![];
            for (a, b) in &zs {
                let mut t = MaybeUninit::<yaml_tag_directive_t>::zeroed();
                (*t.as_mut_ptr()).handle = a.as_ptr() as *mut u8;
                (*t.as_mut_ptr()).prefix = b.as_ptr() as *mut u8;
                td.push(t);
            }
            let st = if td.is_empty() { std::ptr::null_mut() } else { td.as_mut_ptr() as *mut yaml_tag_directive_t };
            let en = if td.is_empty() { st } else { st.add(td.len()) };
            assert!(yaml_document_initialize(p, vp, st, en, d.start_implicit, d.end_implicit).ok);
            for n in &d.nodes {
                let t = zo(&n.tag);
                match &n.v {
                    Nd::Scalar(v, st) => {
                        let zv = z(v);
                        yaml_document_add_scalar(p, ptr(&t), zv.as_ptr(), v.len() as i32, scalar_style(*st));
                    }
                    Nd::Seq(_, st) => {
                        yaml_document_add_sequence(p, ptr(&t), seq_style(*st));
                    }
                    Nd::Map(_, st) => {
                        yaml_document_add_mapping(p, ptr(&t), map_style(*st));
                    }
                    Nd::None => panic!("no-node in a document to dump"),
                }
            }
            for (i, n) in d.nodes.iter().enumerate() {
                let id = i as i32 + 1;
                match &n.v {
                    Nd::Seq(items, _) => {
                        for x in items {
                            let _ = yaml_document_append_sequence_item(p, id, *x);
                        }
                    }
                    Nd::Map(pairs, _) => {
                        for (k, x) in pairs {
                            let _ = yaml_document_append_mapping_pair(p, id, *k, *x);
                        }
                    }
                    _ => {}
                }
            }
            if yaml_emitter_dump(self.e.as_mut_ptr(), p).ok {
                Ok(())
            } else {
                Err(self.err())
            }
        }
    }
    /// Whether the stream was opened by open() or dump().
    pub fn opened(&self) -> bool {
        unsafe { (*self.e.as_ptr()).opened }
    }
    /// Whether the stream start was emitted (and is not just queued).
    pub fn started(&self) -> bool {
        unsafe { (*self.e.as_ptr()).state as u64 != 0 }
    }
    /// Canonical hash of the control state of the reference emitter.
    pub fn state(&self) -> u64 {
        use std::hash::Hasher;
        let e = unsafe { &*self.e.as_ptr() };
        let mut h = Fx::default();
        unsafe {
            h.write_u64(e.state as u64);
            let mut q = e.states.start;
            while q < e.states.top {
                h.write_u64(*q as u64 + 100);
                q = q.add(1);
            }
            h.write_i32(e.flow_level);
            h.write_i32(e.indent);
            h.write_i32(e.column);
            h.write_u64(
                e.whitespace as u64
                    + 2 * e.indention as u64
                    + 4 * e.root_context as u64
                    + 8 * e.sequence_context as u64
                    + 16 * e.mapping_context as u64
                    + 32 * e.simple_key_context as u64,
            );
            h.write_i32(e.open_ended);
            let mut q = e.events.head;
            while q < e.events.tail {
                h.write_u64((*q).type_ as u64 + 1000);
                q = q.add(1);
            }
        }
        h.finish()
    }
}
impl Drop for Ce {
    fn drop(&mut self) {
        unsafe { yaml_emitter_delete(self.e.as_mut_ptr()) }
    }
}
