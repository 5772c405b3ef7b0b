//! Neutral data types: both the implementation (libyaml-safer) and the
//! reference model (unsafe-libyaml) are observed through these.
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Mk {
    pub idx: u64,
    pub line: u64,
    pub col: u64,
}

pub type S = Vec<u8>;

/// enc: 0 any 1 utf8 2 utf16le 3 utf16be; scalar style: 0 any 1 plain 2 single
/// 3 double 4 literal 5 folded; collection style: 0 any 1 block 2 flow.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Tok {
    StreamStart(u8),
    StreamEnd,
    Version(i32, i32),
    TagDirective(S, S),
    DocStart,
    DocEnd,
    BlockSeq,
    BlockMap,
    BlockEnd,
    FlowSeq,
    FlowSeqEnd,
    FlowMap,
    FlowMapEnd,
    BlockEntry,
    FlowEntry,
    Key,
    Value,
    Alias(S),
    Anchor(S),
    Tag(S, S),
    Scalar(S, u8),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Ev {
    StreamStart(u8),
    StreamEnd,
    DocStart {
        version: Option<(i32, i32)>,
        tags: Vec<(S, S)>,
        implicit: bool,
    },
    DocEnd {
        implicit: bool,
    },
    Alias(S),
    Scalar {
        anchor: Option<S>,
        tag: Option<S>,
        value: S,
        plain: bool,
        quoted: bool,
        style: u8,
    },
    SeqStart {
        anchor: Option<S>,
        tag: Option<S>,
        implicit: bool,
        style: u8,
    },
    SeqEnd,
    MapStart {
        anchor: Option<S>,
        tag: Option<S>,
        implicit: bool,
        style: u8,
    },
    MapEnd,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct M<T> {
    pub v: T,
    pub s: Mk,
    pub e: Mk,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EKind {
    Reader,
    Scanner,
    Parser,
    Composer,
    Emitter,
    Io,
    Other,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Er {
    pub kind: EKind,
    pub problem: String,
    pub pmark: Option<Mk>,
    pub context: Option<String>,
    pub cmark: Option<Mk>,
    /// Reference model only: reader error offset and value.
    pub offset: u64,
    pub value: i64,
    /// Display of the error (implementation only).
    pub display: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum End {
    /// The stream ended normally.
    Done,
    Err(Er),
    Panic(String),
    /// More items than any input of this size can justify.
    Unbounded,
}

impl End {
    pub fn is_err(&self) -> bool {
        matches!(self, End::Err(_))
    }
    pub fn brief(&self) -> String {
        match self {
            End::Done => "end of stream".into(),
            End::Err(e) => format!(
                "{:?} error {:?} at {:?} context {:?} at {:?}",
                e.kind, e.problem, e.pmark, e.context, e.cmark
            ),
            End::Panic(p) => format!("PANIC: {p}"),
            End::Unbounded => "UNBOUNDED item sequence".into(),
        }
    }
}

pub struct Run<T> {
    pub items: Vec<M<T>>,
    pub end: End,
    /// The source was asked for data after its last byte.
    pub saw_eof: bool,
}

pub fn show(s: &[u8]) -> String {
    let t = String::from_utf8_lossy(s);
    if t.len() > 200 {
        let a: String = t.chars().take(100).collect();
        format!("{a:?}...({} bytes)", s.len())
    } else {
        format!("{t:?}")
    }
}
fn so(s: &Option<S>) -> String {
    match s {
        None => "-".into(),
        Some(s) => show(s),
    }
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Tok::StreamStart(e) => write!(f, "StreamStart({e})"),
            Tok::StreamEnd => write!(f, "StreamEnd"),
            Tok::Version(a, b) => write!(f, "Version({a}.{b})"),
            Tok::TagDirective(a, b) => write!(f, "TagDirective({}, {})", show(a), show(b)),
            Tok::DocStart => write!(f, "DocStart"),
            Tok::DocEnd => write!(f, "DocEnd"),
            Tok::BlockSeq => write!(f, "BlockSeq"),
            Tok::BlockMap => write!(f, "BlockMap"),
            Tok::BlockEnd => write!(f, "BlockEnd"),
            Tok::FlowSeq => write!(f, "FlowSeq"),
            Tok::FlowSeqEnd => write!(f, "FlowSeqEnd"),
            Tok::FlowMap => write!(f, "FlowMap"),
            Tok::FlowMapEnd => write!(f, "FlowMapEnd"),
            Tok::BlockEntry => write!(f, "BlockEntry"),
            Tok::FlowEntry => write!(f, "FlowEntry"),
            Tok::Key => write!(f, "Key"),
            Tok::Value => write!(f, "Value"),
            Tok::Alias(a) => write!(f, "Alias({})", show(a)),
            Tok::Anchor(a) => write!(f, "Anchor({})", show(a)),
            Tok::Tag(a, b) => write!(f, "Tag({}, {})", show(a), show(b)),
            Tok::Scalar(a, s) => write!(f, "Scalar({}, style {s})", show(a)),
        }
    }
}
impl std::fmt::Debug for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ev::StreamStart(e) => write!(f, "StreamStart({e})"),
            Ev::StreamEnd => write!(f, "StreamEnd"),
            Ev::DocStart { version, tags, implicit } => {
                write!(f, "DocStart(version {version:?}, tags [")?;
                for (h, p) in tags {
                    write!(f, "{}={} ", show(h), show(p))?;
                }
                write!(f, "], implicit {implicit})")
            }
            Ev::DocEnd { implicit } => write!(f, "DocEnd(implicit {implicit})"),
            Ev::Alias(a) => write!(f, "Alias({})", show(a)),
            Ev::Scalar { anchor, tag, value, plain, quoted, style } => write!(
                f,
                "Scalar({}, anchor {}, tag {}, implicit {plain}/{quoted}, style {style})",
                show(value),
                so(anchor),
                so(tag)
            ),
            Ev::SeqStart { anchor, tag, implicit, style } => write!(
                f,
                "SeqStart(anchor {}, tag {}, implicit {implicit}, style {style})",
                so(anchor),
                so(tag)
            ),
            Ev::SeqEnd => write!(f, "SeqEnd"),
            Ev::MapStart { anchor, tag, implicit, style } => write!(
                f,
                "MapStart(anchor {}, tag {}, implicit {implicit}, style {style})",
                so(anchor),
                so(tag)
            ),
            Ev::MapEnd => write!(f, "MapEnd"),
        }
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for M<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{:?} @ {}({}:{})..{}({}:{})",
            self.v, self.s.idx, self.s.line, self.s.col, self.e.idx, self.e.line, self.e.col
        )
    }
}

/// FxHash-style hasher: cheap and deterministic.
#[derive(Default, Clone, Copy)]
pub struct Fx(pub u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 32;
        h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
        h ^ (h >> 32)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64);
    }
    fn write_i32(&mut self, i: i32) {
        self.write_u64(i as u64);
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// Open-addressing set of u64 with a fixed ceiling, so measured counts cost a
/// bounded amount of memory; `saturated` says the count is a lower bound.
pub struct HSet {
    tab: Vec<u64>,
    len: usize,
    cap: usize,
    pub saturated: bool,
}
impl HSet {
    pub fn new(cap: usize) -> Self {
        HSet { tab: vec![0; 1024], len: 0, cap, saturated: false }
    }
    pub fn insert(&mut self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mask = self.tab.len() - 1;
        let mut i = (h.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20) as usize & mask;
        loop {
            let x = self.tab[i];
            if x == h {
                return false;
            }
            if x == 0 {
                break;
            }
            i = (i + 1) & mask;
        }
        if self.len >= self.cap {
            self.saturated = true;
            return false;
        }
        self.tab[i] = h;
        self.len += 1;
        if self.len * 2 > self.tab.len() {
            let n = self.tab.len() * 2;
            let old = std::mem::replace(&mut self.tab, vec![0; n]);
            self.len = 0;
            for x in old {
                if x != 0 {
                    self.insert(x);
                }
            }
        }
        true
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn iter(&self) -> impl Iterator<Item = u64> + '_ {
        self.tab.iter().copied().filter(|x| *x != 0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Nd {
    Scalar(S, u8),
    Seq(Vec<i32>, u8),
    Map(Vec<(i32, i32)>, u8),
    None,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub tag: Option<S>,
    pub v: Nd,
    pub s: Mk,
    pub e: Mk,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Doc {
    pub version: Option<(i32, i32)>,
    pub tags: Vec<(S, S)>,
    pub start_implicit: bool,
    pub end_implicit: bool,
    pub s: Mk,
    pub e: Mk,
    pub nodes: Vec<Node>,
}

/// Emitter configuration; None leaves the default.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Cfg {
    pub encoding: Option<u8>,
    pub canonical: Option<bool>,
    pub indent: Option<i32>,
    pub width: Option<i32>,
    pub unicode: Option<bool>,
    pub brk: Option<u8>,
}
