//! C15 composed documents, C16 dumped documents, C17 the document API.
use super::emit::{round_trip, utf16};
use super::events::{has_nul, CFGS};
use super::spaces;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::{c, rs};
use libyaml_safer as l;
use std::collections::HashMap;
use std::io::BufRead;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Load), Box::new(Dump), Box::new(Build)]
}

const STR: &[u8] = b"tag:yaml.org,2002:str";
const SEQ: &[u8] = b"tag:yaml.org,2002:seq";
const MAP: &[u8] = b"tag:yaml.org,2002:map";

fn default_tag(v: &Nd) -> &'static [u8] {
    match v {
        Nd::Seq(..) => SEQ,
        Nd::Map(..) => MAP,
        _ => STR,
    }
}

// ------------------------------------------------------------------ C15

pub fn load_space(kind: &'static str, thorough: bool) -> Vec<Scope> {
    let t = thorough as usize;
    vec![
        tree(kind, "anchors in flow collections", &["&a ", "*a ", "&b ", "*b ", "[", "]", ", ", "{", "}", ": ", "x"], 6 + t),
        tree(kind, "anchors in block collections", &["&a ", "*a ", "- ", "? ", ": ", "x", "\n", "  ", "--- ", "&b ", "*b "], 6 + t),
        tree(kind, "anchors over documents", &["&a ", "*a ", "--- ", "...\n", "[", "]", ", ", "x", "\n", "!!map ", "! "], 6 + t),
        tree_ps(kind, "aliases after anchored nodes", "- &a [&b x]\n", &["*a ", "*b ", "- ", "[", "]", ", ", ": ", "\n", "&c ", "*c "], &[""], 5 + t),
        tree_ps(kind, "aliases in an anchored node", "&a {&b x: ", &["*a ", "*b ", "[", "]", ", ", ": ", "{", "}", "y", "&c ", "*c "], &["}", "}\n--- *a"], 5 + t),
        tree_ps(kind, "names that are alike", "[&a x, &A y, ", &["*a, ", "*A, ", "*ab, ", "&ab z, ", "*b, ", "*aB, ", "&aB w, ", "*a-, ", "&a- v, "], &["]\n", "*a: b]\n"], 5 + t),
        tree_ps(kind, "names that are alike, from the start", "", &["- &a x\n", "- &A y\n", "- &aa z\n", "- *a\n", "- *A\n", "- *aa\n", "- &a1 z\n", "- *a1\n", "- *1a\n"], &[""], 5 + t),
        tree_ps(kind, "tags of nodes", "", &["!", "! ", "!!", "!!str ", "!!seq ", "!<x> ", "[]", "{}", "x ", "'q' ", "- ", "\n", ": ", "&a ", "*a "], &[""], 5 + t),
    ]
}

/// The composer of the specification, over the parser's own events.
fn compose(run: &Run<Ev>) -> (Vec<Doc>, Result<(), String>) {
    let mut docs: Vec<Doc> = vec![];
    let mut cur: Option<Doc> = None;
    let mut open: Vec<(usize, Vec<i32>)> = vec![];
    let mut names: HashMap<S, i32> = HashMap::new();
    for e in &run.items {
        let mut child: Option<i32> = None;
        let add = |cur: &mut Option<Doc>, names: &mut HashMap<S, i32>, tag: &Option<S>, anchor: &Option<S>, v: Nd| -> Result<i32, String> {
            let d = cur.as_mut().ok_or("node outside a document")?;
            let tag = match tag {
                Some(t) if t != b"!" => t.clone(),
                _ => default_tag(&v).to_vec(),
            };
            d.nodes.push(Node { tag: Some(tag), v, s: e.s, e: e.e });
            let id = d.nodes.len() as i32;
            if let Some(a) = anchor {
                if names.insert(a.clone(), id).is_some() {
                    return Err(format!("duplicate anchor {}", show(a)));
                }
            }
            Ok(id)
        };
        match &e.v {
            Ev::StreamStart(_) | Ev::StreamEnd => {}
            Ev::DocStart { version, tags, implicit } => {
                names.clear();
                cur = Some(Doc { version: *version, tags: tags.clone(), start_implicit: *implicit, s: e.s, ..Default::default() });
            }
            Ev::DocEnd { implicit } => {
                if let Some(mut d) = cur.take() {
                    d.end_implicit = *implicit;
                    d.e = e.e;
                    docs.push(d);
                }
            }
            Ev::Alias(a) => match names.get(a) {
                Some(id) => child = Some(*id),
                None => return (docs, Err(format!("undefined alias {}", show(a)))),
            },
            Ev::Scalar { anchor, tag, value, style, .. } => match add(&mut cur, &mut names, tag, anchor, Nd::Scalar(value.clone(), *style)) {
                Ok(id) => child = Some(id),
                Err(m) => return (docs, Err(m)),
            },
            Ev::SeqStart { anchor, tag, style, .. } | Ev::MapStart { anchor, tag, style, .. } => {
                let v = if matches!(e.v, Ev::SeqStart { .. }) { Nd::Seq(vec![], *style) } else { Nd::Map(vec![], *style) };
                match add(&mut cur, &mut names, tag, anchor, v) {
                    Ok(id) => {
                        if let Some(o) = open.last_mut() {
                            o.1.push(id);
                        }
                        open.push((id as usize, vec![]));
                    }
                    Err(m) => return (docs, Err(m)),
                }
            }
            Ev::SeqEnd | Ev::MapEnd => {
                if let (Some((id, kids)), Some(d)) = (open.pop(), cur.as_mut()) {
                    let n = &mut d.nodes[id - 1];
                    n.e = e.e;
                    match &mut n.v {
                        Nd::Seq(v, _) => *v = kids,
                        Nd::Map(v, _) => *v = kids.chunks(2).map(|p| (p[0], *p.get(1).unwrap_or(&0))).collect(),
                        _ => {}
                    }
                }
            }
        }
        if let (Some(id), Some(o)) = (child, open.last_mut()) {
            o.1.push(id);
        }
    }
    (docs, Ok(()))
}

/// load() until the end or an error, and after it.
fn load_more<R: BufRead>(src: R, len: usize) -> (Vec<Doc>, End, Option<String>) {
    let mut docs = vec![];
    let mut after = None;
    let end = rs::guarded(|| {
        let mut p = l::Parser::new();
        p.set_input(src);
        let end = loop {
            match l::Document::load(&mut p) {
                Ok(d) if d.nodes.is_empty() => break End::Done,
                Ok(d) => docs.push(rs::doc(&d)),
                Err(e) => break End::Err(rs::er(&e)),
            }
            if docs.len() > 64 + len {
                return End::Unbounded;
            }
        };
        for k in 0..2 {
            match l::Document::load(&mut p) {
                Ok(d) if d.nodes.is_empty() => {}
                Ok(d) => after = Some(format!("load {} after {} gives a document of {} nodes", k + 1, end.brief(), d.nodes.len())),
                Err(e) => after = Some(format!("load {} after {} fails: {e}", k + 1, end.brief())),
            }
        }
        end
    })
    .unwrap_or_else(End::Panic);
    (docs, end, after)
}

fn nul(i: &[u8]) -> bool {
    i.contains(&0)
}
/// The composed document against libyaml's; C strings stop at a NUL.
fn same_doc(i: &Doc, m: &Doc) -> Result<(), String> {
    let head = |d: &Doc| (d.version, d.start_implicit, d.end_implicit, d.s, d.e, d.nodes.len(), d.tags.len());
    if head(i) != head(m) {
        return Err(format!("document {:?}, libyaml {:?}", head(i), head(m)));
    }
    for (a, b) in i.tags.iter().zip(&m.tags) {
        if (a.0 != b.0 && !nul(&a.0)) || (a.1 != b.1 && !nul(&a.1)) {
            return Err(format!("tag directive {a:?}, libyaml {b:?}"));
        }
    }
    for (k, (a, b)) in i.nodes.iter().zip(&m.nodes).enumerate() {
        let tag = a.tag == b.tag || a.tag.as_deref().is_some_and(nul);
        if !tag || a.v != b.v || (a.s, a.e) != (b.s, b.e) {
            return Err(format!("node {} is {a:?}, libyaml's {b:?}", k + 1));
        }
    }
    Ok(())
}

struct Load;
impl Prop for Load {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "every input is loaded document by document and compared, node by node, with a composer model over the parser's own events and with libyaml's documents; states are distinct document shapes (kinds and references of the nodes), transitions are composed nodes"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = load_space("text", thorough);
        v.extend(spaces::text("text", thorough, 1));
        v.push(spaces::long_lite("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let Some(inp) = spaces::input(kind, case) else { return V::Skip };
        let mut feed = Feed::new(&inp, Cut::Char);
        let (docs, end, after) = load_more(&mut feed, inp.len());
        if !matches!(end, End::Done | End::Err(_)) {
            return V::Bad(format!("load fails after {} documents: {}", docs.len(), end.brief()));
        }
        if let Some(a) = after {
            return V::Bad(a);
        }
        // The composer model.
        let ev = rs::parse_all(&mut Feed::new(&inp, Cut::Char), 0);
        let (want, r) = compose(&ev);
        let fails = r.is_err() || ev.end.is_err();
        if docs != want {
            let k = docs.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(docs.len().min(want.len()));
            return V::Bad(format!("document {}: composed {:?}, the events give {:?} ({r:?})", k + 1, docs.get(k), want.get(k)));
        }
        if fails != end.is_err() {
            return V::Bad(format!("load ends with {}; the events with {} ({r:?})", end.brief(), ev.end.brief()));
        }
        if let (End::Err(a), Ok(()), End::Err(b)) = (&end, &r, &ev.end) {
            if a != b {
                return V::Bad(format!("load reports {a:?}, parse {b:?}"));
            }
        }
        if r.is_err() && !matches!(&end, End::Err(e) if e.kind == EKind::Composer) {
            return V::Bad(format!("{r:?}, but load ends with {}", end.brief()));
        }
        for d in &docs {
            for n in &d.nodes {
                ctx.trans += 1;
                let _ = n;
            }
            let shape: Vec<_> = d
                .nodes
                .iter()
                .map(|n| match &n.v {
                    Nd::Scalar(_, s) => (0, vec![*s as i32]),
                    Nd::Seq(v, _) => (1, v.clone()),
                    Nd::Map(v, _) => (2, v.iter().flat_map(|p| [p.0, p.1]).collect()),
                    Nd::None => (3, vec![]),
                })
                .collect();
            ctx.states.insert(hash(&shape));
        }
        ctx.outcome(&(docs.len(), &docs, end.is_err()));
        // libyaml.
        let mut f = Feed::new(&inp, Cut::Char);
        let (dm, em) = c::load_all(&mut f, 0);
        for (a, b) in docs.iter().zip(&dm) {
            if let Err(m) = same_doc(a, b) {
                return V::Bad(m);
            }
        }
        let utf8 = |d: &Doc| {
            d.nodes.iter().all(|n| n.tag.as_deref().is_none_or(|t| std::str::from_utf8(t).is_ok()))
                && d.tags.iter().all(|t| std::str::from_utf8(&t.1).is_ok())
        };
        let reader = |e: &End| matches!(e, End::Err(e) if matches!(e.kind, EKind::Reader | EKind::Io));
        let exempt = (end.is_err() && dm.iter().any(|d| !utf8(d)))
            || (reader(&end) && em.is_err())
            // A tag that is not text: libyaml goes on.
            || matches!(&end, End::Err(e) if e.problem.contains("UTF-8"));
        if (docs.len() != dm.len() || end.is_err() != em.is_err()) && !exempt {
            return V::Bad(format!("{} documents, then {}; libyaml {}, then {}", docs.len(), end.brief(), dm.len(), em.brief()));
        }
        ctx.count("documents", docs.len() as u64);
        ctx.count("nodes", docs.iter().map(|d| d.nodes.len() as u64).sum());
        ctx.count("references to shared nodes", docs.iter().map(shared).sum());
        if end.is_err() && em.is_err() && !feed.saw_eof && !f.saw_eof {
            V::Prune
        } else {
            V::Ok
        }
    }
}

fn refs(v: &Nd) -> Vec<i32> {
    match v {
        Nd::Seq(v, _) => v.clone(),
        Nd::Map(v, _) => v.iter().flat_map(|p| [p.0, p.1]).collect(),
        _ => vec![],
    }
}
fn shared(d: &Doc) -> u64 {
    let n: usize = d.nodes.iter().map(|n| refs(&n.v).len()).sum();
    (n + 1).saturating_sub(d.nodes.len()) as u64
}

// ------------------------------------------------------------------ C16

/// Option `o` of a node in a graph of n nodes: scalar, sequence of at most
/// two items, mapping of at most `mp` pairs.
fn options(n: u64, mp: u64) -> u64 {
    1 + 1 + n + n * n + 1 + n * n + if mp > 1 { n * n * n * n } else { 0 }
}
fn option(o: u64, n: u64) -> Nd {
    let id = |x: u64| (x % n) as i32 + 1;
    if o == 0 {
        return Nd::Scalar(vec![], 0);
    }
    let mut o = o - 1;
    if o == 0 {
        return Nd::Seq(vec![], 0);
    }
    o -= 1;
    if o < n {
        return Nd::Seq(vec![id(o)], 0);
    }
    o -= n;
    if o < n * n {
        return Nd::Seq(vec![id(o / n), id(o)], 0);
    }
    o -= n * n;
    if o == 0 {
        return Nd::Map(vec![], 0);
    }
    o -= 1;
    if o < n * n {
        return Nd::Map(vec![(id(o / n), id(o))], 0);
    }
    o -= n * n;
    Nd::Map(vec![(id(o / (n * n * n)), id(o / (n * n))), (id(o / n), id(o))], 0)
}
const VALUES: &[&str] = &["v", "", "a b", "- x\n#y", "\u{e9}: '", " 1 ", "!"];
const TAGS: &[&str] = &["!t", "tag:yaml.org,2002:int", "tag:e.org,2000:x y", "!", "!p!q"];
/// Every tag the library names, its neighbours, and others.
const T_TAGS: &[&str] = &[
    "tag:yaml.org,2002:null", "tag:yaml.org,2002:bool", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:yaml.org,2002:float", "tag:yaml.org,2002:timestamp",
    "tag:yaml.org,2002:seq", "tag:yaml.org,2002:map", "tag:yaml.org,2002:st", "tag:yaml.org,2002:strx", "tag:yaml.org,2002:", "tag:yaml.org,2002:Str", "!", "!t", "!!str", "str",
    "!str", "tag:e.org,2000:x y", "\u{e9}", "", "tag:yaml.org,2002:binary", "tag:yaml.org,2002:merge", "tag:yaml.org,2002:set",
];
const T_VALUES: &[&str] = &["v", "", "null", "~", "true", "1", "1.5", "2001-12-14", " a", "a\nb", "\u{e9}", "!"];

fn graph_doc(opts: &[u64], style: u8, dress: u8) -> Doc {
    let n = opts.len() as u64;
    let nodes = opts
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let mut v = option(*o, n);
            let mut tag = None;
            match &mut v {
                Nd::Scalar(t, s) => {
                    *t = b"v".to_vec();
                    match dress {
                        1 => *t = VALUES[i % VALUES.len()].as_bytes().to_vec(),
                        2 => (*t, *s) = (VALUES[(i + 3) % VALUES.len()].as_bytes().to_vec(), 2 + (i % 3) as u8),
                        3 => tag = Some(TAGS[i % TAGS.len()].as_bytes().to_vec()),
                        4 => *t = vec![],
                        _ => {}
                    }
                }
                Nd::Seq(_, s) | Nd::Map(_, s) => {
                    *s = if style == 3 { 1 + (i % 2) as u8 } else { style };
                    if dress == 3 {
                        tag = Some(TAGS[(i + 2) % TAGS.len()].as_bytes().to_vec());
                    }
                }
                Nd::None => {}
            }
            Node { tag, v, s: Mk::default(), e: Mk::default() }
        })
        .collect();
    Doc { start_implicit: true, end_implicit: true, nodes, ..Default::default() }
}

/// Decode a graph case into the configuration and the documents.
fn graphs(kind: &str, case: &[u8]) -> Option<(usize, Vec<Doc>)> {
    let o = |k: usize| Some(u16::from_le_bytes([*case.get(k)?, *case.get(k + 1)?]) as u64);
    let least = match kind {
        "g" => 6,
        "m" => 13,
        "t" => 7,
        _ => 5,
    };
    if case.len() < least || (kind != "big" && case[0] as usize >= CFGS.len()) {
        return None;
    }
    match kind {
        // cfg style dress flags options...
        "g" => {
            let (cfg, style, dress, flags) = (case[0], case[1], case[2], case[3]);
            let n = (case.len() - 4) / 2;
            let opts: Vec<u64> = (0..n).map(|i| o(4 + 2 * i)).collect::<Option<_>>()?;
            if opts.iter().any(|x| *x >= options(n as u64, 2)) || n == 0 {
                return None;
            }
            let mut d = graph_doc(&opts, style, dress);
            flag(&mut d, flags);
            Some((cfg as usize, vec![d]))
        }
        // cfg style flags1 flags2 dress, two documents of two nodes
        "m" => {
            let mut v = vec![];
            for k in 0..2 {
                let opts = [o(5 + 4 * k)?, o(7 + 4 * k)?];
                if opts.iter().any(|x| *x >= options(2, 1)) {
                    return None;
                }
                let mut d = graph_doc(&opts, case[1], case[4]);
                flag(&mut d, case[2 + k]);
                v.push(d);
            }
            Some((case[0] as usize, v))
        }
        // cfg position kind style tag value flags: one node with its
        // attributes
        "t" => {
            let &[cfg, pos, kind, style, tag, value, flags] = case else { return None };
            let node = |v| Node { tag: None, v, s: Mk::default(), e: Mk::default() };
            let mut x = node(match kind {
                0 => Nd::Scalar(T_VALUES.get(value as usize)?.as_bytes().to_vec(), style),
                1 => Nd::Seq(vec![], style),
                _ => Nd::Map(vec![], style),
            });
            x.tag = match tag {
                0 => None,
                t => Some(T_TAGS.get(t as usize - 1)?.as_bytes().to_vec()),
            };
            let y = node(Nd::Scalar(b"y".to_vec(), 0));
            let nodes = match pos {
                0 => vec![x],
                1 => vec![node(Nd::Seq(vec![2, 3], 0)), x, y],
                2 => vec![node(Nd::Map(vec![(2, 3)], 0)), x, y],
                3 => vec![node(Nd::Map(vec![(3, 2)], 0)), x, y],
                4 => vec![node(Nd::Seq(vec![2, 2], 2)), x],
                _ => vec![node(Nd::Map(vec![(2, 3)], 2)), x, y],
            };
            let mut d = Doc { start_implicit: true, end_implicit: true, nodes, ..Default::default() };
            flag(&mut d, flags);
            Some((cfg as usize, vec![d]))
        }
        // n, shape: large documents
        "big" => {
            let n = u32::from_le_bytes(case[1..5].try_into().ok()?) as usize;
            Some((0, vec![big(case[0], n)?]))
        }
        _ => None,
    }
}
fn flag(d: &mut Doc, f: u8) {
    d.start_implicit = f & 1 == 0;
    d.end_implicit = f & 2 == 0;
    if f & 4 != 0 {
        d.version = Some((1, 1 + (f & 1) as i32));
    }
    if f & 8 != 0 {
        d.tags = vec![(b"!p!".to_vec(), b"tag:e.org,2000:".to_vec())];
    }
}
fn big(shape: u8, n: usize) -> Option<Doc> {
    if n == 0 || n > 100_000 {
        return None;
    }
    let s = |t: String| Nd::Scalar(t.into_bytes(), 0);
    let n2 = n as i32;
    let nodes: Vec<Nd> = match shape {
        // n scalars, each referenced twice, in reverse
        0 => {
            let mut v = vec![Nd::Seq((2..n2 + 2).chain((2..n2 + 2).rev()).collect(), 0)];
            v.extend((0..n).map(|i| s(format!("s{i}"))));
            v
        }
        // a chain, every node referring to the next one twice
        1 => {
            let mut v: Vec<Nd> = (1..n2).map(|i| Nd::Seq(vec![i + 1, i + 1], 0)).collect();
            v.push(s("end".into()));
            v
        }
        // a chain of mappings closing a cycle
        2 => (1..=n2).map(|i| Nd::Map(vec![(if i == n2 { 1 } else { i + 1 }, i)], 0)).collect(),
        // n unreachable nodes
        3 => {
            let mut v = vec![s("root".into())];
            v.extend((0..n).map(|_| Nd::Seq(vec![1, 1], 0)));
            v
        }
        // a wide mapping whose values are the keys
        4 => {
            let mut v = vec![Nd::Map((2..n2 + 2).map(|i| (i, n2 + 3 - i)).collect(), 0)];
            v.extend((0..n).map(|i| s(format!("s{i}"))));
            v
        }
        // a sequence in a sequence in a sequence
        5 => {
            let mut v: Vec<Nd> = (1..n2).map(|i| Nd::Seq(vec![i + 1], 0)).collect();
            v.push(s("end".into()));
            v
        }
        // mappings as keys of mappings
        6 => {
            let mut v: Vec<Nd> = (1..n2).map(|i| Nd::Map(vec![(i + 1, n2)], 0)).collect();
            v.push(s("end".into()));
            v
        }
        // sequences and mappings in flow style
        7 => {
            let mut v: Vec<Nd> = (1..n2).map(|i| if i % 2 == 0 { Nd::Seq(vec![i + 1], 2) } else { Nd::Map(vec![(n2, i + 1)], 2) }).collect();
            v.push(s("end".into()));
            v
        }
        // one node of a kind, referenced n times in one way or another
        8..=23 => {
            let kind = (shape - 8) % 4;
            let node = match kind {
                0 => s("x".into()),
                1 => Nd::Seq(vec![3], 0),
                2 => Nd::Map(vec![(3, 4)], 0),
                _ => Nd::Seq(vec![2, 3], 2),
            };
            let root = match (shape - 8) / 4 {
                0 => Nd::Seq(vec![2; n], 0),
                1 => Nd::Map((0..n2).map(|i| (5 + i, 2)).collect(), 0),
                2 => Nd::Map((0..n2).map(|i| (2, 5 + i)).collect(), 0),
                _ => Nd::Seq((0..n2).flat_map(|i| [2, 5 + i]).chain([3, 4]).collect(), 2),
            };
            let mut v = vec![root, node, s("y".into()), Nd::Seq(vec![2], 1)];
            v.extend((0..n).map(|i| s(format!("s{i}"))));
            v
        }
        // n nodes, of which the last is shared
        24 => {
            let mut v = vec![Nd::Seq((2..n2 + 3).chain([n2 + 2, 2, n2 + 1]).collect(), 0)];
            v.extend((0..=n).map(|_| s("x".into())));
            v
        }
        _ => return None,
    };
    Some(Doc {
        start_implicit: true,
        end_implicit: true,
        nodes: nodes.into_iter().map(|v| Node { tag: None, v, s: Mk::default(), e: Mk::default() }).collect(),
        ..Default::default()
    })
}

/// libyaml's dump handles the document: every node it writes twice gets its
/// anchor from the references of the root itself.
pub fn libyaml_can(d: &Doc) -> bool {
    let n = d.nodes.len();
    let (mut top, mut all) = (vec![0; n], vec![0; n]);
    top[0] = 1;
    all[0] = 1;
    for x in refs(&d.nodes[0].v) {
        top[x as usize - 1] += 1;
    }
    let mut seen = vec![false; n];
    let mut stack = vec![0];
    seen[0] = true;
    while let Some(k) = stack.pop() {
        for x in refs(&d.nodes[k].v) {
            let x = x as usize - 1;
            all[x] += 1;
            if !seen[x] {
                seen[x] = true;
                stack.push(x);
            }
        }
    }
    (0..n).all(|k| all[k] < 2 || top[k] >= 2)
}

/// The two documents have the same graph, from the root.
fn isomorphic(a: &Doc, b: &Doc) -> Result<(), String> {
    if a.version != b.version {
        return Err(format!("version {:?}, reloaded {:?}", a.version, b.version));
    }
    if a.tags != b.tags {
        return Err(format!("tag directives {:?}, reloaded {:?}", a.tags, b.tags));
    }
    if (b.start_implicit && !a.start_implicit) || (b.end_implicit && !a.end_implicit) {
        return Err("an explicit document marker is lost".into());
    }
    let mut to: HashMap<i32, i32> = HashMap::new();
    let mut from: HashMap<i32, i32> = HashMap::new();
    let mut todo = vec![(1, 1)];
    while let Some((x, y)) = todo.pop() {
        match (to.get(&x), from.get(&y)) {
            (Some(y2), Some(x2)) if *y2 == y && *x2 == x => continue,
            (None, None) => {}
            (p, q) => return Err(format!("node {x} becomes node {y} here and {p:?} elsewhere, node {y} stands for {q:?}")),
        }
        to.insert(x, y);
        from.insert(y, x);
        let (n, m) = (&a.nodes[x as usize - 1], &b.nodes[y as usize - 1]);
        let norm = |n: &Node| match &n.tag {
            Some(t) if t != b"!" => t.clone(),
            _ => default_tag(&n.v).to_vec(),
        };
        if norm(n) != norm(m) {
            return Err(format!("tag of node {x} ({n:?}) reloaded as {m:?}"));
        }
        let same = match (&n.v, &m.v) {
            (Nd::Scalar(s, _), Nd::Scalar(t, _)) => s == t,
            (Nd::Seq(s, _), Nd::Seq(t, _)) => s.len() == t.len(),
            (Nd::Map(s, _), Nd::Map(t, _)) => s.len() == t.len(),
            _ => false,
        };
        if !same {
            return Err(format!("node {x} ({n:?}) reloaded as {m:?}"));
        }
        todo.extend(refs(&n.v).into_iter().zip(refs(&m.v)));
    }
    if to.len() != b.nodes.len() {
        return Err(format!("{} nodes are reachable, {} reloaded", to.len(), b.nodes.len()));
    }
    Ok(())
}

/// The events a dump stands for (anchors numbered level by level).
fn serialise(docs: &[Doc]) -> Vec<Ev> {
    let mut out = vec![Ev::StreamStart(0)];
    for d in docs {
        let n = d.nodes.len();
        let (mut count, mut id, mut last) = (vec![0; n], vec![0; n], 0);
        let mut queue = std::collections::VecDeque::from([1]);
        count[0] = 1;
        while let Some(k) = queue.pop_front() {
            for x in refs(&d.nodes[k as usize - 1].v) {
                let j = x as usize - 1;
                count[j] += 1;
                match count[j] {
                    1 => queue.push_back(x),
                    2 => {
                        last += 1;
                        id[j] = last;
                    }
                    _ => {}
                }
            }
        }
        out.push(Ev::DocStart { version: d.version, tags: d.tags.clone(), implicit: d.start_implicit });
        enum T {
            N(i32),
            E(Ev),
        }
        let mut done = vec![false; n];
        let mut todo = vec![T::N(1)];
        while let Some(t) = todo.pop() {
            let k = match t {
                T::E(e) => {
                    out.push(e);
                    continue;
                }
                T::N(k) => k as usize - 1,
            };
            let name = (id[k] != 0).then(|| format!("id{:03}", id[k]).into_bytes());
            if done[k] {
                out.push(Ev::Alias(name.unwrap_or_default()));
                continue;
            }
            done[k] = true;
            let node = &d.nodes[k];
            let tag = node.tag.clone().unwrap_or(default_tag(&node.v).to_vec());
            let implicit = tag == default_tag(&node.v);
            let tag = Some(tag);
            match &node.v {
                Nd::Scalar(v, s) => out.push(Ev::Scalar { anchor: name, tag, value: v.clone(), plain: implicit, quoted: implicit, style: *s }),
                Nd::Seq(_, s) => {
                    out.push(Ev::SeqStart { anchor: name, tag, implicit, style: *s });
                    todo.push(T::E(Ev::SeqEnd));
                }
                Nd::Map(_, s) => {
                    out.push(Ev::MapStart { anchor: name, tag, implicit, style: *s });
                    todo.push(T::E(Ev::MapEnd));
                }
                Nd::None => {}
            }
            todo.extend(refs(&node.v).into_iter().rev().map(T::N));
        }
        out.push(Ev::DocEnd { implicit: d.end_implicit });
    }
    out.push(Ev::StreamEnd);
    out
}

fn dump(cfg: &Cfg, docs: Vec<l::Document>, by_empty: bool) -> Result<(Vec<u8>, Option<Er>), String> {
    let mut out = vec![];
    let r = rs::guarded(|| {
        let mut e = l::Emitter::new();
        e.set_output(&mut out);
        rs::configure(&mut e, cfg);
        for d in docs {
            if let Err(x) = d.dump(&mut e) {
                return Some(rs::er(&x));
            }
        }
        let r = if by_empty { l::Document::new(None, &[], true, true).dump(&mut e) } else { e.close() };
        r.and_then(|()| e.flush()).err().map(|x| rs::er(&x))
    })?;
    Ok((out, r))
}

struct Dump;
impl Dump {
    fn one(&self, cfg: &Cfg, docs: &[Doc], make: impl Fn() -> Vec<l::Document>, ctx: &mut Ctx) -> V {
        let (out, err) = match dump(cfg, make(), docs.len() % 2 == 1) {
            Ok(x) => x,
            Err(p) => return V::Bad(format!("dump panics: {p}")),
        };
        let evs = serialise(docs);
        ctx.trans += evs.len() as u64;
        if let Some(e) = err {
            // Only what the emitter refuses as an event may be refused.
            let (_, _, end) = rs::emit_all(cfg, &evs, true);
            return match end {
                End::Err(x) if x.problem == e.problem => {
                    ctx.count("refused", 1);
                    V::Ok
                }
                o => V::Bad(format!("dump fails with {e:?}; emitting the events ends with {}", o.brief())),
            };
        }
        let plain = |d: &Doc| {
            d.tags.iter().all(|t| !nul(&t.0) && !nul(&t.1)) && d.nodes.iter().all(|n| n.tag.as_deref().is_none_or(|t| !nul(t)))
        };
        let mut by = "";
        // libyaml's dump needs stack for every level.
        let shallow = docs.iter().all(|d| d.nodes.len() < 3000);
        if shallow && docs.iter().all(|d| plain(d) && libyaml_can(d)) {
            let mut m = c::Ce::new(cfg);
            let r = docs.iter().map(|d| m.dump(d)).find(|r| r.is_err()).unwrap_or(Ok(()));
            let r = r.and_then(|()| m.close()).and_then(|()| m.flush());
            if let Err(e) = r {
                return V::Bad(format!("dump succeeds, libyaml's fails: {e:?}"));
            }
            if m.sink.out != out {
                let astral = |d: &Doc| d.nodes.iter().any(|n| matches!(&n.v, Nd::Scalar(v, _) if v.iter().any(|b| *b >= 0xf0)));
                if !(utf16(cfg, &evs).is_some() && docs.iter().any(astral)) {
                    return V::Bad(format!("dump writes {}, libyaml {}", show(&out), show(&m.sink.out)));
                }
            }
            ctx.count("dumps compared with libyaml's", 1);
            by = ", as libyaml's";
        }
        let (back, end, _) = load_more(&mut Feed::new(&out, Cut::Whole), out.len());
        ctx.outcome(&back.iter().map(|d| (d.nodes.len(), d.nodes.iter().map(|n| &n.v).collect::<Vec<_>>())).collect::<Vec<_>>());
        let mut bad = None;
        for (k, (a, b)) in docs.iter().zip(&back).enumerate() {
            if let Err(m) = isomorphic(a, b) {
                bad = Some(format!("document {}: {m}", k + 1));
                break;
            }
        }
        if bad.is_none() && (back.len() != docs.len() || end != End::Done) {
            bad = Some(format!("{} documents dumped, {} reloaded, then {}", docs.len(), back.len(), end.brief()));
        }
        let Some(m) = bad else { return V::Ok };
        let m = format!("{m}; output {}{by}", show(&out));
        // A round trip the emitter itself does not make (see C10)?
        let (o2, _, e2) = rs::emit_all(cfg, &evs, true);
        if e2 == End::Done && o2 == out && !has_nul(&evs) {
            let back = rs::parse_all(&mut Feed::new(&out, Cut::Whole), 0);
            if let Err((_, Some(id))) = round_trip(cfg, &evs, &out, &back) {
                return V::Known(id, m);
            }
        }
        V::Bad(m)
    }
}
impl Prop for Dump {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "every document graph of the space (every choice of kind and references for each node, cycles, sharing and unreachable nodes included) is dumped and loaded back; the graphs reachable from the roots must be isomorphic, and the output libyaml's where libyaml can dump the graph; states are distinct (graph, configuration) pairs, transitions are serialised events"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["graphs in which libyaml's one-level search for shared nodes misses one are not compared with libyaml, which dereferences a null anchor there"]
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = vec![];
        let mut g = |n: u64, mp: u64, cfg: u8, style: u8, dress: u8, flags: u8| {
            let o = options(n, mp);
            v.push(index(
                "g",
                format!("every graph of {n} nodes (sequences of at most 2 items, mappings of at most {mp} pairs), configuration {cfg}, style {style}, dress {dress}, flags {flags}"),
                o.pow(n as u32),
                move |i| {
                    let mut c = vec![cfg, style, dress, flags];
                    let mut i = i;
                    for _ in 0..n {
                        c.extend_from_slice(&((i % o) as u16).to_le_bytes());
                        i /= o;
                    }
                    c
                },
            ));
        };
        g(3, 2, 0, 0, 0, 0);
        g(3, 2, 3, 3, 3, 8);
        g(4, 1, 0, 3, 0, 0);
        if thorough {
            g(3, 2, 0, 2, 1, 3);
            g(3, 2, 1, 1, 2, 1);
            g(4, 1, 1, 0, 1, 3);
            g(4, 1, 0, 2, 3, 12);
            for cfg in [0, 4, 8, 12] {
                for style in 0..4 {
                    for dress in 0..5 {
                        g(3, 2, cfg, style, dress, 0);
                    }
                }
            }
        }
        let dims = [4u64, 6, 8, 1 + T_TAGS.len() as u64, T_VALUES.len() as u64, 4];
        v.push(index("t", "one node with every tag, style, value and position, 4 configurations, 4 marker choices".into(), dims.iter().product(), move |mut i| {
            let mut x = [0u8; 6];
            for (k, n) in dims.iter().enumerate() {
                x[k] = (i % n) as u8;
                i /= n;
            }
            // Scalars in 6 styles, collections in the first value only.
            let (kind, style) = match x[2] {
                k @ 0..=5 => (0, k),
                k => (k - 5, x[4] % 3),
            };
            vec![[0, 1, 2, 9][x[0] as usize], x[1], kind, style, x[3], x[4], x[5]]
        }));
        for n in [1u64, 2] {
            let o = options(n, 2);
            v.push(index(
                "g",
                format!("every graph of {n} nodes, in all of 5 configurations, 4 styles, 5 dresses and 16 marker and directive choices"),
                o.pow(n as u32) * 1600,
                move |i| {
                    let k = i % 1600;
                    let mut c = vec![[0, 1, 3, 4, 8][(k % 5) as usize], (k / 5 % 4) as u8, (k / 20 % 5) as u8, (k / 100) as u8];
                    let mut i = i / 1600;
                    for _ in 0..n {
                        c.extend_from_slice(&((i % o) as u16).to_le_bytes());
                        i /= o;
                    }
                    c
                },
            ));
        }
        let o = options(2, 1);
        for (dress, style) in [(0u8, 0u8), (3, 2), (4, 0), (2, 1)].into_iter().take(if thorough { 4 } else { 2 }) {
            v.push(index(
                "m",
                format!("every pair of documents of 2 nodes, {} marker and directive choices, dress {dress}", 64),
                o.pow(4) * 64,
                move |i| {
                    let f = i % 64;
                    let mut i = i / 64;
                    // 0-7 for the first document, 0-7 (with tag directive) for the second
                    let (f1, f2) = (f % 8, f / 8);
                    let f2 = (f2 & 3) | if f2 & 4 != 0 { 8 } else { 0 };
                    let mut c = vec![0, style, f1 as u8, f2 as u8, dress];
                    for _ in 0..4 {
                        c.extend_from_slice(&((i % o) as u16).to_le_bytes());
                        i /= o;
                    }
                    c
                },
            ));
        }
        let ns: &[u32] = if thorough { &[1, 2, 3, 9, 10, 11, 99, 100, 101, 300, 999, 1000, 1001, 3000] } else { &[1, 2, 3, 10, 100, 300, 1001] };
        v.push(list(
            "big",
            "large documents of 5 shapes",
            (0..5u8)
                .flat_map(|s| {
                    ns.iter().filter(move |n| **n <= 400 || !matches!(s, 1 | 2)).map(move |n| {
                        let mut c = vec![s];
                        c.extend_from_slice(&n.to_le_bytes());
                        c
                    })
                })
                .collect(),
        ));
        let ns: &[u32] = if thorough { &[2, 3, 9, 17, 33, 65, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1025, 4097, 32_768, 65_535, 65_536, 65_537, 65_538] } else { &[2, 3, 17, 65, 127, 128, 129, 255, 256, 257, 258, 513, 1025, 65_536, 65_538] };
        v.push(list(
            "big",
            "a node that is referenced many times, many nodes",
            (8..25u8).flat_map(|s| ns.iter().map(move |n| [&[s][..], &n.to_le_bytes()].concat())).collect(),
        ));
        v.push(list(
            "big",
            "documents nested 3000 and 20000 deep, on a small stack",
            [(5u8, 3000u32), (5, 20000), (6, 3000), (7, 3000)].iter().map(|(s, n)| [&[*s][..], &n.to_le_bytes()].concat()).collect(),
        ));
        v.push(list(
            "text",
            "folded scalars longer than the width",
            [" ", "\t", ""].iter().flat_map(|b| [14, 15, 16, 17, 40].map(|n| format!("- >\n  x\n  {b}{}end\n", "word ".repeat(n)).into_bytes())).collect(),
        ));
        let mut t = load_space("text", thorough);
        t.extend(spaces::text("text", thorough, 0));
        v.extend(t);
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind == "text" {
            return show(case);
        }
        match graphs(kind, case) {
            Some((cfg, docs)) => {
                let mut s = super::events::cfg_name(&CFGS[cfg]);
                for d in &docs {
                    s.push_str(&format!(
                        " document(version {:?}, tags {}, implicit {}/{}:",
                        d.version,
                        d.tags.len(),
                        d.start_implicit,
                        d.end_implicit
                    ));
                    for (k, n) in d.nodes.iter().enumerate().take(20) {
                        let t = n.tag.as_ref().map_or(String::new(), |t| show(t));
                        let x = match &n.v {
                            Nd::Scalar(v, st) => format!("{} style {st}", show(v)),
                            Nd::Seq(v, st) => format!("{v:?} style {st}"),
                            Nd::Map(v, st) => format!("{{{v:?}}} style {st}"),
                            Nd::None => "-".into(),
                        };
                        s.push_str(&format!(" {}={t}{x}", k + 1));
                    }
                    s.push(')');
                }
                s
            }
            None => format!("{case:?}"),
        }
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "text" {
            let mut feed = Feed::new(case, Cut::Char);
            let load = |f: &mut Feed| -> (Vec<l::Document>, bool) {
                let mut docs = vec![];
                let mut p = l::Parser::new();
                p.set_input(f);
                loop {
                    match l::Document::load(&mut p) {
                        Ok(d) if d.nodes.is_empty() => return (docs, true),
                        Ok(d) => docs.push(d),
                        Err(_) => return (docs, false),
                    }
                }
            };
            let (docs, ok) = load(&mut feed);
            if !ok {
                ctx.count("texts that do not load", 1);
                return if feed.saw_eof { V::Ok } else { V::Prune };
            }
            if docs.is_empty() {
                return V::Ok;
            }
            let m: Vec<Doc> = docs.iter().map(rs::doc).collect();
            for cfg in [0usize, 12] {
                match self.one(&CFGS[cfg], &m, || docs.clone(), ctx) {
                    V::Ok => {}
                    v => return v,
                }
            }
            return V::Ok;
        }
        let Some((cfg, docs)) = graphs(kind, case) else { return V::Skip };
        ctx.states.insert(hash(&(cfg, &docs)));
        let mut run = || self.one(&CFGS[cfg], &docs, || docs.iter().map(rs::build_doc).collect(), ctx);
        if kind == "big" && (5..8).contains(&case[0]) {
            return rs::small_stack(run);
        }
        run()
    }
}

// ------------------------------------------------------------------ C17

/// One operation: code, and up to three indices.
const OPS: &[(char, i32, i32, i32)] = &[
    ('s', 0, 0, 0),
    ('s', 1, 0, 0),
    ('q', 0, 0, 0),
    ('q', 1, 0, 0),
    ('m', 0, 0, 0),
    ('m', 1, 0, 0),
    // append_sequence_item
    ('i', 1, 1, 0),
    ('i', 1, 2, 0),
    ('i', 1, 3, 0),
    ('i', 2, 1, 0),
    ('i', 2, 2, 0),
    ('i', 2, 3, 0),
    ('i', 3, 1, 0),
    ('i', 0, 1, 0),
    ('i', 1, 0, 0),
    ('i', -1, 1, 0),
    ('i', 1, -1, 0),
    ('i', i32::MIN, 1, 0),
    ('i', 1, i32::MAX, 0),
    // append_mapping_pair
    ('p', 1, 1, 1),
    ('p', 1, 1, 2),
    ('p', 1, 2, 1),
    ('p', 1, 2, 3),
    ('p', 2, 1, 1),
    ('p', 2, 1, 2),
    ('p', 2, 3, 1),
    ('p', 3, 1, 2),
    ('p', 0, 1, 1),
    ('p', 1, 0, 1),
    ('p', 1, 1, 0),
    ('p', -1, 1, 1),
    ('p', 1, -1, 1),
    ('p', 1, 1, i32::MIN),
    // get_node_mut, set the tag
    ('t', 1, 0, 0),
    ('t', 2, 0, 0),
    ('r', 0, 0, 0), // the same through get_root_node
    ('c', 0, 0, 0), // continue with a clone
    ('s', 2, 0, 0), // with an empty tag
    ('q', 2, 0, 0),
    ('m', 2, 0, 0),
    ('s', 3, 0, 0), // an empty value, the tag of plain strings
];
struct Build;
impl Build {
    fn apply(d: &mut l::Document, m: &mut Doc, op: (char, i32, i32, i32), step: usize) -> Result<(), String> {
        let n = m.nodes.len() as i32;
        let value = if op.0 == 's' && op.1 == 3 { String::new() } else { format!("v{step}") };
        let ok = |x: i32| 1 <= x && x <= n;
        let add = |m: &mut Doc, tag: Option<&str>, v: Nd| {
            let tag = tag.map_or(default_tag(&v).to_vec(), |t| t.as_bytes().to_vec());
            m.nodes.push(Node { tag: Some(tag), v, s: Mk::default(), e: Mk::default() });
        };
        let tag = [None, Some("!x"), Some(""), Some("!")][op.1.clamp(0, 3) as usize];
        let style = (step % 3) as u8;
        match op.0 {
            's' | 'q' | 'm' => {
                let id = match op.0 {
                    's' => {
                        add(m, tag, Nd::Scalar(value.clone().into_bytes(), style));
                        d.add_scalar(tag, &value, rs::ss(style))
                    }
                    'q' => {
                        add(m, tag, Nd::Seq(vec![], style));
                        d.add_sequence(tag, rs::qs(style))
                    }
                    _ => {
                        add(m, tag, Nd::Map(vec![], style));
                        d.add_mapping(tag, rs::ms(style))
                    }
                };
                if id != n + 1 {
                    return Err(format!("the new node has id {id}, not {}", n + 1));
                }
            }
            'i' | 'p' => {
                let kind_ok = ok(op.1)
                    && match &m.nodes[op.1 as usize - 1].v {
                        Nd::Seq(..) => op.0 == 'i',
                        Nd::Map(..) => op.0 == 'p',
                        _ => false,
                    };
                let valid = kind_ok && ok(op.2) && (op.0 == 'i' || ok(op.3));
                if valid {
                    match &mut m.nodes[op.1 as usize - 1].v {
                        Nd::Seq(v, _) => v.push(op.2),
                        Nd::Map(v, _) => v.push((op.2, op.3)),
                        _ => {}
                    }
                }
                let r = rs::guarded(|| match op.0 {
                    'i' => d.append_sequence_item(op.1, op.2),
                    _ => d.yaml_document_append_mapping_pair(op.1, op.2, op.3),
                });
                // What an invalid index does is left open, except that the
                // document stays as it is.
                if let (Err(p), true) = (r, valid) {
                    return Err(format!("a valid append panics: {p}"));
                }
            }
            't' | 'r' => {
                let x = if op.0 == 't' { d.get_node_mut(op.1) } else { d.get_root_node() };
                let k = if op.0 == 't' { op.1 } else { 1 };
                if x.is_some() != ok(k) {
                    return Err(format!("node {k} found: {}", x.is_some()));
                }
                if let Some(x) = x {
                    let t = format!("!t{step}");
                    m.nodes[k as usize - 1].tag = Some(t.clone().into_bytes());
                    x.tag = Some(t);
                }
            }
            _ => *d = d.clone(),
        }
        Ok(())
    }
}
impl Build {
    /// A sequence and a mapping, many more nodes, each linked to one of them.
    fn many(i: u8, ctx: &mut Ctx) -> Result<(), String> {
        let mut d = l::Document::new(None, &[], true, true);
        let _ = (d.add_sequence(None, rs::qs(1)), d.add_mapping(None, rs::ms(1)));
        let (mut items, mut pairs) = (vec![], vec![]);
        for n in 3..=70_000i32 {
            let id = match (i % 4 + (i % 4 == 3) as u8 * (n % 3) as u8) % 3 {
                0 => d.add_scalar(None, &n.to_string(), rs::ss(1)),
                1 => d.add_sequence(Some(&format!("!{n}")), rs::qs(1)),
                _ => d.add_mapping(Some(&format!("!{n}")), rs::ms(1)),
            };
            if id != n {
                return Err(format!("the new node has id {id}, not {n}"));
            }
            if i < 4 {
                d.append_sequence_item(1, n);
                items.push(n);
            } else {
                d.yaml_document_append_mapping_pair(2, n, n - 1);
                pairs.push((n, n - 1));
            }
            ctx.trans += 2;
        }
        ctx.states.insert(i as u64);
        for n in 3..=70_000 {
            let node = d.get_node(n).ok_or(format!("node {n} is not found"))?;
            let is = match &node.data {
                l::NodeData::Scalar { value, .. } => *value == n.to_string(),
                _ => node.tag == Some(format!("!{n}")),
            };
            if !is {
                return Err(format!("node {n} is {node:?}"));
            }
        }
        for n in [70_001, 70_002, 0, -1, 1 << 16 | 1 << 20, i32::MIN + 3] {
            if d.get_node(n).is_some() || d.get_node_mut(n).is_some() {
                return Err(format!("node {n} is found"));
            }
        }
        let v = rs::doc(&d);
        match (&v.nodes[0].v, &v.nodes[1].v) {
            (Nd::Seq(a, _), Nd::Map(b, _)) if *a == items && *b == pairs => Ok(()),
            _ => Err("the links are not those that were made".into()),
        }
    }
}
const CONSTANTS: &[(&str, &str, &str)] = &[
    ("NULL_TAG", l::NULL_TAG, "tag:yaml.org,2002:null"),
    ("BOOL_TAG", l::BOOL_TAG, "tag:yaml.org,2002:bool"),
    ("STR_TAG", l::STR_TAG, "tag:yaml.org,2002:str"),
    ("INT_TAG", l::INT_TAG, "tag:yaml.org,2002:int"),
    ("FLOAT_TAG", l::FLOAT_TAG, "tag:yaml.org,2002:float"),
    ("TIMESTAMP_TAG", l::TIMESTAMP_TAG, "tag:yaml.org,2002:timestamp"),
    ("SEQ_TAG", l::SEQ_TAG, "tag:yaml.org,2002:seq"),
    ("MAP_TAG", l::MAP_TAG, "tag:yaml.org,2002:map"),
    ("DEFAULT_SCALAR_TAG", l::DEFAULT_SCALAR_TAG, "tag:yaml.org,2002:str"),
    ("DEFAULT_SEQUENCE_TAG", l::DEFAULT_SEQUENCE_TAG, "tag:yaml.org,2002:seq"),
    ("DEFAULT_MAPPING_TAG", l::DEFAULT_MAPPING_TAG, "tag:yaml.org,2002:map"),
];

impl Prop for Build {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "every sequence of document operations, with valid and invalid indices, runs on the library's document and on a vector of nodes; after every step all nodes and all lookups must agree; states are distinct documents, transitions operations"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let atoms = |n: usize| (0..n).map(|i| vec![i as u8]).collect::<Vec<_>>();
        let mut v = vec![Scope {
            kind: "ops",
            name: format!("all sequences of at most {} of {} operations", if thorough { 5 } else { 4 }, OPS.len()),
            gen: Gen::Tree { prefix: vec![], atoms: atoms(OPS.len()), suffixes: vec![vec![]], depth: if thorough { 5 } else { 4 }, filter: None },
        }];
        // A sequence, a mapping and a scalar first.
        for pre in [[2u8, 4, 0], [4, 2, 1]] {
            v.push(Scope {
                kind: "ops",
                name: format!("the same after creating three nodes ({pre:?}), at most {} operations", if thorough { 4 } else { 3 }),
                gen: Gen::Tree {
                    prefix: pre.to_vec(),
                    atoms: atoms(OPS.len()),
                    suffixes: vec![vec![]],
                    depth: if thorough { 4 } else { 3 },
                    filter: None,
                },
            });
        }
        v.push(index("many", "70 000 nodes of one kind or all, linked to the first ones".into(), 8, |i| vec![i as u8]));
        v.push(index("head", "directives and markers of a new document".into(), 36, |i| vec![i as u8]));
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind == "head" || kind == "many" {
            return format!("{kind} {case:?}");
        }
        case.iter().filter_map(|i| OPS.get(*i as usize)).map(|o| format!("{}({},{},{}) ", o.0, o.1, o.2, o.3)).collect()
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "head" {
            for (name, value, want) in CONSTANTS {
                if value != want {
                    return V::Bad(format!("{name} is {value:?}, YAML's tag is {want:?}"));
                }
            }
            let i = *case.first().unwrap_or(&0) as usize;
            let version = [None, Some((1, 1)), Some((1, 2))][i % 3];
            let tags: Vec<(S, S)> = [vec![], vec![("!", "x")], vec![("!a!", "y"), ("!!", "z")]][i / 3 % 3]
                .iter()
                .map(|t| (t.0.as_bytes().to_vec(), t.1.as_bytes().to_vec()))
                .collect();
            let m = Doc { version, tags, start_implicit: i / 9 % 2 == 0, end_implicit: i / 18 == 0, ..Default::default() };
            let d = rs::doc(&rs::build_doc(&m));
            return if d == m { V::Ok } else { V::Bad(format!("new document {d:?}, expected {m:?}")) };
        }
        if kind == "many" {
            return match rs::guarded(|| Build::many(*case.first().unwrap_or(&0), ctx)) {
                Ok(Ok(())) => V::Ok,
                Ok(Err(m)) => V::Bad(m),
                Err(p) => V::Bad(format!("panics: {p}")),
            };
        }
        let mut d = l::Document::new(None, &[], true, true);
        let mut m = Doc { start_implicit: true, end_implicit: true, ..Default::default() };
        for (k, i) in case.iter().enumerate() {
            let Some(op) = OPS.get(*i as usize) else { return V::Skip };
            if let Err(e) = Build::apply(&mut d, &mut m, *op, k) {
                return V::Bad(format!("step {}: {e}", k + 1));
            }
            ctx.trans += 1;
        }
        let x = rs::doc(&d);
        ctx.states.insert(hash(&m));
        ctx.outcome(&m);
        if x != m {
            return V::Bad(format!("document {x:?}, expected {m:?}"));
        }
        for k in [i32::MIN, -2, -1, 0, 1, 2, 3, 4, 5, i32::MAX] {
            let want = usize::try_from(k).ok().and_then(|k| k.checked_sub(1)).and_then(|k| m.nodes.get(k));
            let got = rs::guarded(|| (d.get_node(k).map(rs::node), d.get_node_mut(k).map(|n| rs::node(n))));
            match got {
                Err(p) => return V::Bad(format!("get_node({k}) panics: {p}")),
                Ok((a, b)) if a.as_ref() != want || b.as_ref() != want => {
                    return V::Bad(format!("get_node({k}) gives {a:?}, get_node_mut {b:?}, expected {want:?}"));
                }
                _ => {}
            }
        }
        if d.get_root_node().map(|n| rs::node(n)).as_ref() != m.nodes.first() {
            return V::Bad("get_root_node is not the first node".into());
        }
        V::Ok
    }
}
