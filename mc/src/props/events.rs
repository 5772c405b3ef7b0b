//! The spaces of event streams the emitter is explored on. A case is a few
//! selector bytes and a path of atoms; `decode` turns it into a configuration
//! and a stream of events.
use super::stream::Grammar;
use crate::engine::*;
use crate::feed::{Cut, Feed};
use crate::nt::*;

pub const CFGS: &[Cfg] = &{
    const D: Cfg = Cfg { encoding: None, canonical: None, indent: None, width: None, unicode: None, brk: None };
    [
        /* 0 */ D,
        /* 1 */ Cfg { canonical: Some(true), ..D },
        /* 2 */ Cfg { unicode: Some(true), ..D },
        /* 3 */ Cfg { width: Some(10), ..D },
        /* 4 */ Cfg { indent: Some(4), width: Some(12), ..D },
        /* 5 */ Cfg { width: Some(-1), unicode: Some(true), ..D },
        /* 6 */ Cfg { brk: Some(3), width: Some(10), ..D },
        /* 7 */ Cfg { brk: Some(1), ..D },
        /* 8 */ Cfg { encoding: Some(2), unicode: Some(true), ..D },
        /* 9 */ Cfg { encoding: Some(3), ..D },
        /* 10 */ Cfg { indent: Some(9), ..D },
        /* 11 */ Cfg { canonical: Some(true), unicode: Some(true), width: Some(10), ..D },
        /* 12 */ Cfg { width: Some(5), unicode: Some(true), ..D },
        /* 13 */ Cfg { indent: Some(1), width: Some(0), ..D },
        /* 14 */ Cfg { indent: Some(10), width: Some(4), ..D },
        /* 15 */ Cfg { indent: Some(3), canonical: Some(false), unicode: Some(true), brk: Some(2), encoding: Some(1), width: Some(20) },
        /* 16 */ Cfg { brk: Some(3), unicode: Some(true), ..D },
        /* 17 */ Cfg { brk: Some(1), unicode: Some(true), width: Some(10), ..D },
    ]
};

pub fn sc(v: &str, style: u8) -> Ev {
    Ev::Scalar { anchor: None, tag: None, value: v.as_bytes().to_vec(), plain: true, quoted: true, style }
}
fn so(v: &str) -> Option<S> {
    Some(v.as_bytes().to_vec())
}
pub fn seq(style: u8) -> Ev {
    Ev::SeqStart { anchor: None, tag: None, implicit: true, style }
}
pub fn map(style: u8) -> Ev {
    Ev::MapStart { anchor: None, tag: None, implicit: true, style }
}
pub fn ds() -> Ev {
    Ev::DocStart { version: None, tags: vec![], implicit: true }
}
pub fn de() -> Ev {
    Ev::DocEnd { implicit: true }
}

// ------------------------------------------------------------------ structure

pub const END: u8 = 255;
const ST_SMALL: usize = 8;
const ST_ALL: usize = 16;
fn st_atom(i: u8) -> Option<Ev> {
    Some(match i {
        0 => sc("a", 1),
        1 => sc("", 1),
        2 => Ev::Alias(b"x".to_vec()),
        3 => seq(1),
        4 => seq(2),
        5 => map(1),
        6 => map(2),
        7 => return None, // close
        8 => sc("b\nc", 4),
        9 => sc("word word\nword\n", 5),
        10 => Ev::Scalar { anchor: so("x"), tag: None, value: b"d".to_vec(), plain: true, quoted: true, style: 3 },
        11 => Ev::Scalar { anchor: None, tag: so("!t"), value: b"e".to_vec(), plain: false, quoted: false, style: 1 },
        12 => Ev::SeqStart { anchor: so("x"), tag: so("!s"), implicit: false, style: 1 },
        13 => Ev::MapStart { anchor: so("y"), tag: so("tag:yaml.org,2002:map"), implicit: false, style: 1 },
        14 => sc("word word word word", 1),
        15 => sc("f g h i 'j", 2),
        _ => return None,
    })
}
/// Stack of the open collections along a path: 'q', 'k' (before a key), 'v';
/// None when the path is not one of the grammar.
fn st_stack(path: &[u8]) -> Option<(Vec<u8>, bool)> {
    let mut st: Vec<u8> = vec![];
    let mut root = false;
    for a in path {
        if root && st.is_empty() {
            return None;
        }
        match *a {
            7 => {
                if !matches!(st.last(), Some(b'q' | b'k')) {
                    return None;
                }
                st.pop();
            }
            x => {
                root = true;
                match st.last_mut() {
                    Some(y @ b'k') => *y = b'v',
                    Some(y @ b'v') => *y = b'k',
                    _ => {}
                }
                match x {
                    3 | 4 | 12 => st.push(b'q'),
                    5 | 6 | 13 => st.push(b'k'),
                    _ => {}
                }
            }
        }
    }
    Some((st, root))
}
fn st_ok(path: &[u8], a: u8) -> bool {
    let mut p = [0u8; 32];
    p[..path.len()].copy_from_slice(path);
    p[path.len()] = a;
    st_stack(&p[..path.len() + 1]).is_some()
}
fn st_decode(path: &[u8]) -> Option<Vec<Ev>> {
    let (st, root) = st_stack(path)?;
    let mut v = vec![Ev::StreamStart(1), ds()];
    let mut open: Vec<bool> = vec![];
    let close = |o: bool| if o { Ev::MapEnd } else { Ev::SeqEnd };
    for a in path {
        if *a == 7 {
            v.push(close(open.pop()?));
            continue;
        }
        let e = st_atom(*a)?;
        match e {
            Ev::SeqStart { .. } => open.push(false),
            Ev::MapStart { .. } => open.push(true),
            _ => {}
        }
        v.push(e);
    }
    if !root {
        v.push(sc("r", 1));
    }
    for x in st.iter().rev() {
        if *x == b'v' {
            v.push(sc("", 1));
        }
        v.push(close(open.pop()?));
    }
    v.push(de());
    v.push(Ev::StreamEnd);
    Some(v)
}

// ------------------------------------------------------------------ documents

const DC_START: usize = 9;
const DC_BODY: usize = 12;
pub const DC: usize = DC_START * DC_BODY * 2;
fn dc_doc(i: usize, v: &mut Vec<Ev>) {
    let t = |h: &str, p: &str| (h.as_bytes().to_vec(), p.as_bytes().to_vec());
    let (version, tags, implicit) = match i % DC_START {
        0 => (None, vec![], true),
        1 => (None, vec![], false),
        2 => (Some((1, 1)), vec![], false),
        3 => (Some((1, 2)), vec![], true),
        4 => (None, vec![t("!a!", "tag:a,2000:")], false),
        5 => (Some((1, 1)), vec![t("!", "!foo"), t("!!", "tag:b,2000:")], true),
        6 => (None, vec![t("!a!", "!x"), t("!b!", "!xy")], true),
        7 => (None, vec![t("!a!", "p"), t("!a!", "q")], false), // duplicate
        _ => (Some((2, 0)), vec![], false),                     // incompatible
    };
    v.push(Ev::DocStart { version, tags, implicit });
    let tagged = |tag: &str, value: &str| Ev::Scalar {
        anchor: None,
        tag: so(tag),
        value: value.as_bytes().to_vec(),
        plain: false,
        quoted: false,
        style: 1,
    };
    match i / DC_START % DC_BODY {
        0 => v.push(sc("a", 1)),
        1 => v.push(sc("", 1)),
        2 => v.push(sc("a\n\n", 4)),
        3 => v.push(sc("a\n\n", 5)),
        4 => v.push(sc("a", 4)),
        5 => v.push(tagged("tag:a,2000:x", "b")),
        6 => v.push(tagged("!xyz", "")),
        7 => {
            v.push(Ev::SeqStart { anchor: None, tag: so("tag:yaml.org,2002:seq"), implicit: false, style: 1 });
            v.push(tagged("!foobar", "c"));
            v.push(Ev::SeqEnd);
        }
        8 => v.extend([map(2), Ev::MapEnd]),
        9 => v.extend([map(1), sc("k", 1), sc("l\n", 4), Ev::MapEnd]),
        10 => v.push(Ev::Alias(b"z".to_vec())),
        _ => v.extend([seq(1), sc("x\n\n\n", 4), Ev::SeqEnd]),
    }
    v.push(Ev::DocEnd { implicit: i / (DC_START * DC_BODY) == 0 });
}

// -------------------------------------------------------------------- context

pub const CTX: u8 = 12;
pub fn wrap(ctx: u8, node: Vec<Ev>) -> Vec<Ev> {
    let mut v = vec![Ev::StreamStart(1), ds()];
    match ctx {
        0 => v.extend(node),
        1 => {
            v.push(seq(1));
            v.extend(node);
            v.extend([sc("z", 1), Ev::SeqEnd]);
        }
        2 => {
            v.push(map(1));
            v.extend(node);
            v.extend([sc("v", 1), sc("k2", 1), sc("v2", 1), Ev::MapEnd]);
        }
        3 => {
            v.extend([map(1), sc("k", 1)]);
            v.extend(node);
            v.extend([sc("k2", 1), sc("v2", 1), Ev::MapEnd]);
        }
        4 => {
            v.push(seq(2));
            v.extend(node);
            v.extend([sc("z", 1), Ev::SeqEnd]);
        }
        5 => {
            v.push(map(2));
            v.extend(node);
            v.extend([sc("v", 1), sc("k2", 1), sc("v2", 1), Ev::MapEnd]);
        }
        6 => {
            v.extend([map(2), sc("k", 1)]);
            v.extend(node);
            v.extend([sc("k2", 1), sc("v2", 1), Ev::MapEnd]);
        }
        7 => {
            v.extend([map(1), sc("k", 1), seq(1)]);
            v.extend(node);
            v.extend([Ev::SeqEnd, sc("k2", 1), sc("v2", 1), Ev::MapEnd]);
        }
        8 => {
            v.extend([seq(1), seq(1), sc("y", 1)]);
            v.extend(node);
            v.extend([Ev::SeqEnd, sc("z", 1), Ev::SeqEnd]);
        }
        9 => {
            v.extend(node);
            v.extend([de(), ds(), sc("next", 1)]);
        }
        10 => {
            v.extend([map(1), sc("k", 1), map(1), sc("k", 1)]);
            v.extend(node);
            v.extend([Ev::MapEnd, Ev::MapEnd]);
        }
        _ => {
            // A second document with a directive: open-ended scalars matter.
            v.extend(node);
            v.push(de());
            v.push(Ev::DocStart { version: Some((1, 1)), tags: vec![], implicit: false });
            v.push(sc("next", 1));
        }
    }
    v.push(de());
    v.push(Ev::StreamEnd);
    v
}

fn scalar(value: &[u8], style: u8, flags: u8) -> Ev {
    Ev::Scalar {
        anchor: None,
        tag: if flags & 3 == 0 { so("!t") } else { None },
        value: value.to_vec(),
        plain: flags & 1 != 0,
        quoted: flags & 2 != 0,
        style,
    }
}

// ----------------------------------------------------------------------- tags

pub const TG_DIRS: u8 = 5;
pub const TG_NODES: u8 = 6;
fn tg_decode(dirs: u8, node: u8, flags: u8, tag: &[u8]) -> Vec<Ev> {
    let t = |h: &str, p: &str| (h.as_bytes().to_vec(), p.as_bytes().to_vec());
    let tags = match dirs {
        0 => vec![],
        1 => vec![t("!a!", "!a"), t("!b!", "a")],
        2 => vec![t("!", "a:")],
        3 => vec![t("!!", "!"), t("!e!", "\u{e9}")],
        _ => vec![t("!a!", "!aaa"), t("!", "!a")],
    };
    let tag = Some(tag.to_vec());
    let f = flags & 1 != 0;
    let s = |style, tag| Ev::Scalar { anchor: None, tag, value: b"v".to_vec(), plain: f, quoted: flags & 2 != 0, style };
    let mut v = vec![Ev::StreamStart(1), Ev::DocStart { version: None, tags, implicit: false }];
    match node {
        0 => v.push(s(1, tag)),
        1 => v.push(s(3, tag)),
        2 => v.extend([Ev::SeqStart { anchor: so("x"), tag, implicit: f, style: 1 }, sc("i", 1), Ev::SeqEnd]),
        3 => v.extend([Ev::SeqStart { anchor: None, tag, implicit: f, style: 2 }, Ev::SeqEnd]),
        4 => v.extend([Ev::MapStart { anchor: None, tag, implicit: f, style: 1 }, sc("k", 1), sc("v", 1), Ev::MapEnd]),
        _ => v.extend([map(2), s(0, tag.clone()), s(4, tag), Ev::MapEnd]),
    }
    v.push(de());
    v.push(Ev::StreamEnd);
    v
}

fn an_decode(node: u8, name: &[u8]) -> Vec<Ev> {
    let anchor = Some(name.to_vec());
    match node {
        0 => wrap(1, vec![Ev::Scalar { anchor, tag: None, value: b"v".to_vec(), plain: true, quoted: true, style: 1 }]),
        1 => wrap(3, vec![Ev::SeqStart { anchor, tag: None, implicit: true, style: 1 }, sc("i", 1), Ev::SeqEnd]),
        2 => wrap(4, vec![Ev::MapStart { anchor, tag: None, implicit: true, style: 1 }, Ev::MapEnd]),
        3 => wrap(1, vec![Ev::Alias(name.to_vec())]),
        4 => wrap(2, vec![Ev::Alias(name.to_vec())]),
        _ => wrap(5, vec![Ev::Alias(name.to_vec())]),
    }
}

// ----------------------------------------------------------------- long texts

pub const PATTERNS: u8 = 12;
pub fn pattern(p: u8, n: usize) -> Vec<u8> {
    let unit: &str = match p {
        0 => "a",
        1 => "word ",
        2 => "\u{e9}",
        3 => "a ",
        4 => "0123456789\n",
        5 => "x\ty\tz ",
        6 => "\u{1f600} ",
        7 => "aa\n bb\ncc dd\n\n",
        8 => "\u{7} a",
        9 => "' it's ",
        10 => "\"\\ ",
        _ => "a  b   c\n",
    };
    let mut s = String::new();
    'o: loop {
        for c in unit.chars() {
            if s.len() + c.len_utf8() > n {
                break 'o;
            }
            s.push(c);
        }
    }
    // Trailing space or break would force another style: end with a letter.
    while s.ends_with([' ', '\n']) {
        s.pop();
    }
    while s.len() < n {
        s.push('e');
    }
    s.into_bytes()
}

// -------------------------------------------------------------- all sequences

const ANY: usize = 12;
fn any_atom(i: u8) -> Ev {
    match i {
        0 => Ev::StreamStart(1),
        1 => Ev::StreamEnd,
        2 => ds(),
        3 => de(),
        4 => sc("a", 1),
        5 => seq(1),
        6 => Ev::SeqEnd,
        7 => map(2),
        8 => Ev::MapEnd,
        9 => Ev::Alias(b"x".to_vec()),
        10 => seq(2),
        _ => map(1),
    }
}

// --------------------------------------------------------------------- decode

pub fn decode(kind: &str, case: &[u8]) -> Option<(Cfg, Vec<Ev>)> {
    let cfg = *CFGS.get(*case.first()? as usize)?;
    let utf8 = |b: &[u8]| std::str::from_utf8(b).is_ok();
    let evs = match kind {
        "st" => st_decode(&case[1..])?,
        "dc" => {
            let mut v = vec![Ev::StreamStart(0)];
            for i in &case[1..] {
                dc_doc(*i as usize, &mut v);
            }
            v.push(Ev::StreamEnd);
            v
        }
        "sc" => {
            let t = case.get(4..)?;
            if !utf8(t) {
                return None;
            }
            wrap(case[2], vec![scalar(t, case[1], case[3])])
        }
        "tg" => {
            let t = case.get(4..)?;
            if !utf8(t) {
                return None;
            }
            tg_decode(case[1], case[2], case[3], t)
        }
        "an" => {
            let t = case.get(2..)?;
            if !utf8(t) {
                return None;
            }
            an_decode(case[1], t)
        }
        "di" => {
            let t = case.get(1..)?;
            if !utf8(t) {
                return None;
            }
            let mut it = t.split(|c| *c == 1);
            let (h, p) = (it.next()?.to_vec(), it.next().unwrap_or(b"p").to_vec());
            let mut tag = p.clone();
            tag.extend_from_slice(b"x");
            vec![
                Ev::StreamStart(1),
                Ev::DocStart { version: None, tags: vec![(h, p)], implicit: false },
                Ev::Scalar { anchor: None, tag: Some(tag), value: b"v".to_vec(), plain: false, quoted: false, style: 1 },
                de(),
                Ev::StreamEnd,
            ]
        }
        "lg" => {
            let n = u32::from_le_bytes(case.get(4..8)?.try_into().ok()?) as usize;
            let t = pattern(case[3], n);
            let mut e = scalar(&t, case[1], 3);
            if case[2] & 0x80 != 0 {
                if let Ev::Scalar { anchor, tag, plain, quoted, .. } = &mut e {
                    *anchor = so("anch");
                    *tag = so("!tag");
                    *plain = false;
                    *quoted = false;
                }
            }
            wrap(case[2] & 0x7f, vec![e])
        }
        "bf" => {
            // A filler that leaves the output buffer almost full, then a
            // scalar whose pieces straddle the end of the buffer.
            let n = u32::from_le_bytes(case.get(3..7)?.try_into().ok()?) as usize;
            let fill = sc(std::str::from_utf8(&pattern(0, n)).unwrap(), 1);
            let x = match case[2] {
                0 => "\u{e9}\u{20ac}\u{1f600}'z",
                1 => "a\nb\u{85}c\u{2028}d\n",
                2 => "\u{7}\u{1f600}\u{feff}\"\\",
                3 => "word word word",
                _ => "",
            };
            let mut v = vec![Ev::StreamStart(1), ds(), seq(1), fill, sc(x, case[1])];
            v.push(Ev::Scalar { anchor: so("anchor"), tag: so("!t\u{e9}g"), value: b"v".to_vec(), plain: false, quoted: false, style: 1 });
            v.extend([Ev::Alias(b"anchor".to_vec()), seq(2), Ev::SeqEnd, map(1), sc("k", 1), sc("v", 1), Ev::MapEnd, Ev::SeqEnd]);
            v.extend([de(), Ev::StreamEnd]);
            v
        }
        "cp" => {
            // case[3]: how many consecutive code points are packed together.
            let n = u32::from_le_bytes(case.get(4..8)?.try_into().ok()?);
            let mut s = String::new();
            if case[2] == 2 {
                s.push('a');
            }
            for k in n..n + case[3] as u32 {
                if let Some(c) = char::from_u32(k) {
                    s.push(c);
                }
            }
            if case[2] == 2 {
                s.push('b');
            }
            if s.is_empty() {
                return None;
            }
            match case[2] {
                0 | 2 => wrap(1, vec![sc(&s, case[1])]),
                1 => wrap(0, vec![sc(&s, case[1])]),
                3 => {
                    let e = Ev::Scalar { anchor: None, tag: Some(format!("!{s}").into_bytes()), value: b"v".to_vec(), plain: false, quoted: false, style: 1 };
                    wrap(1, vec![e])
                }
                4 => wrap(1, vec![Ev::Alias(s.into_bytes())]),
                _ => {
                    let mut v = wrap(0, vec![sc("a", 1)]);
                    if let Ev::DocStart { tags, .. } = &mut v[1] {
                        tags.push((b"!h!".to_vec(), s.clone().into_bytes()));
                    }
                    if let Ev::Scalar { tag, plain, quoted, .. } = &mut v[2] {
                        *tag = Some(format!("{s}{s}").into_bytes());
                        *plain = false;
                        *quoted = false;
                    }
                    v
                }
            }
        }
        "fl" => {
            let &[_, node, ctx, style, flags, tag, anchor, value] = case else { return None };
            let tag = match tag {
                0 => None,
                x => so(["", "!", "!t", "!\u{e9}", "tag:yaml.org,2002:str", "tag:yaml.org,2002:null", "t:x y"].get(x as usize - 1)?),
            };
            let anchor = match anchor {
                0 => None,
                x => so(["", "x", "\u{e9}"].get(x as usize - 1)?),
            };
            let v = match node {
                0 => {
                    let value = ["", "a", "a b", "\u{e9}", "a\nb", " a", "-", "a\n"].get(value as usize)?;
                    vec![Ev::Scalar { anchor, tag, value: value.as_bytes().to_vec(), plain: flags & 1 != 0, quoted: flags & 2 != 0, style }]
                }
                1 => {
                    let mut v = vec![Ev::SeqStart { anchor, tag, implicit: flags & 1 != 0, style }];
                    v.extend((0..value).map(|_| sc("i", 1)));
                    v.push(Ev::SeqEnd);
                    v
                }
                _ => {
                    let mut v = vec![Ev::MapStart { anchor, tag, implicit: flags & 1 != 0, style }];
                    v.extend((0..2 * value).map(|_| sc("i", 1)));
                    v.push(Ev::MapEnd);
                    v
                }
            };
            wrap(ctx, v)
        }
        "ky" => {
            let &[_, ctx, node, parts, n] = case else { return None };
            // n bytes, shared out among the parts that are there.
            let count = (parts & 7).count_ones() as usize;
            if count == 0 {
                return None;
            }
            let mut left = n as usize;
            let mut k = count;
            let mut part = |there: bool, c: &str| {
                there.then(|| {
                    let x = left / k;
                    left -= x;
                    k -= 1;
                    let mut s = c.repeat(x / c.len());
                    while s.len() < x {
                        s.push('z');
                    }
                    s.into_bytes()
                })
            };
            let anchor = part(parts & 1 != 0, if parts & 8 != 0 { "\u{e9}" } else { "x" });
            let tag = part(parts & 2 != 0, "!").map(|mut t| {
                let k = 1.min(t.len());
                t[k..].fill(if parts & 8 != 0 { b'%' } else { b't' });
                t
            });
            let value = part(parts & 4 != 0, if parts & 8 != 0 { "\u{e9}" } else { "v" });
            let implicit = tag.is_none();
            let v = match node {
                0 => vec![Ev::Alias(anchor?)],
                1..=5 => {
                    let value = value.unwrap_or_default();
                    vec![Ev::Scalar { anchor, tag, value, plain: implicit, quoted: implicit, style: node }]
                }
                6 | 7 => vec![Ev::SeqStart { anchor, tag, implicit, style: node - 5 }, Ev::SeqEnd],
                8 | 9 => vec![Ev::MapStart { anchor, tag, implicit, style: node - 7 }, Ev::MapEnd],
                // Not empty: never a simple key.
                _ => vec![Ev::SeqStart { anchor, tag, implicit, style: 2 }, sc("i", 1), Ev::SeqEnd],
            };
            wrap(ctx, v)
        }
        "any" => case[1..].iter().map(|a| any_atom(*a)).collect(),
        "dt" => {
            // Every sequence of %TAG directives, and a tag for each prefix.
            let handle = ["!", "!!", "!a!", "!ab!", "!b!", "!A!"];
            let prefix = ["x", "xy", "!x"];
            let tags: Vec<(S, S)> = case[1..].iter().map(|a| Some((handle.get(*a as usize / 3)?.as_bytes().to_vec(), prefix[*a as usize % 3].as_bytes().to_vec()))).collect::<Option<_>>()?;
            let mut v = vec![Ev::StreamStart(1), Ev::DocStart { version: None, tags, implicit: false }, seq(1)];
            for tag in ["xyz", "xz", "!xyz", "!z", "tag:yaml.org,2002:z", "x"] {
                v.push(Ev::Scalar { anchor: None, tag: so(tag), value: b"v".to_vec(), plain: false, quoted: false, style: 1 });
            }
            v.extend([Ev::SeqEnd, de(), ds(), Ev::Scalar { anchor: None, tag: so("xyz"), value: b"v".to_vec(), plain: false, quoted: false, style: 1 }, de(), Ev::StreamEnd]);
            v
        }
        "rp" => return rp_decode(cfg, case),
        "gr" => {
            let &[_, enc, canonical, indent, width, unicode, brk, start, text] = case else { return None };
            let cfg = Cfg {
                encoding: *[None, Some(1), Some(2), Some(3)].get(enc as usize)?,
                canonical: *[None, Some(true)].get(canonical as usize)?,
                indent: *GRID_INDENT.get(indent as usize)?,
                width: *GRID_WIDTH.get(width as usize)?,
                unicode: *[None, Some(true)].get(unicode as usize)?,
                brk: *[None, Some(1), Some(3)].get(brk as usize)?,
            };
            let text = grid_texts().into_iter().nth(text as usize)?;
            let r = crate::c::parse_all(&mut Feed::new(text.as_bytes(), Cut::Whole), 0, |_| ());
            let mut evs: Vec<Ev> = r.items.into_iter().map(|e| e.v).collect();
            if r.end != End::Done || start > 3 {
                return None;
            }
            evs[0] = Ev::StreamStart(start);
            return Some((cfg, evs));
        }
        _ => return None,
    };
    Some((cfg, evs))
}

const GRID_INDENT: &[Option<i32>] = &[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(8), Some(9), Some(10)];
const GRID_WIDTH: &[Option<i32>] = &[None, Some(-1), Some(0), Some(3), Some(4), Some(6), Some(7), Some(8), Some(10), Some(11), Some(14), Some(17), Some(18), Some(19), Some(20), Some(30), Some(40), Some(1000)];
/// Streams for every combination of settings.
pub fn grid_texts() -> impl Iterator<Item = &'static str> {
    const MORE: &[&str] = &[
        "- a b c d e f g h i j k l m n o p q r s t u v w x y z aa bb cc dd ee ff gg hh ii jj kk ll mm nn oo pp qq\n",
        "'a b c d e f g h i j k l m n o p q r s t u v w x y z aa bb cc: dd ee ff gg hh ii jj kk ll mm nn oo pp qq'\n",
        "a: \"\\a b c d e f g h i j k l m n o p q r s t u v w x \\u00e9 z aa bb cc dd ee ff gg hh ii jj kk ll mm nn oo pp qq\"\n",
        "- >\n  a b c d e f g h i j k l m n o p q r s t u v w x y z aa bb cc dd ee ff gg hh ii jj kk ll mm nn oo pp qq\n\n   r s\n  t\n",
        "[a, b c, d e f, g, {h: i j, k l m: n o, p: q}, r, [s, t, u], v, w, x, y, z, aa, bb, cc, dd, ee, ff, gg, hh, ii, jj, kk, ll, mm]\n",
        "a:\n- b:\n  - c:\n    - d:\n      - e: f\n        g: |\n           h\n          i\n  j: k\n",
        "- - - ? - a\n      : - b\n    - c\n  - |-\n     d\n    e\n",
        "- \"\\u2028a\\x85 \\u00e9\\U0001f600 \\ufeffb\\t\"\n- '\u{e9} \u{1f600}'\n",
        "--- |\n\n a\n\n--- |+\n a\n\n...\n--- 'a\n\n  b'\n--- !<tag:yaml.org,2002:int> 1\n--- &a [*a , *a ]\n",
        "- |2\n    a\n- >2\n    a\n  b\n- |\n\ta\n- \"\"\n- ' '\n- \"\\n\"\n",
    ];
    super::spaces::SNIPPETS.iter().chain(MORE).copied()
}
/// Every combination of settings.
pub fn grid(thorough: bool) -> Scope {
    let whole: Vec<u8> = grid_texts()
        .enumerate()
        .filter(|(_, t)| crate::c::parse_all(&mut Feed::new(t.as_bytes(), Cut::Whole), 0, |_| ()).end == End::Done)
        .map(|(k, _)| k as u8)
        .collect();
    let dims = if thorough { [4, 2, GRID_INDENT.len(), GRID_WIDTH.len(), 2, 3, 4, whole.len()] } else { [4, 2, GRID_INDENT.len(), GRID_WIDTH.len(), 2, 3, 1, whole.len()] };
    let n: usize = dims.iter().product();
    let name = format!("every combination of {} indents, {} widths, canonical, unicode, breaks, encodings{} x {} streams", dims[2], dims[3], if thorough { ", encodings of the stream" } else { "" }, dims[7]);
    index("gr", name, n as u64, move |i| {
        let mut i = i as usize;
        let mut c = vec![0];
        for d in dims {
            c.push((i % d) as u8);
            i /= d;
        }
        c[8] = whole[c[8] as usize];
        c
    })
}

/// Values of which every part is prolonged.
const VALUES: &[&str] = &[
    "a", "a b", "a\nb", " a", "a ", "\na", "a\n", "a: b", "a #b", "- a", "'a", "\"a", "\\a", "\u{e9}b", "\u{1f600} a", "\u{85}a", "a\u{2028}b", "\ta", "a\tb", "\u{7}a", "#a", "a  b\n  c\n\nd", "[a, b]", "{a", "--- a", "%a", "?a", ":", "a\n\n b\n",
];
const NAMES: &[&str] = &["a b", "a,b", "a\u{e9}b", "a!b", "a%b", "a\nb", "a[b", "a-b", "a_b", "a:b", "a\0b", "ab", "a~b", "a^b", "a\u{1f600}b"];
/// Prolonged or nested things: template, three parameters, indentation, size
/// and width.
fn rp_decode(mut cfg: Cfg, case: &[u8]) -> Option<(Cfg, Vec<Ev>)> {
    let &[_, template, a, b, c, indent, n0, n1, n2, n3, w0, w1, w2, w3] = case else { return None };
    let n = u32::from_le_bytes([n0, n1, n2, n3]) as usize;
    let w = i32::from_le_bytes([w0, w1, w2, w3]);
    if indent != 0 {
        cfg.indent = Some(indent as i32);
    }
    if w != 0 {
        cfg.width = Some(w);
    }
    if n > 100_000 {
        return None;
    }
    let evs = match template {
        0 => {
            // n collections of kind a, and inside them something.
            let mut v = vec![Ev::StreamStart(1), ds()];
            let kind = |k: usize| match a {
                0..=3 => a,
                4 => (k % 2) as u8,
                5 => 2 + (k % 2) as u8,
                6 => (k >= n / 2) as u8 * 2,
                _ => (k >= n - 1) as u8 * 2 + 1,
            };
            for k in 0..n {
                match kind(k) {
                    0 => v.push(seq(1)),
                    1 => v.extend([map(1), sc("k", 1)]),
                    2 => v.push(seq(2)),
                    _ => v.extend([map(2), sc("k", 1)]),
                }
            }
            match st_atom(b)? {
                Ev::SeqStart { .. } | Ev::MapStart { .. } => return None,
                e => v.push(e),
            }
            for k in (0..n).rev() {
                match kind(k) {
                    0 | 2 => {
                        if c == 1 {
                            v.push(sc("z", 1));
                        }
                        v.push(Ev::SeqEnd);
                    }
                    _ => {
                        if c == 1 {
                            v.extend([sc("l", 1), sc("z", 3)]);
                        }
                        v.push(Ev::MapEnd);
                    }
                }
            }
            v.extend([de(), Ev::StreamEnd]);
            v
        }
        1 => wrap(c, vec![scalar(&pattern(b, n), a, 3)]),
        4 => numbered(a, [0, 1, n / 2, n.saturating_sub(1)][(b % 4) as usize], c, n)?,
        2 => {
            // The part of a value at c, of one or two characters, n times.
            let chars: Vec<char> = VALUES.get(b as usize)?.chars().collect();
            let (p, len) = ((c & 0x7f) as usize, 1 + (c >> 7) as usize);
            if p + len > chars.len() {
                return None;
            }
            let s = |c: &[char]| c.iter().collect::<String>();
            let value = s(&chars[..p]) + &s(&chars[p..p + len]).repeat(n) + &s(&chars[p + len..]);
            wrap(a >> 4, vec![scalar(value.as_bytes(), a & 15, 3)])
        }
        _ => {
            // A name in which a character comes after n others.
            let name = NAMES.get(b as usize)?.replacen('a', &"a".repeat(n), 1);
            let name = if c == 1 { NAMES[b as usize].replacen('b', &"b".repeat(n), 1) } else { name };
            let tagged = |t: String| Ev::Scalar { anchor: None, tag: Some(t.into_bytes()), value: b"v".to_vec(), plain: false, quoted: false, style: 1 };
            let mut v = wrap(1, vec![tagged("!t".into())]);
            match a {
                0 => v[3] = Ev::Alias(name.into_bytes()),
                1 => v[3] = Ev::Scalar { anchor: Some(name.into_bytes()), tag: None, value: b"v".to_vec(), plain: true, quoted: true, style: 1 },
                2 => v[3] = tagged(format!("!{name}")),
                3 => v[3] = tagged(name),
                4 => v[2] = Ev::SeqStart { anchor: Some(name.into_bytes()), tag: None, implicit: true, style: 1 },
                5 | 6 => {
                    let (handle, prefix) = if a == 5 { (format!("!{name}!"), "p".to_string()) } else { ("!h!".to_string(), name) };
                    v[3] = tagged(format!("{prefix}x"));
                    v[1] = Ev::DocStart { version: None, tags: vec![(handle.into_bytes(), prefix.into_bytes())], implicit: false };
                }
                _ => return None,
            }
            v
        }
    };
    Some((cfg, evs))
}
const MANY_KINDS: u8 = 9;
const MANY_ENDS: u8 = 8;
/// n numbered things of one kind, and at the end something that depends on
/// the one numbered j.
fn numbered(kind: u8, j: usize, end: u8, n: usize) -> Option<Vec<Ev>> {
    let b = |s: String| s.into_bytes();
    let tagged = |t: String| Ev::Scalar { anchor: None, tag: Some(b(t)), value: b"v".to_vec(), plain: false, quoted: false, style: 1 };
    let anchored = |a: String| Ev::Scalar { anchor: Some(b(a)), tag: None, value: b"v".to_vec(), plain: true, quoted: true, style: 1 };
    let directive = |k: usize| (b(format!("!a{k}!")), b(format!("x{k}:")));
    let mut v = vec![Ev::StreamStart(1)];
    // What stands at the end, in a collection, and the directives for it.
    let items = |v: &mut Vec<Ev>| match end {
        0 => v.push(tagged(format!("x{j}:c"))),
        1 => v.extend([Ev::Alias(b(format!("a{j}"))), anchored(format!("a{j}"))]),
        2 => v.extend([tagged("!c".into()), tagged("tag:yaml.org,2002:c".into())]),
        3 => v.extend([tagged("y:c".into()), tagged("x:c".into())]),
        4 => v.push(sc("l\n\nm ", 4)),
        5 => v.push(sc("some words, more words, other words, and so on: more than one line can hold", 3)),
        6 => v.extend([map(1), seq(1), sc("a", 1), Ev::SeqEnd, sc(" b", 1), Ev::MapEnd, seq(1), Ev::SeqEnd]),
        _ => v.push(sc("e\n\n", 4)),
    };
    let last = match end {
        1 => Some((b(format!("!a{j}!")), b("y:".into()))),
        2 => Some((b("!".into()), b("y:".into()))),
        3 => Some((b("!!".into()), b("y:".into()))),
        4 => Some((b("!b!".into()), b(format!("x{j}:")))),
        _ => None,
    };
    match kind {
        0 => {
            v.push(Ev::DocStart { version: None, tags: (0..n).map(directive).chain(last).collect(), implicit: false });
            v.push(seq(1));
            items(&mut v);
            v.extend([Ev::SeqEnd, de(), ds(), seq(1)]);
            items(&mut v);
            v.extend([Ev::SeqEnd, de()]);
        }
        1 | 2 => {
            for k in 0..n {
                v.extend([Ev::DocStart { version: (kind == 2).then_some((1, 1)), tags: if kind == 1 { vec![directive(k)] } else { vec![] }, implicit: false }]);
                v.extend([tagged(format!("x{k}:b")), Ev::DocEnd { implicit: k % 2 == 0 }]);
            }
            v.push(Ev::DocStart { version: None, tags: last.into_iter().collect(), implicit: end % 2 == 0 && !matches!(end, 2 | 4) });
            v.push(seq(1));
            items(&mut v);
            v.extend([Ev::SeqEnd, de()]);
        }
        3 | 4 => {
            v.extend([ds(), seq(1), seq(kind - 2)]);
            for k in 0..n {
                v.push(anchored(format!("a{k}")));
                if k % 3 == 0 {
                    v.push(Ev::Alias(b(format!("a{k}"))));
                }
            }
            v.push(Ev::SeqEnd);
            items(&mut v);
            v.extend([Ev::SeqEnd, de()]);
        }
        5 | 6 => {
            v.extend([ds(), seq(1), map(kind - 4)]);
            for k in 0..n {
                v.extend([sc(&format!("k{k}"), 1), if k % 2 == 0 { sc("", 1) } else { sc("w w", 1) }]);
            }
            v.push(Ev::MapEnd);
            items(&mut v);
            v.extend([Ev::SeqEnd, de()]);
        }
        7 => {
            for k in 0..n {
                v.extend([Ev::DocStart { version: None, tags: vec![], implicit: k % 4 != 1 }, if k % 3 == 0 { sc("e\n\n", 4) } else { sc("a", 1) }, Ev::DocEnd { implicit: k % 5 != 1 }]);
            }
            v.extend([Ev::DocStart { version: None, tags: last.into_iter().collect(), implicit: true }, seq(1)]);
            items(&mut v);
            v.extend([Ev::SeqEnd, de()]);
        }
        8 => {
            v.extend([ds(), seq(1)]);
            for k in 0..n {
                v.extend(if k % 2 == 0 { [seq(1), Ev::SeqEnd] } else { [map(2), Ev::MapEnd] });
            }
            items(&mut v);
            v.extend([Ev::SeqEnd, de()]);
        }
        _ => return None,
    }
    v.push(Ev::StreamEnd);
    Some(v)
}
pub fn repeated(thorough: bool) -> Vec<Scope> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut push = |cfg: u8, head: [u8; 4], indent: u8, n: usize, w: i32| {
        let mut c = vec![cfg, head[0], head[1], head[2], head[3], indent];
        c.extend_from_slice(&(n as u32).to_le_bytes());
        c.extend_from_slice(&w.to_le_bytes());
        v.push(c);
    };
    let depths: &[usize] = if thorough { &[1, 2, 3, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000] } else { &[2, 9, 10, 16, 63, 64, 65, 127, 128, 129, 255, 256, 257] };
    for a in 0..8 {
        for b in [0u8, 1, 2, 8, 9, 11, 14, 15] {
            for d in depths {
                for c in 0..2 {
                    for (cfg, indent) in [(0, 0), (0, 4), (2, 9), (1, 0)] {
                        push(cfg, [0, a, b, c], indent, *d, 0);
                    }
                }
            }
        }
        for (d, indent) in [(600, 2), (1200, 9), (2100, 2), (3700, 9)] {
            push(0, [0, a, 0, 1], indent, d, 0);
        }
    }
    for w in [126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8191, 16384, 32766, 32767, 32768, 65535, 65536, 100_000, i32::MAX, i32::MIN, -2] {
        for style in 0..6u8 {
            for p in 0..PATTERNS {
                for ctx in [0u8, 3, 6] {
                    for n in [90, 1100, 2 * w.unsigned_abs().min(if thorough { 40_000 } else { 9000 }) as usize] {
                        push(2, [1, style, p, ctx], 0, n, w);
                    }
                }
            }
        }
    }
    for (b, value) in VALUES.iter().enumerate() {
        let k = value.chars().count();
        for p in 0..k {
            for len in 0..2 {
                if p + len >= k {
                    continue;
                }
                for style in 0..6u8 {
                    for ctx in [0u8, 2, 3, 6] {
                        for n in [9, 64, 79, 80, 81, 126, 127, 128, 129, 255, 256, 257, 1000, 1024] {
                            push(0, [2, ctx << 4 | style, b as u8, p as u8 | (len as u8) << 7], 0, n, 0);
                            push(12, [2, ctx << 4 | style, b as u8, p as u8 | (len as u8) << 7], 0, n, 0);
                        }
                        push(0, [2, ctx << 4 | style, b as u8, p as u8 | (len as u8) << 7], 0, 16_400, 0);
                        push(5, [2, ctx << 4 | style, b as u8, p as u8 | (len as u8) << 7], 0, 33_000, 0);
                    }
                }
            }
        }
    }
    for a in 0..7 {
        for b in 0..NAMES.len() as u8 {
            for c in 0..2 {
                for n in [2, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 16_384, 65_536] {
                    push(0, [3, a, b, c], 0, n, 0);
                    push(1, [3, a, b, c], 0, n, 0);
                }
            }
        }
    }
    for kind in 0..MANY_KINDS {
        for end in 0..MANY_ENDS {
            for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 16_384, 32_768, 65_535, 65_536, 65_537] {
                // Directives are searched one by one.
                if n > 1025 && (kind == 0 || !thorough && (n != 65_536 || end % 4 != 0)) {
                    continue;
                }
                for j in 0..if end < 2 || kind == 0 && end == 4 { 4 } else { 1 } {
                    push(0, [4, kind, j, end], 0, n, 0);
                    if n < 70 {
                        push(1, [4, kind, j, end], 0, n, 0);
                    }
                }
            }
        }
    }
    let mut v = repeated_of(v);
    v.extend([
        t("dt", "sequences of tag directives".into(), vec![0], atoms(18), 3 + thorough as usize, None),
        t("dt", "sequences of tag directives".into(), vec![0], (0..6u8).map(|h| vec![h * 3 + h % 3]).collect(), 5, None),
    ]);
    v
}
/// Those of these sizes, without a configuration.
pub fn repeated_at(sizes: &[u32]) -> Vec<Scope> {
    let mut v: Vec<Vec<u8>> = vec![];
    for s in repeated(false).into_iter().take(5) {
        if let Gen::Index { n, f } = s.gen {
            v.extend((0..n).map(f).filter(|c| sizes.contains(&u32::from_le_bytes([c[6], c[7], c[8], c[9]]))).map(|mut c| {
                c[0] = 0;
                c[5] = 0;
                c[10..14].fill(0);
                c
            }));
        }
    }
    v.sort();
    v.dedup();
    repeated_of(v)
}
fn repeated_of(v: Vec<Vec<u8>>) -> Vec<Scope> {
    let pick = |k: std::ops::Range<u8>, name: &str| list("rp", name, v.iter().filter(|c| k.contains(&c[1])).cloned().collect());
    vec![
        pick(0..1, "scalars inside many collections"),
        pick(1..2, "widths and long values"),
        pick(2..3, "values of which a part is repeated"),
        pick(3..4, "names of which a part is repeated"),
        pick(4..5, "many numbered things, and what depends on one of them"),
    ]
}

/// A path that ends by closing a collection completes to the same stream as
/// the path without that step.
pub fn duplicate(kind: &str, case: &[u8]) -> bool {
    kind == "st" && case.len() > 1 && case.last() == Some(&7)
}

pub fn render(kind: &str, case: &[u8]) -> String {
    if kind == "text" {
        return show(case);
    }
    match decode(kind, case) {
        Some((c, e)) => {
            let mut s = format!("{}:", cfg_name(&c));
            for x in &e {
                s.push_str(&format!(" {x:?}"));
            }
            s
        }
        None => format!("{case:?}"),
    }
}
pub fn cfg_name(c: &Cfg) -> String {
    let mut s = String::from("config(");
    if let Some(x) = c.encoding {
        s += &format!("encoding={x} ");
    }
    if let Some(x) = c.canonical {
        s += &format!("canonical={x} ");
    }
    if let Some(x) = c.indent {
        s += &format!("indent={x} ");
    }
    if let Some(x) = c.width {
        s += &format!("width={x} ");
    }
    if let Some(x) = c.unicode {
        s += &format!("unicode={x} ");
    }
    if let Some(x) = c.brk {
        s += ["", "break=cr", "break=ln", "break=crlf"][x as usize];
    }
    format!("{})", s.trim_end())
}

/// Strings the reference model cannot hold (C strings end at NUL).
pub fn has_nul(evs: &[Ev]) -> bool {
    let o = |s: &Option<S>| s.as_ref().is_some_and(|s| s.contains(&0));
    evs.iter().any(|e| match e {
        Ev::Alias(a) => a.contains(&0),
        Ev::Scalar { anchor, tag, .. } => o(anchor) || o(tag),
        Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => o(anchor) || o(tag),
        Ev::DocStart { tags, .. } => tags.iter().any(|(a, b)| a.contains(&0) || b.contains(&0)),
        _ => false,
    })
}

pub fn grammar(evs: &[Ev]) -> Option<usize> {
    let mut g = Grammar::default();
    evs.iter().position(|e| g.step(e).is_err())
}

// --------------------------------------------------------------------- scopes

fn atoms(n: usize) -> Vec<Vec<u8>> {
    (0..n as u8).map(|x| vec![x]).collect()
}
fn chars(s: &[&str]) -> Vec<Vec<u8>> {
    s.iter().map(|x| x.as_bytes().to_vec()).collect()
}
fn t(kind: &'static str, name: String, prefix: Vec<u8>, atoms: Vec<Vec<u8>>, depth: usize, filter: Option<Filter>) -> Scope {
    Scope {
        kind,
        name: format!("{name} (all sequences of at most {depth} of {} atoms)", atoms.len()),
        gen: Gen::Tree { prefix, atoms, suffixes: vec![vec![]], depth, filter },
    }
}

pub fn structure(thorough: bool, cfgs: &[u8], extra: usize) -> Vec<Scope> {
    let up = thorough as usize;
    let mut v = vec![];
    for (i, c) in cfgs.iter().enumerate() {
        let n = cfg_name(&CFGS[*c as usize]);
        let deep = if i == 0 { 1 } else { 0 };
        v.push(t("st", format!("structure, {n}"), vec![*c], atoms(ST_SMALL), 5 + up + deep + extra, Some(st_ok)));
        v.push(t("st", format!("structure and styles, {n}"), vec![*c], atoms(ST_ALL), 4 + up + extra, Some(st_ok)));
    }
    v
}
pub fn documents(thorough: bool, cfgs: &[u8]) -> Vec<Scope> {
    let mut v = vec![];
    for (i, c) in cfgs.iter().enumerate() {
        let depth = if thorough && i == 0 { 3 } else { 2 };
        v.push(t("dc", format!("documents, {}", cfg_name(&CFGS[*c as usize])), vec![*c], atoms(DC), depth, None));
    }
    v
}
pub const WIDE: &[&str] = &[
    "a", " ", "\n", "\t", "#", ":", "-", "'", "\"", ",", "[", "]", "{", "}", "?", "!", "%", "\\", "\u{e9}", "\u{feff}", "\r",
    "\u{85}", "\u{2028}", ".", "&", "*", "|", ">", "@", "`", "=", "~", "<", "\u{7f}", "\u{7}", "\u{1f600}", "\u{7eff}", "\0", "0",
];
pub fn scalars(thorough: bool, cfgs: &[u8], scale: usize) -> Vec<Scope> {
    let up = thorough as usize;
    let mut v = vec![];
    for (i, c) in cfgs.iter().enumerate() {
        for style in 0..6u8 {
            for ctx in 0..CTX {
                for flags in [3u8, 0, 1, 2] {
                    if flags != 3 && (ctx > 3 || i > 0) {
                        continue;
                    }
                    let n = format!("style {style} context {ctx} flags {flags}, {}", cfg_name(&CFGS[*c as usize]));
                    let p = vec![*c, style, ctx, flags];
                    if flags == 3 {
                        let d = if i == 0 { 2 } else { 1 } + up + scale.min(1);
                        v.push(t("sc", format!("scalars, {n}"), p.clone(), chars(WIDE), d, None));
                        let d = if i < 2 { 4 } else { 3 } + up + scale;
                        v.push(t("sc", format!("breaks and blanks, {n}"), p.clone(), chars(&["a", " ", "\n", "\t", "#", ": ", "- "]), d, None));
                    } else {
                        v.push(t("sc", format!("scalars, {n}"), p, chars(&["a", " ", "\n", ":", "\u{e9}"]), 2 + up, None));
                    }
                }
            }
        }
    }
    v
}
/// Every combination of the attributes of a node, in every context.
pub fn attributes(cfgs: &'static [u8]) -> Vec<Scope> {
    let d = |mut i: u64, dims: &[u64]| -> Vec<u8> {
        dims.iter()
            .map(|n| {
                let x = i % n;
                i /= n;
                x as u8
            })
            .collect()
    };
    let nc = cfgs.len() as u64;
    let sd = [nc, CTX as u64, 6, 4, 8, 4, 8];
    let cd = [nc, 2, CTX as u64, 3, 2, 8, 4, 3];
    vec![
        index("fl", "scalars: configuration x context x style x implicit flags x tag x anchor x value".into(), sd.iter().product(), move |i| {
            let x = d(i, &sd);
            vec![cfgs[x[0] as usize], 0, x[1], x[2], x[3], x[4], x[5], x[6]]
        }),
        index("fl", "collections: configuration x kind x context x style x implicit flag x tag x anchor x size".into(), cd.iter().product(), move |i| {
            let x = d(i, &cd);
            vec![cfgs[x[0] as usize], 1 + x[1], x[2], x[3], x[4], x[5], x[6], x[7]]
        }),
    ]
}
/// Scalars by lines, and with every kind of break.
pub fn lines(thorough: bool, cfgs: &[u8]) -> Vec<Scope> {
    let up = thorough as usize;
    let mut v = vec![];
    for c in cfgs {
        for style in 1..6u8 {
            for ctx in [0u8, 2, 3, 4, 7] {
                let n = format!("style {style} context {ctx}, {}", cfg_name(&CFGS[*c as usize]));
                let p = vec![*c, style, ctx, 3];
                let d = if matches!(ctx, 0 | 3) { 4 } else { 3 } + up;
                v.push(t("sc", format!("lines, {n}"), p.clone(), chars(&["a\n", " b\n", "\n", "\tc\n", "d e", "  \n", " ", "\u{2028}f", "#g\n", "- h: i\n"]), d, None));
                v.push(t("sc", format!("breaks of every kind, {n}"), p, chars(&["a", " ", "\n", "\u{85}", "\u{2028}", "\r"]), d + 1, None));
            }
        }
    }
    v
}
/// Keys whose properties and value together are about as long as a simple
/// key may be.
pub fn keys(thorough: bool, cfgs: &'static [u8]) -> Vec<Scope> {
    let ns: Vec<u8> = if thorough { (1..=255).collect() } else { (1..5).chain(60..70).chain(118..136).chain(250..=255).collect() };
    let ctxs = [2u8, 5, 10, 3];
    let dims = [ns.len() as u64, 16, 11, 4, cfgs.len() as u64];
    vec![index("ky", "keys: configuration x context x node x parts x length".into(), dims.iter().product(), move |mut i| {
        let mut x = dims.iter().map(|n| {
            let r = i % n;
            i /= n;
            r as usize
        });
        let (n, parts, node, ctx, c) = (x.next().unwrap(), x.next().unwrap(), x.next().unwrap(), x.next().unwrap(), x.next().unwrap());
        vec![cfgs[c], ctxs[ctx], node as u8, parts as u8, ns[n]]
    })]
}
pub fn folding(thorough: bool, scale: usize) -> Vec<Scope> {
    // Narrow output: every fold decision in short texts.
    let d = 5 + thorough as usize + scale;
    let mut v = vec![];
    for c in [12u8, 6] {
        for style in 1..6u8 {
            for ctx in [0u8, 3, 4, 7] {
                let n = format!("folding, style {style} context {ctx}, {}", cfg_name(&CFGS[c as usize]));
                v.push(t("sc", n, vec![c, style, ctx, 3], chars(&["aaa", "b", " ", "\n", "\u{e9}", "'"]), d, None));
            }
        }
    }
    v
}
pub fn tags(thorough: bool) -> Vec<Scope> {
    let d = 2 + thorough as usize;
    let al = ["!", "a", ":", "%", ",", "\u{e9}", "tag:yaml.org,2002:", "-", "~", "#", " ", "[", "<", ">", "/", "\u{1f600}", "\\", "0", "?", "!a", "^", "\u{7f}", "."];
    let mut v = vec![];
    for dirs in 0..TG_DIRS {
        for node in 0..TG_NODES {
            for flags in 0..4u8 {
                if flags > 1 && node != 0 && node != 1 && node != 5 {
                    continue;
                }
                for cfg in [0u8, 1] {
                    let n = format!("tags, directives {dirs} node {node} flags {flags}, {}", cfg_name(&CFGS[cfg as usize]));
                    v.push(t("tg", n, vec![cfg, dirs, node, flags], chars(&al), if flags == 0 && cfg == 0 { d + 1 } else { d }, None));
                }
            }
        }
    }
    let h = ["!", "a", "Z", "-", "_", "\u{e9}", " ", "\u{1}", ":", "%", "0", "\u{20ac}", ","];
    v.push(t("di", "tag directives".into(), vec![0], chars(&h), 4 + thorough as usize, None));
    v
}
pub fn anchors(thorough: bool) -> Vec<Scope> {
    let al = ["a", "Z", "0", "9", "-", "_", "\u{e9}", " ", "*", ":", ".", "\u{ff11}", "\n", "[", "@", "`", "{", "/"];
    let mut v = vec![];
    for node in 0..6u8 {
        v.push(t("an", format!("anchors, node {node}"), vec![0, node], chars(&al), 3 + thorough as usize, None));
    }
    v
}
pub fn long(thorough: bool) -> Vec<Scope> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut push = |cfg: u8, style: u8, ctx: u8, p: u8, n: u32| {
        let mut c = vec![cfg, style, ctx, p];
        c.extend_from_slice(&n.to_le_bytes());
        v.push(c);
    };
    for style in 0..6u8 {
        for p in 0..PATTERNS {
            for ctx in [0u8, 1, 2, 3, 4, 5, 7] {
                for n in (70..100).step_by(if thorough { 1 } else { 3 }) {
                    push(0, style, ctx, p, n);
                }
            }
            for n in [1u32, 2, 5, 150, 200, 300, 500] {
                for cfg in [0u8, 1, 2, 3, 4, 5, 6, 8, 13, 14, 15, 17] {
                    for ctx in [0u8, 3, 6, 8] {
                        push(cfg, style, ctx, p, n);
                    }
                }
            }
            // Simple keys are at most 128 long, counting properties.
            for n in 110..135 {
                push(0, style, 2, p, n);
                push(2, style, 5, p, n);
                push(2, style, 0x82, p, n);
                push(1, style, 0x85, p, n);
            }
            for n in if thorough { (16000..16500).step_by(7) } else { (16370..16400).step_by(6) } {
                push(2, style, 1, p, n);
                push(8, style, 3, p, n);
            }
        }
    }
    let a = list("lg", "long scalars around the width, simple-key and buffer limits", v);
    let mut w: Vec<Vec<u8>> = vec![];
    for cfg in [0u8, 2, 8, 16] {
        for style in 1..6u8 {
            for x in 0..5u8 {
                for n in 16300..16392u32 {
                    if !thorough && n < 16340 && n % 4 != 0 {
                        continue;
                    }
                    let mut c = vec![cfg, style, x];
                    c.extend_from_slice(&n.to_le_bytes());
                    w.push(c);
                }
            }
        }
    }
    vec![a, list("bf", "every piece of output at every position around the end of the buffer", w)]
}
pub fn codepoints(thorough: bool) -> Vec<Scope> {
    let mut v = vec![];
    let max: u32 = if thorough { 0x110000 } else { 0x500 };
    for cfg in [0u8, 2] {
        for style in 0..6u8 {
            for pos in 0..3u8 {
                v.push(index("cp", format!("code points below {max:#x} alone, style {style} position {pos} unicode {}", cfg == 2), max as u64, move |i| {
                    let mut c = vec![cfg, style, pos, 1];
                    c.extend_from_slice(&(i as u32).to_le_bytes());
                    c
                }));
            }
            // The ranges where the treatment of a code point may change.
            let edge: Vec<u32> = [0x2000u32, 0x2028, 0x3000, 0x7eff, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0x10000, 0x1fffe, 0x10ffff]
                .iter()
                .flat_map(|c| c.saturating_sub(6)..c + 6)
                .filter(|c| char::from_u32(*c).is_some())
                .collect();
            let e: Vec<Vec<u8>> = (0..3u8)
                .flat_map(|pos| {
                    edge.clone().into_iter().map(move |x| {
                        let mut c = vec![cfg, style, pos, 1];
                        c.extend_from_slice(&x.to_le_bytes());
                        c
                    })
                })
                .collect();
            v.push(list("cp", "code points around the boundaries of the classes", e));
        }
        for pos in 3..6u8 {
            let top: u64 = if thorough { 0x110000 } else { 0x300 };
            v.push(index("cp", format!("code points below {top:#x} in tags, aliases and tag prefixes (position {pos})"), top - 1, move |i| {
                let mut c = vec![cfg, 1, pos, 1];
                c.extend_from_slice(&(i as u32 + 1).to_le_bytes());
                c
            }));
        }
        // All code points, 32 to a scalar.
        v.push(index("cp", format!("all code points, 32 per double-quoted scalar, unicode {}", cfg == 2), 0x110000 / 32, move |i| {
            let mut c = vec![cfg, 3, 0, 32];
            c.extend_from_slice(&(i as u32 * 32).to_le_bytes());
            c
        }));
        v.push(index("cp", format!("all code points, 16 per plain scalar, unicode {}", cfg == 2), 0x110000 / 16, move |i| {
            let mut c = vec![cfg, 1, 2, 16];
            c.extend_from_slice(&(i as u32 * 16).to_le_bytes());
            c
        }));
    }
    v
}
pub fn any(thorough: bool) -> Vec<Scope> {
    vec![
        t("any", "all event sequences, valid or not, from the start".into(), vec![0], atoms(ANY), 6 + thorough as usize, None),
        t("any", "all event sequences inside a document".into(), vec![0, 0, 2], atoms(ANY), 6 + thorough as usize, None),
        t("any", "all event sequences inside a flow mapping".into(), vec![0, 0, 2, 7], atoms(ANY), 6 + thorough as usize, None),
        t("any", "all event sequences inside a block sequence, canonical".into(), vec![1, 0, 2, 5], atoms(ANY), 6, None),
    ]
}
