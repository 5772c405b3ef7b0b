//! C25 calls that open, dump, emit, flush and close, in any order.
use super::events::{self, map, sc, seq, CFGS};
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::{c, rs};
use libyaml_safer as l;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Calls)]
}

pub struct Shared(pub Rc<RefCell<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Op {
    Open,
    Close,
    Flush,
    Dump(Doc),
    Emit(Vec<Ev>),
    Set(Cfg),
}
fn node(tag: Option<&str>, v: Nd) -> Node {
    Node { tag: tag.map(|t| t.as_bytes().to_vec()), v, s: Mk::default(), e: Mk::default() }
}
fn scalar(v: &str, style: u8) -> Node {
    node(None, Nd::Scalar(v.into(), style))
}
fn doc(nodes: Vec<Node>, implicit: bool) -> Doc {
    Doc { nodes, start_implicit: implicit, end_implicit: implicit, ..Doc::default() }
}
const NAMES: &[&str] = &[
    "open", "close", "flush", "dump(a)", "dump(shared)", "dump(two shared)", "dump(cycle)", "dump(%TAG)", "dump(open-ended)", "dump(invalid directive)", "dump(invalid tag)", "dump(empty)",
    "emit(stream start)", "emit(document)", "emit(document start)", "emit(sequence start)", "emit(scalar)", "emit(document end)", "emit(stream end)",
    "emit(long document)", "canonical", "not canonical", "unicode", "width 10", "unlimited width", "indent 5", "CR LF", "indent 0", "width 3",
];
/// The calls of the first spaces; the others are for those with settings.
const PLAIN: usize = 19;
thread_local! {
    static OPS: Vec<Op> = ops();
}
fn ops() -> Vec<Op> {
    let t = |a: &str, b: &str| (a.as_bytes().to_vec(), b.as_bytes().to_vec());
    let mut shared = doc(vec![node(None, Nd::Seq(vec![2, 2, 2], 0)), scalar("x", 0)], false);
    shared.end_implicit = true;
    let two = doc(vec![node(None, Nd::Map(vec![(2, 3), (3, 2)], 0)), scalar("x", 0), node(None, Nd::Seq(vec![2, 3], 2))], true);
    let cycle = doc(vec![node(None, Nd::Seq(vec![1, 1], 1))], true);
    let mut tagged = doc(vec![node(Some("tag:e,1:x"), Nd::Scalar("b".into(), 0))], false);
    tagged.version = Some((1, 1));
    tagged.tags = vec![t("!e!", "tag:e,1:")];
    let open_ended = doc(vec![scalar("c\n\n", 4)], true);
    let mut bad = doc(vec![scalar("d", 0)], false);
    bad.tags = vec![t("e", "f")];
    let late = doc(vec![node(None, Nd::Seq(vec![2, 3], 0)), scalar("g", 0), node(Some(""), Nd::Scalar("h".into(), 0))], true);
    vec![
        Op::Open,
        Op::Close,
        Op::Flush,
        Op::Dump(doc(vec![scalar("a", 0)], true)),
        Op::Dump(shared),
        Op::Dump(two),
        Op::Dump(cycle),
        Op::Dump(tagged),
        Op::Dump(open_ended),
        Op::Dump(bad),
        Op::Dump(late),
        Op::Dump(doc(vec![], true)),
        Op::Emit(vec![Ev::StreamStart(0)]),
        Op::Emit(vec![events::ds(), sc("e", 0), Ev::DocEnd { implicit: false }]),
        Op::Emit(vec![events::ds()]),
        Op::Emit(vec![seq(0)]),
        Op::Emit(vec![sc("s", 0)]),
        Op::Emit(vec![events::de()]),
        Op::Emit(vec![Ev::StreamEnd]),
        Op::Emit(vec![
            events::ds(),
            seq(0),
            sc("caf\u{e9} or two words", 1),
            map(0),
            sc("k", 0),
            sc("l\nm \n n o", 4),
            Ev::MapEnd,
            map(2),
            sc("a long key", 1),
            sc("\u{20ac} a longer value", 3),
            Ev::MapEnd,
            Ev::SeqEnd,
            events::de(),
        ]),
        Op::Set(Cfg { canonical: Some(true), ..Cfg::default() }),
        Op::Set(Cfg { canonical: Some(false), ..Cfg::default() }),
        Op::Set(Cfg { unicode: Some(true), ..Cfg::default() }),
        Op::Set(Cfg { width: Some(10), ..Cfg::default() }),
        Op::Set(Cfg { width: Some(-7), ..Cfg::default() }),
        Op::Set(Cfg { indent: Some(5), ..Cfg::default() }),
        Op::Set(Cfg { brk: Some(3), ..Cfg::default() }),
        Op::Set(Cfg { indent: Some(0), ..Cfg::default() }),
        Op::Set(Cfg { width: Some(3), ..Cfg::default() }),
    ]
}

/// Settings that change in the middle of a stream.
fn turns() -> Vec<Cfg> {
    let d = Cfg::default();
    let mut v = vec![];
    v.extend([true, false].map(|x| Cfg { canonical: Some(x), ..d.clone() }));
    v.extend([true, false].map(|x| Cfg { unicode: Some(x), ..d.clone() }));
    v.extend([-1, 3, 10, 25].map(|x| Cfg { width: Some(x), ..d.clone() }));
    v.extend([0, 3, 5, 9].map(|x| Cfg { indent: Some(x), ..d.clone() }));
    v.extend([1, 2, 3].map(|x| Cfg { brk: Some(x), ..d.clone() }));
    v
}
type Stream = Vec<Ev>;
thread_local! {
    static TURNS: (Vec<Cfg>, Vec<Stream>) = (turns(), streams());
}
/// The events of the texts that parse.
fn streams() -> Vec<Stream> {
    let parse = |t: &str| {
        let mut v = vec![];
        let r = c::parse_all(&mut Feed::new(t.as_bytes(), Cut::Whole), 0, |_| ());
        if r.end == End::Done {
            v = r.items.into_iter().map(|e| e.v).collect();
        }
        v
    };
    events::grid_texts().map(parse).filter(|v| !v.is_empty() && !events::has_nul(v)).collect()
}

struct Calls;
impl Calls {
    /// Settings that change before some of the events.
    fn turned(cfg: &Cfg, evs: &[Ev], set: &[(usize, &Cfg)], ctx: &mut Ctx) -> Result<(), String> {
        let out = Rc::new(RefCell::new(vec![]));
        let mut sink = Shared(out.clone());
        let mut m = c::Ce::new(cfg);
        let mut e = l::Emitter::new();
        e.set_output(&mut sink);
        rs::configure(&mut e, cfg);
        for (k, x) in evs.iter().enumerate() {
            for (_, s) in set.iter().filter(|(at, _)| *at == k) {
                rs::configure(&mut e, s);
                m.set(s);
            }
            let (a, b) = (e.emit(rs::to_event(x)).map_err(|e| rs::er(&e)), m.emit(x));
            ctx.trans += 1;
            match (a, b) {
                (Ok(()), Ok(())) => {}
                (Err(a), Err(b)) if a.problem == b.problem => return Ok(()),
                (a, b) => return Err(format!("event {k} {x:?} gives {a:?}, libyaml's {b:?}")),
            }
            ctx.states.insert(hash(&m.state()));
        }
        let o = out.borrow();
        if *o != m.sink.out {
            return Err(format!("the output is {}, libyaml's {}", show(&o), show(&m.sink.out)));
        }
        ctx.outcome(&o[..]);
        Ok(())
    }
    fn run(cfg: &Cfg, case: &[u8], ops: &[Op], ctx: &mut Ctx) -> Result<V, String> {
        let out = Rc::new(RefCell::new(vec![]));
        let mut sink = Shared(out.clone());
        let mut m = c::Ce::new(cfg);
        let mut e = l::Emitter::new();
        e.set_output(&mut sink);
        rs::configure(&mut e, cfg);
        // What the preconditions depend on.
        let (mut opened, mut started, mut closed, mut failed) = (false, false, false, false);
        for (k, i) in case.iter().enumerate() {
            let Some(op) = ops.get(*i as usize) else { return Ok(V::Skip) };
            let name = NAMES[*i as usize];
            match op {
                Op::Open if opened => return Ok(V::Skip),
                Op::Close if !opened => return Ok(V::Skip),
                Op::Flush if !started => return Ok(V::Skip),
                _ => {}
            }
            let before = out.borrow().len();
            let ours: Result<(), Er> = match op {
                Op::Open => e.open(),
                Op::Close => e.close(),
                Op::Flush => e.flush(),
                Op::Dump(d) => rs::build_doc(d).dump(&mut e),
                Op::Emit(v) => v.iter().try_for_each(|x| e.emit(rs::to_event(x))),
                Op::Set(c) => Ok(rs::configure(&mut e, c)),
            }
            .map_err(|x| rs::er(&x));
            ctx.trans += 1;
            if failed {
                // libyaml goes on in a state that is not defined.
                let empty = matches!(op, Op::Dump(d) if d.nodes.is_empty());
                let noop = matches!(op, Op::Flush | Op::Set(_)) || closed && (empty || matches!(op, Op::Close));
                if ours.is_ok() != noop {
                    return Err(format!("call {k} {name} after a failure: {ours:?}"));
                }
                if e.flush().is_err() || out.borrow().len() != before {
                    return Err(format!("call {k} {name} after a failure writes {}", show(&out.borrow()[before..])));
                }
                continue;
            }
            let theirs = match op {
                Op::Open => m.open(),
                Op::Close => m.close(),
                Op::Flush => m.flush(),
                Op::Dump(d) => m.dump(d),
                Op::Emit(v) => v.iter().try_for_each(|x| m.emit(x)),
                Op::Set(c) => Ok(m.set(c)),
            };
            match (&ours, &theirs) {
                (Ok(()), Ok(())) => {}
                (Err(a), Err(b)) if a.problem == b.problem && a.kind == b.kind => failed = true,
                _ => return Err(format!("call {k} {name} gives {ours:?}, libyaml's {theirs:?}")),
            }
            opened = m.opened();
            closed |= ours.is_ok() && (matches!(op, Op::Close) || matches!(op, Op::Dump(d) if d.nodes.is_empty()));
            started = m.started();
            if failed {
                if started {
                    e.flush().map_err(|e| format!("flush after a failure: {e}"))?;
                } else {
                    return Ok(V::Prune);
                }
                let o = out.borrow();
                ctx.outcome(&(&o[..], &ours));
                continue;
            }
            if matches!(op, Op::Flush) && *out.borrow() != m.sink.out {
                return Err(format!("after call {k} {name} the output is {}, libyaml's {}", show(&out.borrow()), show(&m.sink.out)));
            }
            ctx.states.insert(hash(&(m.state(), opened)));
        }
        if !failed && started {
            e.flush().map_err(|e| format!("flush: {e}"))?;
            m.flush().map_err(|e| format!("libyaml's flush: {e:?}"))?;
            let o = out.borrow();
            if *o != m.sink.out {
                return Err(format!("the output is {}, libyaml's {}", show(&o), show(&m.sink.out)));
            }
            ctx.outcome(&o[..]);
        }
        Ok(V::Ok)
    }
}
const USED: &[u8] = &[0, 1, 5, 9];
impl Prop for Calls {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "every sequence of calls is made on an emitter of the implementation and one of libyaml, and the result of every call and the output at every flush are compared; a state is a control state of the reference emitter"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["open is not called on an open emitter, close not on one that was never opened, and flush not before the stream start (these are asserted by the library and by libyaml)"]
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let atoms = |n: usize| (0..n).map(|i| vec![i as u8]).collect::<Vec<_>>();
        let mut v = vec![];
        for (i, c) in USED.iter().enumerate() {
            let depth = 4 + thorough as usize + 2 * (i == 0) as usize;
            v.push(Scope {
                kind: "calls",
                name: format!("all sequences of at most {depth} of {PLAIN} calls, {}", events::cfg_name(&CFGS[*c as usize])),
                gen: Gen::Tree { prefix: vec![*c], atoms: atoms(PLAIN), suffixes: vec![vec![]], depth, filter: None },
            });
        }
        // Settings at any point: before the stream, between and inside documents.
        let few: Vec<Vec<u8>> = [0u8, 4, 12, 14, 15, 16, 17].into_iter().chain(PLAIN as u8..NAMES.len() as u8).map(|i| vec![i]).collect();
        for c in [0u8, 8] {
            let depth = if c == 0 { 6 } else { 5 } + thorough as usize;
            v.push(Scope {
                kind: "calls",
                name: format!("all sequences of at most {depth} of {} calls, settings included, {}", few.len(), events::cfg_name(&CFGS[c as usize])),
                gen: Gen::Tree { prefix: vec![c], atoms: few.clone(), suffixes: vec![vec![]], depth, filter: None },
            });
        }
        // One setting before any event, and two before any events.
        let (sets, lens) = TURNS.with(|(c, s)| (c.len() as u64, s.iter().map(|v| v.len() as u64).collect::<Vec<_>>()));
        let all: Vec<(u8, u8)> = (0..lens.len()).flat_map(|t| (0..lens[t]).map(move |k| (t as u8, k as u8))).collect();
        let bases: &[u8] = &[0, 1, 5, 10, 13, 17];
        let b = bases.len() as u64;
        v.push(index("turn", format!("{sets} settings before every event of {} streams, {b} configurations", lens.len()), all.len() as u64 * sets * b, {
            let all = all.clone();
            move |i| {
                let (t, k) = all[(i / b / sets) as usize];
                vec![bases[(i % b) as usize], t, (i / b % sets) as u8, k]
            }
        }));
        let limit = if thorough { 24 } else { 14 };
        let pairs: Vec<(u8, u8, u8)> = all.iter().filter(|(t, _)| lens[*t as usize] <= limit).flat_map(|(t, k)| (*k..lens[*t as usize] as u8).map(|j| (*t, *k, j))).collect();
        v.push(index("turn", format!("two of {sets} settings before every two events of the streams of at most {limit} events"), pairs.len() as u64 * sets * sets, move |i| {
            let (t, k, j) = pairs[(i / sets / sets) as usize];
            vec![0, t, (i % sets) as u8, k, (i / sets % sets) as u8, j]
        }));
        // Calls that are repeated.
        let ops = NAMES.len() as u64;
        let times: &[u32] = if thorough { &[3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 129, 255, 256, 257, 600, 1030] } else { &[7, 17, 33, 65, 129, 257, 600] };
        let n = times.len() as u64;
        v.push(index("many", format!("each pair of {ops} calls {times:?} times after opening or not, and another call, in 2 configurations"), ops * ops * n * 4, move |i| {
            let mut c = times[(i / 4 % n) as usize].to_le_bytes().to_vec();
            c.extend([[0, 8][(i % 2) as usize], (i / 2 % 2) as u8, (i / 4 / n % ops) as u8, (i / 4 / n / ops) as u8]);
            c
        }));
        v.push(index("many", format!("each of {ops} calls that is not a flush 66 000 times"), ops * 2, move |i| {
            let mut c = 66_000u32.to_le_bytes().to_vec();
            c.extend([0, (i % 2) as u8, (i / 2) as u8, 0xff]);
            c
        }));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        if kind == "many" {
            let &[n0, n1, n2, n3, cfg, open, a, b] = case else { return V::Skip };
            let n = u32::from_le_bytes([n0, n1, n2, n3]) as usize;
            let Some(cfg) = CFGS.get(cfg as usize) else { return V::Skip };
            if n > 100_000 {
                return V::Skip;
            }
            return OPS.with(|ops| {
                let flush = ops.iter().position(|o| matches!(o, Op::Flush)).unwrap() as u8;
                let start = ops.iter().position(|o| matches!(o, Op::Open)).unwrap() as u8;
                if n > 10_000 && a == flush {
                    return V::Skip;
                }
                let mut calls = vec![];
                if open == 1 {
                    calls.push(start);
                }
                for _ in 0..n {
                    calls.push(a);
                    if b != 0xff {
                        calls.push(b);
                    }
                }
                // And the settings, the document and the end as usual.
                let run = |calls: &[u8], ctx: &mut Ctx| match rs::guarded(|| Self::run(cfg, calls, ops, ctx)) {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => V::Bad(e),
                    Err(p) => V::Bad(format!("panics: {p}")),
                };
                let first = run(&calls, ctx);
                if !matches!(first, V::Ok) {
                    return first;
                }
                if n < 300 {
                    for last in 0..ops.len() as u8 {
                        calls.push(last);
                        if let V::Bad(e) = run(&calls, ctx) {
                            return V::Bad(format!("then {}: {e}", NAMES[last as usize]));
                        }
                        calls.pop();
                    }
                }
                V::Ok
            });
        }
        let Some(cfg) = case.first().and_then(|c| CFGS.get(*c as usize)) else { return V::Skip };
        if kind == "turn" {
            return TURNS.with(|(sets, streams)| {
                let Some(evs) = case.get(1).and_then(|t| streams.get(*t as usize)) else { return V::Skip };
                let Some(set) = case[2..].chunks(2).map(|c| Some((*c.get(1)? as usize, sets.get(c[0] as usize)?))).collect::<Option<Vec<_>>>() else { return V::Skip };
                match rs::guarded(|| Self::turned(cfg, evs, &set, ctx)) {
                    Ok(Ok(())) => V::Ok,
                    Ok(Err(e)) => V::Bad(e),
                    Err(p) => V::Bad(format!("panics: {p}")),
                }
            });
        }
        OPS.with(|ops| match rs::guarded(|| Self::run(cfg, &case[1..], ops, ctx)) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => V::Bad(e),
            Err(p) => V::Bad(format!("panics: {p}")),
        })
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if let ("many", &[n0, n1, n2, n3, cfg, open, a, b]) = (kind, case) {
            let name = |i: u8| NAMES.get(i as usize).copied().unwrap_or("");
            let cfg = CFGS.get(cfg as usize).map(events::cfg_name).unwrap_or_default();
            return format!("{cfg}: {} times {} {}, opened before: {open}", u32::from_le_bytes([n0, n1, n2, n3]), name(a), name(b));
        }
        let cfg = case.first().and_then(|c| CFGS.get(*c as usize)).map(events::cfg_name).unwrap_or_default();
        if kind == "turn" {
            return TURNS.with(|(sets, streams)| {
                let set: Vec<String> = case[2.min(case.len())..].chunks(2).map(|c| format!("{} before event {:?}", sets.get(c[0] as usize).map(events::cfg_name).unwrap_or_default(), c.get(1))).collect();
                format!("{cfg}: {} with {:?}", set.join(", "), case.get(1).and_then(|t| streams.get(*t as usize)))
            });
        }
        format!("{cfg}: {}", case[1.min(case.len())..].iter().filter_map(|i| NAMES.get(*i as usize)).copied().collect::<Vec<_>>().join(" "))
    }
}
