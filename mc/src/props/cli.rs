//! C21 the two command-line programs, run as processes.
use super::events::CFGS;
use super::spaces::{self, ATOMS, CHARS};
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::rs;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Cli)]
}

struct Out {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static DIR: Scratch = {
        let id = format!("mc-cli-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "");
        let d = std::env::temp_dir().join(id);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    };
}
fn run(program: &str, files: &[&[u8]]) -> Out {
    let bin = crate::verif().join("target/repo/release").join(program);
    DIR.with(|d| {
        let mut c = Command::new(&bin);
        for (k, f) in files.iter().enumerate() {
            let p = d.0.join(format!("in{k}"));
            std::fs::write(&p, f).expect("write input");
            c.arg(p);
        }
        let o = c.stdin(Stdio::null()).output().expect("run the program (built by check.sh)");
        Out { code: o.status.code(), out: o.stdout, err: o.stderr }
    })
}

fn escape(s: &[u8], o: &mut Vec<u8>) {
    for b in s {
        match b {
            b'\\' => o.extend(b"\\\\"),
            0 => o.extend(b"\\0"),
            8 => o.extend(b"\\b"),
            b'\n' => o.extend(b"\\n"),
            b'\r' => o.extend(b"\\r"),
            b'\t' => o.extend(b"\\t"),
            b => o.push(*b),
        }
    }
}
fn props(anchor: &Option<S>, tag: &Option<S>, o: &mut Vec<u8>) {
    if let Some(a) = anchor {
        o.extend(b" &");
        o.extend(a);
    }
    if let Some(t) = tag {
        o.extend(b" <");
        o.extend(t);
        o.push(b'>');
    }
}
/// The event notation of the YAML test suite.
fn notation(e: &Ev, o: &mut Vec<u8>) {
    match e {
        Ev::StreamStart(_) => o.extend(b"+STR"),
        Ev::StreamEnd => o.extend(b"-STR"),
        Ev::DocStart { implicit, .. } => o.extend(if *implicit { &b"+DOC"[..] } else { b"+DOC ---" }),
        Ev::DocEnd { implicit } => o.extend(if *implicit { &b"-DOC"[..] } else { b"-DOC ..." }),
        Ev::Alias(a) => {
            o.extend(b"=ALI *");
            o.extend(a);
        }
        Ev::Scalar { anchor, tag, value, style, .. } => {
            o.extend(b"=VAL");
            props(anchor, tag, o);
            o.push(b' ');
            o.push(b"?:'\"|>"[*style as usize]);
            escape(value, o);
        }
        Ev::SeqStart { anchor, tag, .. } => {
            o.extend(b"+SEQ");
            props(anchor, tag, o);
        }
        Ev::SeqEnd => o.extend(b"-SEQ"),
        Ev::MapStart { anchor, tag, .. } => {
            o.extend(b"+MAP");
            props(anchor, tag, o);
        }
        Ev::MapEnd => o.extend(b"-MAP"),
    }
    o.push(b'\n');
}
/// The event that the notation of `e` stands for.
fn read_back(e: &Ev) -> Ev {
    match e.clone() {
        Ev::StreamStart(_) => Ev::StreamStart(1),
        Ev::DocStart { implicit, .. } => Ev::DocStart { version: None, tags: vec![], implicit },
        Ev::Scalar { anchor, tag, value, style, .. } => {
            let implicit = tag.is_none();
            Ev::Scalar { anchor, tag, value, plain: implicit, quoted: implicit, style }
        }
        Ev::SeqStart { anchor, tag, .. } => Ev::SeqStart { anchor, tag, implicit: false, style: 1 },
        Ev::MapStart { anchor, tag, .. } => Ev::MapStart { anchor, tag, implicit: false, style: 1 },
        e => e,
    }
}
/// The notation separates names by spaces and ends them by '>' and line
/// breaks, and escapes none of these in them.
fn expressible(e: &Ev) -> bool {
    let name = |a: &Option<S>| a.as_ref().is_none_or(|a| !a.iter().any(|b| b"> \n\r".contains(b)));
    match e {
        Ev::Scalar { anchor, tag, .. } | Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => name(anchor) && name(tag),
        _ => true,
    }
}

struct Cli;
impl Cli {
    fn parser(&self, files: &[&[u8]], ctx: &mut Ctx) -> V {
        let mut want = vec![];
        let mut fails = None;
        for f in files {
            let r = rs::parse_all(&mut Feed::new(f, Cut::Whole), 0);
            ctx.trans += r.items.len() as u64;
            for e in &r.items {
                notation(&e.v, &mut want);
            }
            if let End::Err(e) = r.end {
                fails = Some(e);
                break;
            }
            if r.end != End::Done {
                return V::Bad(format!("parser: {}", r.end.brief()));
            }
        }
        let o = run("run-parser-test-suite", files);
        ctx.outcome(&(&o.out, o.code));
        ctx.states.insert(hash(&want));
        match fails {
            None => {
                if o.code != Some(0) || o.out != want {
                    return V::Bad(format!("run-parser-test-suite exits with {:?} and prints {}, the events are {}", o.code, show(&o.out), show(&want)));
                }
                if !o.err.is_empty() {
                    return V::Bad(format!("run-parser-test-suite writes {} to stderr", show(&o.err)));
                }
            }
            Some(e) => {
                let ahead = matches!(e.kind, EKind::Reader | EKind::Io) && want.starts_with(&o.out);
                if o.code != Some(1) || (o.out != want && !ahead) {
                    return V::Bad(format!("run-parser-test-suite exits with {:?} and prints {}, the events before the error are {}", o.code, show(&o.out), show(&want)));
                }
                let m = String::from_utf8_lossy(&o.err);
                if !m.contains(&e.problem) {
                    return V::Bad(format!("run-parser-test-suite reports {m:?}, the error is {}", e.problem));
                }
                ctx.count("failing inputs", 1);
            }
        }
        V::Ok
    }
    fn emitter(&self, streams: &[Vec<Ev>], ctx: &mut Ctx) -> V {
        let mut files = vec![];
        let mut want = vec![];
        let mut fails = None;
        for evs in streams {
            let mut f = vec![];
            for e in evs {
                notation(e, &mut f);
            }
            files.push(f);
            ctx.trans += evs.len() as u64;
            if fails.is_some() {
                continue;
            }
            let back: Vec<Ev> = evs.iter().map(read_back).collect();
            let cfg = Cfg { canonical: Some(false), unicode: Some(false), ..CFGS[0] };
            let (out, _, end) = rs::emit_all(&cfg, &back, false);
            want.extend(out);
            match end {
                End::Done => {}
                End::Err(e) => fails = Some(e),
                e => return V::Bad(format!("emitter: {}", e.brief())),
            }
        }
        let refs: Vec<&[u8]> = files.iter().map(|f| &f[..]).collect();
        let o = run("run-emitter-test-suite", &refs);
        ctx.outcome(&(&o.out, o.code));
        ctx.states.insert(hash(&want));
        let code = if fails.is_some() { 1 } else { 0 };
        if o.code != Some(code) || o.out != want {
            return V::Bad(format!("run-emitter-test-suite exits with {:?} and prints {}, expected {code} and {}", o.code, show(&o.out), show(&want)));
        }
        let m = String::from_utf8_lossy(&o.err);
        match fails {
            Some(e) if !m.contains(&e.problem) => V::Bad(format!("run-emitter-test-suite reports {m:?}, the error is {}", e.problem)),
            None if !m.is_empty() => V::Bad(format!("run-emitter-test-suite writes {m:?} to stderr")),
            _ => V::Ok,
        }
    }
}
/// Texts for several files in one run.
const FILES: &[&str] = &["", "a", "- a\n- b\n", "[", "--- a\n--- b\n", "\"\\t\\\\\\0\\b\\n\\r\"", "\u{1}", "&a !t {x: *a}\n", "|\n a\n\n", "%YAML 1.1\n--- a\n...\n", ": ]", "'\u{e9}'"];
/// Lines of the event notation, well formed or not.
fn line(i: u8) -> Option<Ev> {
    let s = |v: &str, style: u8| Ev::Scalar { anchor: None, tag: None, value: v.as_bytes().to_vec(), plain: true, quoted: true, style };
    Some(match i {
        0 => Ev::DocStart { version: None, tags: vec![], implicit: true },
        1 => Ev::DocStart { version: None, tags: vec![], implicit: false },
        2 => Ev::DocEnd { implicit: true },
        3 => Ev::DocEnd { implicit: false },
        4 => s("a b", 1),
        5 => s(" x\n\\ \t", 3),
        6 => s("l\n l\n\n", 4),
        7 => Ev::Scalar { anchor: Some(b"n".to_vec()), tag: Some(b"!t".to_vec()), value: b"v".to_vec(), plain: false, quoted: false, style: 2 },
        8 => Ev::Alias(b"n".to_vec()),
        9 => Ev::SeqStart { anchor: None, tag: None, implicit: false, style: 1 },
        10 => Ev::SeqEnd,
        11 => Ev::MapStart { anchor: Some(b"m".to_vec()), tag: Some(b"tag:yaml.org,2002:map".to_vec()), implicit: false, style: 1 },
        12 => Ev::MapEnd,
        13 => Ev::StreamEnd,
        14 => Ev::StreamStart(1),
        15 => s("f w\n\nx", 5),
        _ => return None,
    })
}
impl Prop for Cli {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "a case is one run of a program on a complete input (one or several files); its standard output, exit status and error report must be those of the library calls it stands for; distinct outcomes are (output, status) pairs, states distinct expected outputs, transitions events"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["tags with a space, a line break or '>', which the notation cannot express, are not given to run-emitter-test-suite"]
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let t = thorough as usize;
        let mut v = vec![];
        for kind in ["parse", "emit"] {
            v.push(tree(kind, "characters", CHARS, 2));
            v.push(tree(kind, "lexical atoms", ATOMS, 3 + t));
            v.push(tree_ps(kind, "sigils in values and names", "", &[" ", "&a", "<b>", "*c", ":", "'", "|", "-", "x", "!<t:&'|>"], &["\n"], 4 + t));
            v.push(tree_ps(kind, "quoted characters", "\"", &["\\0", "\\b", "\\n", "\\r", "\\t", "\\\\", "\u{e9}", " ", "'", "\\a", "a"], &["\""], 3 + t));
        }
        // Long files and long lines of events: buffers of any size.
        for kind in ["parse", "emit"] {
            let sizes: &[usize] = if thorough { &[9, 64, 255, 256, 257, 1023, 1024, 1025, 4096, 8192] } else { &[300, 5000] };
            v.push(spaces::stretched(kind, sizes, 1, true));
            let sizes: &[usize] = if thorough { &[16_384, 32_768, 65_535, 65_536, 65_537, 140_000] } else { &[70_000] };
            v.push(spaces::stretched(kind, sizes, 1, false));
            v.push(spaces::numbered(kind, if thorough { &[9, 64, 129, 257, 1025, 16_384, 65_537] } else { &[130, 1025, 66_000] }));
            let mut long = vec![];
            for base in [128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536, 131_072] {
                for n in [base - 8, base - 7, base - 6, base - 5, base - 2, base - 1, base, base + 1] {
                    for c in ["a", "\u{e9}", "\\n", "\\\\", "a ", "\\0b"] {
                        for (before, after) in [("- \"", "\"\n- b\n"), ("- &", " b\n- *x\n"), ("- !", " b\n- c\n"), ("- !<", "> b\n- c\n"), ("[*", " , b]"), ("- |\n ", "\n- b"), ("- '", "'\n- b")] {
                            if c == "a" || before.contains(['"', '\'', '|']) {
                                long.push(format!("{before}{}{after}", c.repeat(n / c.len())).into_bytes());
                            }
                        }
                    }
                }
            }
            v.push(list(kind, "long lines of events, of lengths around the powers of two", long));
        }
        v.push(tree("parse", "invalid characters", &["\u{0}", "\u{7f}", "a", "\n", ": "], 3));
        let n = FILES.len() as u64;
        v.push(index("pair", "all sequences of up to 3 of 12 files".into(), 1 + n + n * n + n * n * n, move |i| {
            let mut i = i;
            let mut len = 0u32;
            while i >= n.pow(len) {
                i -= n.pow(len);
                len += 1;
            }
            (0..len)
                .map(|_| {
                    let x = i % n;
                    i /= n;
                    x as u8
                })
                .collect()
        }));
        for (name, prefix) in [("event lines", vec![14u8]), ("event lines in a document", vec![14, 0]), ("event lines after a document", vec![14, 0, 4, 2])] {
            v.push(Scope {
                kind: "lines",
                name: format!("{name}: all sequences of at most {} of 16", 3 + t),
                gen: Gen::Tree { prefix, atoms: (0..16u8).map(|i| vec![i]).collect(), suffixes: vec![vec![]], depth: 3 + t, filter: None },
            });
        }
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        match kind {
            "pair" => format!("files {:?}", case.iter().filter_map(|i| FILES.get(*i as usize)).collect::<Vec<_>>()),
            "lines" => {
                let mut o = vec![];
                for e in case.iter().filter_map(|i| line(*i)) {
                    notation(&e, &mut o);
                }
                show(&o)
            }
            _ => format!("{kind} {}", show(case)),
        }
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        match kind {
            "parse" => self.parser(&[case], ctx),
            "emit" => {
                let r = rs::parse_all(&mut Feed::new(case, Cut::Whole), 0);
                if r.end != End::Done {
                    return V::Dup;
                }
                let evs: Vec<Ev> = r.items.into_iter().map(|e| e.v).collect();
                if !evs.iter().all(expressible) {
                    return V::Dup;
                }
                self.emitter(&[evs], ctx)
            }
            "pair" => {
                let files: Option<Vec<&[u8]>> = case.iter().map(|i| FILES.get(*i as usize).map(|f| f.as_bytes())).collect();
                let Some(files) = files else { return V::Skip };
                if files.is_empty() {
                    for p in ["run-parser-test-suite", "run-emitter-test-suite"] {
                        let o = run(p, &[]);
                        if o.code != Some(1) || !o.out.is_empty() || o.err.is_empty() {
                            return V::Bad(format!("{p} without arguments exits with {:?}, prints {} and reports {}", o.code, show(&o.out), show(&o.err)));
                        }
                    }
                    return V::Ok;
                }
                self.parser(&files, ctx)
            }
            "lines" => {
                let evs: Option<Vec<Ev>> = case.iter().map(|i| line(*i)).collect();
                let Some(evs) = evs else { return V::Skip };
                // Two files: the first one must not change the second one.
                if evs.last() == Some(&Ev::StreamEnd) {
                    return self.emitter(&[evs.clone(), evs], ctx);
                }
                self.emitter(&[evs], ctx)
            }
            _ => V::Skip,
        }
    }
}
