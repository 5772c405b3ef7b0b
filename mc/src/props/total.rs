//! C01: no input makes any entry point panic, abort or fail to terminate.
use super::spaces;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::rs;
use libyaml_safer as l;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Total)]
}

/// Calls made after an entry point has reported an error or the end.
const AFTER: usize = 6;

/// Repeated, on a small stack: before, each time, between, each time, after.
const DEEP: &[[&str; 5]] = &[
    ["", "- ", "a", "", "\n"],
    ["", "? ", "a", "", ""],
    ["", "- ? ", "a", "", ""],
    ["", "[", "a", "]", ""],
    ["", "{", "a", "}", ""],
    ["", "[{a: ", "b", "}]", ""],
    ["", "{? [", "b", "]}", ""],
    ["", "[", "", "", ""],
    ["", "!t &a [", "", "]", ""],
    ["[", "a, ", "", "", "]"],
    ["", "# c\n", "a", "", ""],
    ["", "\n", "a", "", ""],
    ["a: ", " ", "a", "", ""],
    ["- ", "\t", "a", "", ""],
    ["", "\u{feff}", "a", "", ""],
    ["", "--- a\n", "", "", ""],
    ["", "---\n", "", "", ""],
    ["", "a\n...\n", "", "", ""],
    ["a\n", "...\n", "", "", ""],
    ["", "%X y\n", "--- a", "", ""],
    ["", "a\n", "", "", ""],
    ["", "- a\n", "", "", ""],
    ["", "-\n", "", "", ""],
    ["", "a: b\n", "", "", ""],
    ["", "a:\n", "", "", ""],
    ["", ":\n", "", "", ""],
    ["", "? a\n", "", "", ""],
    ["", "?\n", "", "", ""],
    ["", "? a\n: - b\n", "", "", ""],
    ["'", "''", "", "", "'"],
    ["'", "a\n", "", "", "'"],
    ["'", "\n", "", "", "'"],
    ["\"", "\\\n", "", "", "\""],
    ["\"", "\\x41", "", "", "\""],
    ["|\n", " a\n", "", "", ""],
    [">\n", " a\n", "", "", ""],
    [">\n", "  a\n\n", "", "", ""],
    ["|\n", "\n", " a", "", ""],
    ["[", ",", "", "", "]"],
    ["{", "a: b, ", "", "", "}"],
    ["{", "? a, ", "", "", "}"],
    ["[", "a: b, ", "", "", "]"],
    ["!<", "%41", "", "", "> a"],
    ["!", "a", "", "", " b"],
    ["&", "a", " ", "", "b"],
    ["%TAG ! ", "a", "\n--- !b c", "", ""],
    ["", "%TAG !a! b\n--- !a!c d\n...\n", "", "", ""],
    ["- &a b\n", "- *a\n", "", "", ""],
    ["", "!", "", "", ""],
    ["", "a ", "", "", ""],
    ["", "\u{e9}", "", "", ""],
];

struct Total;
impl Total {
    /// Returns (ended with an error, saw eof) per entry point.
    fn drive(&self, inp: &[u8], encoding: u8, cut: Cut, ctx: &mut Ctx) -> Result<bool, String> {
        let limit = 64 + 8 * inp.len();
        let mut all_pruned = true;
        // 0 scan, 1 parse, 2 load, 3 token iterator, 4 event iterator
        for ep in 0..5 {
            let mut feed = Feed::new(inp, cut.clone());
            let mut n = 0usize;
            let mut errs = 0usize;
            let mut log: u64 = ep;
            let r = rs::guarded(|| {
                fn note(log: &mut u64, x: u64) {
                    *log = (log.rotate_left(7) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
                }
                let src = &mut feed;
                match ep {
                    0 | 3 => {
                        let mut s = l::Scanner::new();
                        s.set_input(&mut *src);
                        if encoding != 0 {
                            s.set_encoding(rs::enc(encoding));
                        }
                        let mut after = 0;
                        while after < AFTER {
                            let t = if ep == 0 { Some(l::Scanner::scan(&mut s)) } else { Iterator::next(&mut s) };
                            n += 1;
                            match t {
                                Some(Ok(t)) => {
                                    if after > 0 || matches!(t.data, l::TokenData::StreamEnd) {
                                        after += 1;
                                    }
                                    note(&mut log, hash(&rs::tok(t).v));
                                }
                                Some(Err(e)) => {
                                    let _ = e.to_string();
                                    errs += 1;
                                    after += 1;
                                }
                                None => after += 1,
                            }
                            if n > limit {
                                return false;
                            }
                        }
                    }
                    1 | 4 => {
                        let mut s = l::Parser::new();
                        s.set_input(&mut *src);
                        if encoding != 0 {
                            s.set_encoding(rs::enc(encoding));
                        }
                        let mut after = 0;
                        while after < AFTER {
                            let t = if ep == 1 { Some(s.parse()) } else { s.next() };
                            n += 1;
                            match t {
                                Some(Ok(t)) => {
                                    if after > 0 || matches!(t.data, l::EventData::StreamEnd) {
                                        after += 1;
                                    }
                                    note(&mut log, hash(&rs::ev(t).v));
                                }
                                Some(Err(e)) => {
                                    let _ = e.to_string();
                                    errs += 1;
                                    after += 1;
                                }
                                None => after += 1,
                            }
                            if n > limit {
                                return false;
                            }
                        }
                    }
                    _ => {
                        let mut s = l::Parser::new();
                        s.set_input(&mut *src);
                        if encoding != 0 {
                            s.set_encoding(rs::enc(encoding));
                        }
                        let mut after = 0;
                        while after < AFTER {
                            n += 1;
                            match l::Document::load(&mut s) {
                                Ok(d) => {
                                    if after > 0 || d.nodes.is_empty() {
                                        after += 1;
                                    }
                                    note(&mut log, d.nodes.len() as u64);
                                }
                                Err(e) => {
                                    let _ = e.to_string();
                                    errs += 1;
                                    after += 1;
                                }
                            }
                            if n > limit {
                                return false;
                            }
                        }
                    }
                }
                true
            });
            let name = ["Scanner::scan", "Parser::parse", "Document::load", "Scanner::next", "Parser::next"][ep as usize];
            match r {
                Err(p) => return Err(format!("{name} panics on call {}: {p}", n + 1)),
                Ok(false) => return Err(format!("{name} still produces items after {limit} calls")),
                Ok(true) => {}
            }
            ctx.trans += n as u64;
            ctx.states.insert(log);
            ctx.count(if errs > 0 { "runs with an error" } else { "runs without an error" }, 1);
            ctx.outcome(&(ep, errs, n, log));
            if errs == 0 || feed.saw_eof {
                all_pruned = false;
            }
        }
        Ok(all_pruned)
    }
}

impl Prop for Total {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "every input of the declared spaces is driven through five entry points, with six more calls after the end or the first error; an outcome is distinct by entry point, items delivered, calls made and errors reported"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 0);
        v.push(spaces::long_lite("long", thorough));
        v.extend(spaces::bytes("bytes", thorough));
        let ns: &[u32] = if thorough { &[500, 5000, 40_000] } else { &[500, 5000] };
        v.push(list(
            "deep",
            "nesting and repetition on a small stack",
            (0..DEEP.len() as u8).flat_map(|f| ns.iter().map(move |n| [&[f][..], &n.to_le_bytes()].concat())).collect(),
        ));
        v
    }
    fn render(&self, kind: &str, case: &[u8]) -> String {
        if kind == "deep" && case.len() == 5 {
            let n = u32::from_le_bytes(case[1..].try_into().unwrap());
            return format!("{:?} with the second and the fourth part {n} times", DEEP.get(case[0] as usize));
        }
        match spaces::input(kind, case) {
            Some(i) => show(&i),
            None => show(case),
        }
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        match kind {
            "text" | "long" => {
                let Some(inp) = spaces::input(kind, case) else { return V::Skip };
                match self.drive(&inp, 0, Cut::Char, ctx) {
                    Err(e) => V::Bad(e),
                    Ok(true) => V::Prune,
                    Ok(false) => V::Ok,
                }
            }
            "deep" => {
                let (Some([pre, a, mid, b, post]), Ok(n)) = (case.first().and_then(|f| DEEP.get(*f as usize)), case[1.min(case.len())..].try_into().map(u32::from_le_bytes)) else {
                    return V::Skip;
                };
                if n > 100_000 {
                    return V::Skip;
                }
                let inp = format!("{pre}{}{mid}{}{post}", a.repeat(n as usize), b.repeat(n as usize));
                match rs::small_stack(|| self.drive(inp.as_bytes(), 0, Cut::Fixed(4096), ctx)) {
                    Err(e) => V::Bad(e),
                    Ok(_) => V::Ok,
                }
            }
            "bytes" => {
                for encoding in 0..4 {
                    for cut in [Cut::Whole, Cut::Fixed(1), Cut::Fixed(3)] {
                        if let Err(e) = self.drive(case, encoding, cut.clone(), ctx) {
                            return V::Bad(format!("encoding {encoding}, {cut:?}: {e}"));
                        }
                    }
                }
                V::Ok
            }
            _ => V::Skip,
        }
    }
}
