//! C04: shape of the event and token streams and the iterator protocol.
use super::spaces;
use crate::engine::*;
use crate::feed::*;
use crate::nt::*;
use crate::rs;
use libyaml_safer as l;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Shape)]
}

/// Recogniser of
///   stream ::= StreamStart (DocStart node DocEnd)* StreamEnd
///   node   ::= Alias | Scalar | SeqStart node* SeqEnd | MapStart (node node)* MapEnd
#[derive(Clone, Default)]
pub struct Grammar {
    /// 's' stream, 'd' document, 'q' sequence, 'k' mapping before a key, 'v' before a value
    stack: Vec<u8>,
    /// 0 before the stream, 1 between documents, 2 before the root, 3 in or after the root, 4 ended
    phase: u8,
}
impl Grammar {
    fn node_allowed(&self) -> bool {
        match self.stack.last() {
            Some(_) => true,
            None => self.phase == 2,
        }
    }
    fn node_done(&mut self) {
        match self.stack.last_mut() {
            Some(x @ b'k') => *x = b'v',
            Some(x @ b'v') => *x = b'k',
            Some(_) => {}
            None => self.phase = 3,
        }
    }
    pub fn step(&mut self, e: &Ev) -> Result<(), String> {
        let ok = match e {
            Ev::StreamStart(_) => self.phase == 0,
            Ev::StreamEnd => self.phase == 1,
            Ev::DocStart { .. } => self.phase == 1,
            Ev::DocEnd { .. } => self.phase == 3 && self.stack.is_empty(),
            Ev::Alias(_) | Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. } => self.node_allowed(),
            Ev::SeqEnd => self.stack.last() == Some(&b'q'),
            Ev::MapEnd => self.stack.last() == Some(&b'k'),
        };
        if !ok {
            return Err(format!("{e:?} is not allowed here (phase {}, open {:?})", self.phase, String::from_utf8_lossy(&self.stack)));
        }
        match e {
            Ev::StreamStart(_) => self.phase = 1,
            Ev::StreamEnd => self.phase = 4,
            Ev::DocStart { .. } => self.phase = 2,
            Ev::DocEnd { .. } => self.phase = 1,
            Ev::Alias(_) | Ev::Scalar { .. } => self.node_done(),
            Ev::SeqStart { .. } => {
                self.node_done();
                self.stack.push(b'q');
            }
            Ev::MapStart { .. } => {
                self.node_done();
                self.stack.push(b'k');
            }
            Ev::SeqEnd | Ev::MapEnd => {
                self.stack.pop();
            }
        }
        // A collection that is the root keeps the phase at 3 while open.
        Ok(())
    }
    pub fn complete(&self) -> bool {
        self.phase == 4
    }
    pub fn hash(&self) -> u64 {
        hash(&(&self.stack, self.phase))
    }
}

fn name_ok(a: &[u8]) -> bool {
    !a.is_empty() && a.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-')
}

/// What each single event must satisfy, whatever the input.
fn content(e: &Ev) -> Result<(), &'static str> {
    let props = |anchor: &Option<S>| anchor.as_ref().is_none_or(|a| name_ok(a));
    match e {
        Ev::StreamStart(x) if *x == 0 || *x > 3 => Err("the stream encoding is not resolved"),
        Ev::Alias(a) if !name_ok(a) => Err("not an anchor name"),
        Ev::DocStart { version, tags, implicit } => {
            if *implicit && (version.is_some() || !tags.is_empty()) {
                return Err("an implicit document has directives");
            }
            for (i, t) in tags.iter().enumerate() {
                if tags[..i].iter().any(|u| u.0 == t.0) {
                    return Err("duplicate tag handle");
                }
            }
            Ok(())
        }
        Ev::Scalar { anchor, tag, plain, quoted, style, .. } => {
            if !props(anchor) {
                return Err("not an anchor name");
            }
            if *style == 0 || *style > 5 {
                return Err("the scalar style is not resolved");
            }
            match tag.as_deref() {
                None if (*plain, *quoted) != (*style == 1, *style != 1) => Err("implicit flags do not follow the style"),
                Some([]) | Some(b"!") | None => Ok(()),
                Some(_) if *plain || *quoted => Err("a tagged scalar is implicit"),
                _ => Ok(()),
            }
        }
        Ev::SeqStart { anchor, tag, implicit, style } | Ev::MapStart { anchor, tag, implicit, style } => {
            if !props(anchor) {
                return Err("not an anchor name");
            }
            if *style == 0 || *style > 2 {
                return Err("the collection style is not resolved");
            }
            if *implicit != tag.as_ref().is_none_or(|t| t.is_empty()) {
                return Err("the implicit flag does not follow the tag");
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

struct Shape;
impl Prop for Shape {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "states are those of a pushdown recogniser of the event grammar reached while the implementation's events drive it; every event is a transition; every input is also consumed through the iterators, with calls past the end"
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope> {
        let mut v = spaces::text("text", thorough, 1);
        v.push(spaces::long_lite("long", thorough));
        v
    }
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V {
        let Some(inp) = spaces::input(kind, case) else { return V::Skip };
        let mut f = Feed::new(&inp, Cut::Char);
        let i = rs::parse_all(&mut f, 0);
        let mut g = Grammar::default();
        for (k, e) in i.items.iter().enumerate() {
            if let Err(x) = g.step(&e.v) {
                return V::Bad(format!("event {k}: {x}"));
            }
            if let Err(x) = content(&e.v) {
                return V::Bad(format!("event {k} {:?}: {x}", e.v));
            }
            ctx.states.insert(g.hash());
            ctx.trans += 1;
        }
        match &i.end {
            End::Done if !g.complete() => return V::Bad("the stream ends before it is complete".into()),
            End::Panic(p) => return V::Bad(format!("parse panics: {p}")),
            End::Unbounded => return V::Bad("parse does not stop".into()),
            _ => {}
        }
        // The iterator yields the same, then the error if any, then nothing.
        let mut f2 = Feed::new(&inp, Cut::Char);
        let r = rs::guarded(|| {
            let mut p = l::Parser::new();
            p.set_input(&mut f2);
            let mut k = 0;
            let mut failed = false;
            for item in p.by_ref() {
                match item {
                    Ok(e) => {
                        let e = rs::ev(e);
                        if failed {
                            return Err(format!("the event iterator yields {:?} after an error", e.v));
                        }
                        if i.items.get(k) != Some(&e) {
                            return Err(format!("iterator item {k} is {:?}, parse() gave {:?}", e, i.items.get(k)));
                        }
                        k += 1;
                    }
                    Err(e) => {
                        if failed || i.end != End::Err(rs::er(&e)) {
                            return Err(format!("the event iterator fails with {e}, parse() ended with {}", i.end.brief()));
                        }
                        failed = true;
                    }
                }
            }
            if k != i.items.len() || failed != i.end.is_err() {
                return Err(format!("the event iterator ends after {k} of {} events", i.items.len()));
            }
            for _ in 0..3 {
                if p.next().is_some() {
                    return Err("the event iterator goes on after its end".into());
                }
            }
            match p.parse() {
                Ok(e) if matches!(e.data, l::EventData::StreamEnd) => Ok(()),
                Ok(e) => Err(format!("parse() gives {:?} after the end", rs::ev(e).v)),
                Err(e) => Err(format!("parse() fails after the end: {e}")),
            }
        });
        match r {
            Err(p) => return V::Bad(format!("the event iterator panics: {p}")),
            Ok(Err(e)) => return V::Bad(e),
            Ok(Ok(())) => {}
        }
        // Tokens: one start, one end, block collections balanced.
        let t = rs::scan_all(&mut Feed::new(&inp, Cut::Char), 0);
        let (mut depth, mut flow) = (0i64, 0i64);
        for (k, x) in t.items.iter().enumerate() {
            let start = matches!(x.v, Tok::StreamStart(_));
            if start != (k == 0) {
                return V::Bad(format!("token {k} is {:?}", x.v));
            }
            match x.v {
                Tok::BlockSeq | Tok::BlockMap => depth += 1,
                Tok::BlockEnd => depth -= 1,
                Tok::FlowSeq | Tok::FlowMap => flow += 1,
                Tok::FlowSeqEnd | Tok::FlowMapEnd => flow = (flow - 1).max(0),
                _ => {}
            }
            if depth < 0 {
                return V::Bad(format!("token {k} closes a block collection that is not open"));
            }
        }
        if t.end == End::Done && flow == 0 && depth != 0 {
            return V::Bad(format!("{depth} block collections are left open"));
        }
        let mut f3 = Feed::new(&inp, Cut::Char);
        let r = rs::guarded(|| {
            let mut p = l::Scanner::new();
            p.set_input(&mut f3);
            let (mut k, mut failed) = (0, false);
            while let Some(item) = Iterator::next(&mut p) {
                match item {
                    Ok(x) => {
                        let x = rs::tok(x);
                        if failed || t.items.get(k) != Some(&x) {
                            return Err(format!("token iterator item {k} is {x:?}, scan() gave {:?}", t.items.get(k)));
                        }
                        k += 1;
                    }
                    Err(e) => {
                        if failed || t.end != End::Err(rs::er(&e)) {
                            return Err(format!("the token iterator fails with {e}, scan() ended with {}", t.end.brief()));
                        }
                        failed = true;
                    }
                }
            }
            if k != t.items.len() || failed != t.end.is_err() {
                return Err(format!("the token iterator ends after {k} of {} tokens", t.items.len()));
            }
            if (0..3).any(|_| Iterator::next(&mut p).is_some()) {
                return Err("the token iterator goes on after its end".into());
            }
            Ok(())
        });
        match r {
            Err(p) => return V::Bad(format!("the token iterator panics: {p}")),
            Ok(Err(e)) => return V::Bad(e),
            Ok(Ok(())) => {}
        }
        ctx.outcome(&(i.items.iter().map(|e| std::mem::discriminant(&e.v)).collect::<Vec<_>>(), i.end.is_err()));
        if i.end.is_err() && t.end.is_err() && !f.saw_eof && !t.saw_eof {
            V::Prune
        } else {
            V::Ok
        }
    }
}
