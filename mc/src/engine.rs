//! Exhaustive explorer: enumerates a declared finite space completely, runs
//! the real code on every case, and stops at the first violation.
use crate::nt::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub enum V {
    /// Held.
    Ok,
    /// Held, and no extension of this case can behave differently.
    Prune,
    /// Not a case of this space (does not count); neither are its extensions.
    Skip,
    /// The same case as another one of the space (does not count).
    Dup,
    Bad(String),
    /// A violation that belongs to a listed finding class.
    Known(&'static str, String),
}

pub struct Ctx {
    pub states: HSet,
    pub outcomes: HSet,
    pub trans: u64,
    pub cases: u64,
    pub pruned: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, (String, u64)>,
    pub samples: Vec<String>,
    next_sample: u64,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            states: HSet::new(1 << 21),
            outcomes: HSet::new(1 << 21),
            trans: 0,
            cases: 0,
            pruned: 0,
            counters: BTreeMap::new(),
            known: BTreeMap::new(),
            samples: vec![],
            next_sample: 1,
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn outcome<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.insert(hash(t));
    }
    fn merge(&mut self, o: Ctx) {
        for h in o.states.iter() {
            self.states.insert(h);
        }
        for h in o.outcomes.iter() {
            self.outcomes.insert(h);
        }
        self.states.saturated |= o.states.saturated;
        self.outcomes.saturated |= o.outcomes.saturated;
        self.trans += o.trans;
        self.cases += o.cases;
        self.pruned += o.pruned;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, (m, n)) in o.known {
            let e = self.known.entry(k).or_insert((m.clone(), 0));
            if m.len() < e.0.len() || (m.len() == e.0.len() && m < e.0) {
                e.0 = m;
            }
            e.1 += n;
        }
        self.samples.extend(o.samples);
    }
}

pub type Filter = fn(&[u8], u8) -> bool;

pub enum Gen {
    /// Every sequence of at most `depth` atoms, between `prefix` and each of
    /// `suffixes`. `filter(path, next)` restricts the grammar of sequences.
    Tree { prefix: Vec<u8>, atoms: Vec<Vec<u8>>, suffixes: Vec<Vec<u8>>, depth: usize, filter: Option<Filter> },
    /// `n` cases, by index.
    Index { n: u64, f: Box<dyn Fn(u64) -> Vec<u8> + Send + Sync> },
}
pub struct Scope {
    pub kind: &'static str,
    pub name: String,
    pub gen: Gen,
}
pub fn tree(kind: &'static str, name: &str, atoms: &[&str], depth: usize) -> Scope {
    Scope {
        kind,
        name: format!("{name} (all sequences of at most {depth} of {} atoms)", atoms.len()),
        gen: Gen::Tree {
            prefix: vec![],
            atoms: atoms.iter().map(|a| a.as_bytes().to_vec()).collect(),
            suffixes: vec![vec![]],
            depth,
            filter: None,
        },
    }
}
pub fn tree_ps(kind: &'static str, name: &str, prefix: &str, atoms: &[&str], suffixes: &[&str], depth: usize) -> Scope {
    Scope {
        kind,
        name: format!(
            "{name} (prefix {prefix:?}, all sequences of at most {depth} of {} atoms, {} endings)",
            atoms.len(),
            suffixes.len()
        ),
        gen: Gen::Tree {
            prefix: prefix.as_bytes().to_vec(),
            atoms: atoms.iter().map(|a| a.as_bytes().to_vec()).collect(),
            suffixes: suffixes.iter().map(|a| a.as_bytes().to_vec()).collect(),
            depth,
            filter: None,
        },
    }
}
pub fn index(kind: &'static str, name: String, n: u64, f: impl Fn(u64) -> Vec<u8> + Send + Sync + 'static) -> Scope {
    Scope { kind, name, gen: Gen::Index { n, f: Box::new(f) } }
}
pub fn list(kind: &'static str, name: &str, v: Vec<Vec<u8>>) -> Scope {
    index(kind, format!("{name} ({} cases)", v.len()), v.len() as u64, move |i| v[i as usize].clone())
}

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// "model_checking", "fault_enumeration" or "exploration".
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn scopes(&self, thorough: bool) -> Vec<Scope>;
    fn check(&self, kind: &str, case: &[u8], ctx: &mut Ctx) -> V;
    fn render(&self, _kind: &str, case: &[u8]) -> String {
        show(case)
    }
}

// ------------------------------------------------- case slots (shared memory)

pub const SLOT: usize = 1 << 17;
pub const MAXT: usize = 64;
#[derive(Clone, Copy)]
pub struct Slots(pub *mut u8);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    /// seq(8) busy(8) scope(8) len(8) bytes
    unsafe fn base(&self, t: usize) -> *mut u8 {
        self.0.add(t * SLOT)
    }
    fn begin(&self, t: usize, scope: usize, case: &[u8]) {
        unsafe {
            let b = self.base(t);
            let n = case.len().min(SLOT - 32);
            std::ptr::copy_nonoverlapping(case.as_ptr(), b.add(32), n);
            (b.add(24) as *mut u64).write(case.len() as u64);
            (b.add(16) as *mut u64).write(scope as u64);
            let s = &*(b as *const AtomicU64);
            s.fetch_add(1, Relaxed);
            (*(b.add(8) as *const AtomicU64)).store(1, Release);
        }
    }
    pub fn clear(&self) {
        (0..MAXT).for_each(|t| self.finish(t));
    }
    fn finish(&self, t: usize) {
        unsafe { (*(self.base(t).add(8) as *const AtomicU64)).store(0, Release) }
    }
    pub fn seq(&self, t: usize) -> (u64, bool) {
        unsafe {
            let b = self.base(t);
            ((*(b as *const AtomicU64)).load(Relaxed), (*(b.add(8) as *const AtomicU64)).load(Acquire) == 1)
        }
    }
    pub fn read(&self, t: usize) -> Option<(usize, Vec<u8>)> {
        if !self.seq(t).1 {
            return None;
        }
        unsafe {
            let b = self.base(t);
            let n = (b.add(24) as *mut u64).read() as usize;
            if n > SLOT - 32 {
                return None;
            }
            let scope = (b.add(16) as *mut u64).read() as usize;
            Some((scope, std::slice::from_raw_parts(b.add(32), n).to_vec()))
        }
    }
}

pub const HANG_SECS: u64 = 40;
pub const EXIT_HANG: i32 = 70;

struct Found {
    scope: usize,
    case: Vec<u8>,
    msg: String,
}

pub struct Report {
    pub ctx: Ctx,
    pub scope_lines: Vec<(String, u64, u64)>,
    pub violation: Option<(&'static str, Vec<u8>, String)>,
    pub wall: f64,
}

struct Shared<'a> {
    prop: &'a dyn Prop,
    known: &'a [String],
    slots: Slots,
    /// Cases that take longer than this are reported (MC_SLOW, to tune scopes).
    slow: Option<f64>,
    stop: AtomicBool,
    found: Mutex<Vec<Found>>,
}

impl Shared<'_> {
    /// Returns true when extensions must be pruned.
    fn run(&self, t: usize, si: usize, kind: &'static str, case: &[u8], ctx: &mut Ctx) -> bool {
        self.slots.begin(t, si, case);
        let began = self.slow.map(|_| Instant::now());
        let r = match crate::rs::guarded(|| self.prop.check(kind, case, ctx)) {
            Ok(v) => v,
            Err(p) => V::Bad(format!("PANIC: {p}")),
        };
        self.slots.finish(t);
        if let (Some(b), Some(s)) = (began, self.slow) {
            if b.elapsed().as_secs_f64() > s {
                eprintln!("slow: {:.2}s {kind} {}", b.elapsed().as_secs_f64(), self.prop.render(kind, case).chars().take(80).collect::<String>());
            }
        }
        let v = match r {
            V::Known(id, m) => {
                if self.known.iter().any(|k| k == id) {
                    let m = format!("{} -- {m}", self.prop.render(kind, case));
                    let e = ctx.known.entry(id).or_insert((m.clone(), 0));
                    if m.len() < e.0.len() {
                        e.0 = m;
                    }
                    e.1 += 1;
                    V::Ok
                } else {
                    V::Bad(m)
                }
            }
            v => v,
        };
        match v {
            V::Skip => return true,
            V::Dup => return false,
            V::Bad(msg) => {
                ctx.cases += 1;
                self.found.lock().unwrap().push(Found { scope: si, case: case.to_vec(), msg });
                self.stop.store(true, SeqCst);
                return true;
            }
            _ => {}
        }
        ctx.cases += 1;
        if ctx.cases == ctx.next_sample && ctx.samples.len() < 12 {
            ctx.next_sample = ctx.next_sample * 7 + 3;
            let mut r = self.prop.render(kind, case);
            if r.len() > 300 {
                let mut k = 300;
                while !r.is_char_boundary(k) {
                    k -= 1;
                }
                r.truncate(k);
            }
            ctx.samples.push(format!("[{kind}] {r}"));
        }
        if let V::Prune = v {
            ctx.pruned += 1;
            return true;
        }
        false
    }
}

pub fn explore(prop: &dyn Prop, thorough: bool, known: &[String], slots: Slots, threads: usize) -> Report {
    let t0 = Instant::now();
    let mut scopes = prop.scopes(thorough);
    // For mutation campaigns only: a quick look before the real check.
    if let Some(cap) = std::env::var("MC_LIGHT").ok().and_then(|s| s.parse().ok()) {
        lighten(&mut scopes, cap);
    }
    let sh = Shared { prop, known, slots, slow: std::env::var("MC_SLOW").ok().and_then(|s| s.parse().ok()), stop: AtomicBool::new(false), found: Mutex::new(vec![]) };
    let done = AtomicBool::new(false);
    let only: Option<usize> = std::env::var("MC_SCOPE").ok().and_then(|s| s.parse().ok());
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let mut total = Ctx::new();
    total.states = HSet::new(1 << 25);
    total.outcomes = HSet::new(1 << 25);
    let mut lines = vec![];
    std::thread::scope(|s| {
        // Watchdog: a case that never returns ends the process; the
        // supervisor replays what was in flight to confirm it.
        let w = s.spawn(|| {
            // In ticks: the clock may jump when the machine is suspended.
            let mut last = vec![(0u64, 0u64); threads];
            while !done.load(Relaxed) {
                std::thread::park_timeout(std::time::Duration::from_millis(200));
                for (t, l) in last.iter_mut().enumerate() {
                    let (q, busy) = slots.seq(t);
                    if !busy || q != l.0 {
                        *l = (q, 0);
                        continue;
                    }
                    l.1 += 1;
                    if l.1 >= HANG_SECS * 5 {
                        eprintln!("watchdog: worker {t} stuck on one case for {HANG_SECS}s");
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
        for (si, sc) in scopes.iter().enumerate() {
            if let Some(o) = only {
                if o != si {
                    continue;
                }
            }
            if sh.stop.load(SeqCst) {
                break;
            }
            let st = Instant::now();
            let mut frontier: Vec<Vec<u8>> = vec![];
            let mut head = Ctx::new();
            let mut from_depth = 0;
            if let Gen::Tree { atoms, depth, .. } = &sc.gen {
                // Breadth-first until there is enough work to share.
                let mut level: Vec<Vec<u8>> = vec![vec![]];
                loop {
                    if from_depth >= *depth || level.len() >= threads * 40 || level.is_empty() {
                        break;
                    }
                    let mut next = vec![];
                    for p in level {
                        if sh.stop.load(Relaxed) {
                            break;
                        }
                        if visit(&sh, 0, si, sc, &p, &mut head) {
                            continue;
                        }
                        for a in 0..atoms.len() as u8 {
                            if allowed(sc, &p, a) {
                                let mut q = p.clone();
                                q.push(a);
                                next.push(q);
                            }
                        }
                    }
                    level = next;
                    from_depth += 1;
                }
                frontier = level;
            }
            let next = AtomicUsize::new(0);
            let n_index = match &sc.gen {
                Gen::Index { n, .. } => *n,
                _ => 0,
            };
            let step = if n_index > 100_000 { 512 } else if n_index > 5_000 { 16 } else { 1 };
            let (shr, fr, nx) = (&sh, &frontier, &next);
            let mut parts: Vec<Ctx> = vec![];
            std::thread::scope(|s2| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s2, move || {
                                let mut ctx = Ctx::new();
                                match &sc.gen {
                                    Gen::Tree { .. } => loop {
                                        let i = nx.fetch_add(1, Relaxed);
                                        if i >= fr.len() || shr.stop.load(Relaxed) {
                                            break;
                                        }
                                        let mut p = fr[i].clone();
                                        dfs(shr, t, si, sc, &mut p, &mut ctx);
                                    },
                                    Gen::Index { n, f } => loop {
                                        let i = nx.fetch_add(step, Relaxed) as u64;
                                        if i >= *n || shr.stop.load(Relaxed) {
                                            break;
                                        }
                                        for j in i..(i + step as u64).min(*n) {
                                            shr.run(t, si, sc.kind, &f(j), &mut ctx);
                                            if shr.stop.load(Relaxed) {
                                                break;
                                            }
                                        }
                                    },
                                }
                                ctx
                            })
                            .expect("spawn worker")
                    })
                    .collect();
                for h in hs {
                    parts.push(h.join().expect("worker"));
                }
            });
            parts.push(head);
            let (c0, p0) = (total.cases, total.pruned);
            for p in parts {
                total.merge(p);
            }
            if verbose {
                eprintln!(
                    "scope {si} {}: {} cases, {} pruned, {:.1}s",
                    sc.name,
                    total.cases - c0,
                    total.pruned - p0,
                    st.elapsed().as_secs_f64()
                );
            }
            lines.push((sc.name.clone(), total.cases - c0, total.pruned - p0));
        }
        done.store(true, SeqCst);
        w.thread().unpark();
    });
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    found.sort_by(|a, b| (a.case.len(), &a.case).cmp(&(b.case.len(), &b.case)));
    let violation = found.into_iter().next().map(|f| {
        let kind = scopes[f.scope].kind;
        let (case, msg) = shrink(&sh, kind, f.case, f.msg);
        (kind, case, msg)
    });
    Report { ctx: total, scope_lines: lines, violation, wall: t0.elapsed().as_secs_f64() }
}

fn lighten(scopes: &mut Vec<Scope>, cap: u64) {
    for s in std::mem::take(scopes) {
        let gen = match s.gen {
            Gen::Tree { prefix, atoms, suffixes, mut depth, filter } => {
                while depth > 1 && (atoms.len() as f64).powi(depth as i32) * suffixes.len() as f64 > cap as f64 {
                    depth -= 1;
                }
                Gen::Tree { prefix, atoms, suffixes, depth, filter }
            }
            Gen::Index { n, f } if n > cap / 8 => {
                let step = n / (cap / 8).max(1);
                Gen::Index { n: n / step, f: Box::new(move |i| f(i * step)) }
            }
            g => g,
        };
        scopes.push(Scope { gen, ..s });
    }
}

fn allowed(sc: &Scope, p: &[u8], a: u8) -> bool {
    match &sc.gen {
        Gen::Tree { filter: Some(f), .. } => f(p, a),
        _ => true,
    }
}

fn visit(sh: &Shared, t: usize, si: usize, sc: &Scope, path: &[u8], ctx: &mut Ctx) -> bool {
    if let Gen::Tree { prefix, atoms, suffixes, .. } = &sc.gen {
        let mut case = prefix.clone();
        for i in path {
            case.extend_from_slice(&atoms[*i as usize]);
        }
        let base = case.len();
        let mut prune = false;
        for sfx in suffixes {
            case.truncate(base);
            case.extend_from_slice(sfx);
            let p = sh.run(t, si, sc.kind, &case, ctx);
            // Only the bare case (the empty ending) may cut the subtree.
            if sfx.is_empty() {
                prune = p;
            }
            if p && sfx.is_empty() {
                break;
            }
        }
        prune
    } else {
        true
    }
}

fn dfs(sh: &Shared, t: usize, si: usize, sc: &Scope, path: &mut Vec<u8>, ctx: &mut Ctx) {
    if sh.stop.load(Relaxed) {
        return;
    }
    if visit(sh, t, si, sc, path, ctx) {
        return;
    }
    if let Gen::Tree { atoms, depth, .. } = &sc.gen {
        if path.len() >= *depth {
            return;
        }
        for a in 0..atoms.len() as u8 {
            if allowed(sc, path, a) {
                path.push(a);
                dfs(sh, t, si, sc, path, ctx);
                path.pop();
            }
        }
    }
}

/// Greedy deletion of byte ranges while the case still violates.
fn shrink(sh: &Shared, kind: &'static str, case: Vec<u8>, msg: String) -> (Vec<u8>, String) {
    let t0 = Instant::now();
    let mut best = (case, msg);
    let mut width = best.0.len() / 2;
    while width > 0 {
        let mut i = 0;
        while i + width <= best.0.len() {
            if t0.elapsed().as_secs() >= 5 {
                return best;
            }
            let mut c = best.0.clone();
            c.drain(i..i + width);
            let mut ctx = Ctx::new();
            sh.slots.begin(0, 0, &c);
            let r = crate::rs::guarded(|| sh.prop.check(kind, &c, &mut ctx));
            sh.slots.finish(0);
            let m = match r {
                Ok(V::Bad(m)) => Some(m),
                Err(p) => Some(format!("PANIC: {p}")),
                _ => None,
            };
            match m {
                Some(m) => best = (c, m),
                None => i += 1,
            }
        }
        width = if width > 64 { width / 2 } else { width - 1 };
    }
    best
}

// ------------------------------------------------------------------ evidence

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn evidence(prop: &dyn Prop, tier: &str, seed: i64, r: &Report) -> String {
    let c = &r.ctx;
    let mut samples: Vec<String> = vec![];
    for s in &c.samples {
        if !samples.contains(s) {
            samples.push(s.clone());
        }
    }
    // Spread the samples over the whole run.
    let n = samples.len();
    let pick: Vec<String> = if n <= 12 { samples } else { (0..12).map(|i| samples[i * n / 12].clone()).collect() };
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{",
        js(prop.id()),
        js(tier),
        seed,
        js(prop.level())
    );
    match prop.level() {
        "model_checking" => {
            let _ = write!(
                o,
                "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},",
                c.states.len(),
                c.trans,
                c.cases,
                c.outcomes.len()
            );
        }
        _ => {
            let _ = write!(o, "\"evaluations\":{},\"distinct_nontrivial\":{},\"steps\":{},", c.cases, c.outcomes.len(), c.trans);
        }
    }
    let _ = write!(o, "\"rule\":{},", js(prop.rule()));
    let _ = write!(
        o,
        "\"counts_are_lower_bounds\":{},\"pruned_subtrees\":{},\"exhaustive\":{},",
        c.states.saturated || c.outcomes.saturated,
        c.pruned,
        r.violation.is_none()
    );
    o.push_str("\"counters\":{");
    for (i, (k, v)) in c.counters.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    o.push_str("},\"scopes\":[");
    for (i, (name, n, p)) in r.scope_lines.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"name\":{},\"cases\":{},\"pruned\":{}}}",
            if i > 0 { "," } else { "" },
            js(name),
            n,
            p
        );
    }
    o.push_str("],\"known_findings\":[");
    for (i, (k, (m, n))) in c.known.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"id\":{},\"cases\":{},\"example\":{}}}",
            if i > 0 { "," } else { "" },
            js(k),
            n,
            js(m)
        );
    }
    o.push_str("],\"samples\":[");
    for (i, s) in pick.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
    }
    o.push_str("]},\"assumptions\":[");
    for (i, s) in prop.assumptions().iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
    }
    let _ = write!(
        o,
        "],\"wall_s\":{:.2},\"violations\":{}}}",
        r.wall,
        if r.violation.is_some() { 1 } else { 0 }
    );
    o
}
