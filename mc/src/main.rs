mod alloc;
mod c;
mod engine;
mod feed;
mod nt;
mod props;
mod rs;

use engine::*;
use std::io::Write as _;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use std::os::fd::AsRawFd;
use std::process::{Command, ExitStatus};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(RLIMIT_AS, &[bytes, bytes]);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
}

fn map(path: &str, create: bool) -> Slots {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("slot file");
    let len = SLOT * MAXT;
    if create {
        f.set_len(len as u64).expect("slot file size");
    }
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    Slots(p)
}

pub fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

/// Ids of the open findings listed for a property.
fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            let d = it.next().unwrap_or("");
            if p == format!("property={id}") {
                v.push((k.trim_start_matches("id=").to_string(), d.to_string()));
            }
        }
    }
    v
}

fn write_replay(prop: &dyn Prop, kind: &str, case: &[u8], msg: &str) -> String {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let name = format!("{}-{:016x}.txt", prop.id(), nt::hash(&(kind, case)));
    let body = format!(
        "property={}\nkind={}\nhex={}\nmessage={}\ncase={}\n# replay: /verif/check.sh replay replays/{}\n",
        prop.id(),
        kind,
        hex(case),
        msg.replace('\n', "\\n"),
        prop.render(kind, case).replace('\n', "\\n"),
        name
    );
    std::fs::write(dir.join(&name), body).expect("write replay");
    format!("replays/{name}")
}

fn wait_timeout(mut ch: std::process::Child, secs: u64) -> Option<ExitStatus> {
    // In ticks: the clock may jump when the machine is suspended.
    for _ in 0..secs * 200 {
        if let Some(s) = ch.try_wait().expect("wait") {
            return Some(s);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let _ = ch.kill();
    let _ = ch.wait();
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
        }
        "run" => {
            let prop = props::get(&a[2]);
            let shm = std::env::temp_dir().join(format!("mc-slots-{}-{}", prop.id(), std::process::id()));
            let shm_s = shm.to_str().unwrap().to_string();
            let slots = map(&shm_s, true);
            let t0 = Instant::now();
            // Once more if nothing is confirmed: what ended the engine may
            // have come from outside.
            for _ in 0..2 {
                let st = Command::new(std::env::current_exe().unwrap())
                    .args(["engine", prop.id(), &shm_s])
                    .status()
                    .expect("start engine");
                if matches!(st.code(), Some(0 | 1)) {
                    let _ = std::fs::remove_file(&shm);
                    std::process::exit(st.code().unwrap());
                }
                eprintln!("engine ended with {st}; confirming the cases in flight");
                let scopes = prop.scopes(tier == "thorough");
                let mut confirmed = None;
                for t in 0..MAXT {
                    if let Some((si, case)) = slots.read(t) {
                        let kind = scopes[si].kind;
                        let path = write_replay(&*prop, kind, &case, "(in flight when the engine died)");
                        let mut c = Command::new(std::env::current_exe().unwrap());
                        c.args(["replay", verif().join(&path).to_str().unwrap()]);
                        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                        let what = match wait_timeout(c.spawn().expect("replay"), HANG_SECS + 10) {
                            None => Some("does not terminate"),
                            Some(s) if s.code() == Some(1) => Some("violates the property"),
                            Some(s) if s.code().is_none() => Some("kills the process (abort, stack overflow or memory exhaustion)"),
                            _ => None,
                        };
                        if let Some(w) = what {
                            let msg = format!("{w}: {}", prop.render(kind, &case));
                            let path = write_replay(&*prop, kind, &case, &msg);
                            confirmed.get_or_insert((kind, case, path, msg));
                        } else {
                            let _ = std::fs::remove_file(verif().join(&path));
                        }
                    }
                }
                if let Some((kind, case, path, msg)) = confirmed {
                    let mut ctx = Ctx::new();
                    ctx.cases = (0..MAXT).map(|t| slots.seq(t).0).sum();
                    ctx.samples.push(msg.clone());
                    let r = Report {
                        ctx,
                        scope_lines: vec![],
                        violation: Some((kind, case, msg.clone())),
                        wall: t0.elapsed().as_secs_f64(),
                    };
                    let _ = std::fs::create_dir_all(verif().join("evidence"));
                    let _ = std::fs::write(
                        verif().join(format!("evidence/{}.json", prop.id())),
                        evidence(&*prop, tier, seed, &r),
                    );
                    let _ = std::fs::remove_file(&shm);
                    println!("{msg}");
                    println!("VIOLATION property={} replay={}", prop.id(), path);
                    std::process::exit(1);
                }
                slots.clear();
                eprintln!("no case in flight reproduces the failure alone");
            }
            let _ = std::fs::remove_file(&shm);
            std::process::exit(3);
        }
        "engine" => {
            limit_memory(14 << 30);
            rs::install_hook();
            let prop = props::get(&a[2]);
            let slots = map(&a[3], false);
            let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, 16);
            let kn = known(prop.id());
            let ids: Vec<String> = kn.iter().map(|k| k.0.clone()).collect();
            let r = explore(&*prop, tier == "thorough", &ids, slots, threads);
            let _ = std::fs::create_dir_all(verif().join("evidence"));
            std::fs::write(verif().join(format!("evidence/{}.json", prop.id())), evidence(&*prop, tier, seed, &r) + "\n")
                .expect("write evidence");
            println!(
                "{}: {} cases, {} distinct model states, {} steps, {} distinct outcomes, {} pruned subtrees, {:.1}s",
                prop.id(),
                r.ctx.cases,
                r.ctx.states.len(),
                r.ctx.trans,
                r.ctx.outcomes.len(),
                r.ctx.pruned,
                r.wall
            );
            for (k, v) in &r.ctx.counters {
                println!("  {k}: {v}");
            }
            for (id, d) in &kn {
                let seen = r.ctx.known.get(id.as_str());
                println!(
                    "KNOWN-FINDING: property={} {} ({} cases in this run{})",
                    prop.id(),
                    d,
                    seen.map_or(0, |s| s.1),
                    seen.map_or(String::new(), |s| format!(", e.g. {}", s.0.replace('\n', "\\n")))
                );
            }
            if let Some((kind, case, msg)) = &r.violation {
                let path = write_replay(&*prop, kind, case, msg);
                println!("case: {}", prop.render(kind, case));
                println!("{msg}");
                println!("VIOLATION property={} replay={}", prop.id(), path);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
        "replay" => {
            limit_memory(4 << 30);
            rs::install_hook();
            let mut path = std::path::PathBuf::from(&a[2]);
            if !path.exists() {
                path = verif().join(&a[2]);
            }
            let t = std::fs::read_to_string(path).expect("replay file");
            let get = |k: &str| {
                t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_else(|| panic!("no {k} in the replay file")).to_string()
            };
            let prop = props::get(&get("property="));
            let kind: &'static str = Box::leak(get("kind=").into_boxed_str());
            let case = unhex(&get("hex="));
            println!("case: {}", prop.render(kind, &case));
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx::new();
                    match rs::guarded(|| prop.check(kind, &case, &mut ctx)) {
                        Ok(V::Bad(m)) => {
                            println!("violates {}: {m}", prop.id());
                            1
                        }
                        Ok(V::Known(id, m)) => {
                            println!("known finding {id} of {}: {m}", prop.id());
                            0
                        }
                        Ok(_) => {
                            println!("holds");
                            0
                        }
                        Err(p) => {
                            println!("violates {}: PANIC: {p}", prop.id());
                            1
                        }
                    }
                })
                .unwrap();
            let code = h.join().unwrap_or(3);
            let _ = std::io::stdout().flush();
            std::process::exit(code);
        }
        "try" => {
            // mc try ID KIND TEXT : one case from the command line.
            rs::install_hook();
            let prop = props::get(&a[2]);
            let mut ctx = Ctx::new();
            let case = unescape(&a[4]);
            println!("case: {}", prop.render(&a[3], &case));
            match rs::guarded(|| prop.check(&a[3], &case, &mut ctx)) {
                Ok(V::Bad(m)) => println!("BAD {m}"),
                Ok(V::Known(id, m)) => println!("KNOWN {id} {m}"),
                Ok(V::Ok) => println!("ok"),
                Ok(V::Prune) => println!("ok (prune)"),
                Ok(V::Skip | V::Dup) => println!("skip"),
                Err(p) => println!("PANIC {p}"),
            }
        }
        _ => {
            eprintln!("usage: mc run ID | replay FILE | list");
            std::process::exit(2);
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            i += 1;
            match b[i] {
                b'n' => o.push(b'\n'),
                b'r' => o.push(b'\r'),
                b't' => o.push(b'\t'),
                b'x' => {
                    o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                    i += 2;
                }
                c => o.push(c),
            }
        } else {
            o.push(b[i]);
        }
        i += 1;
    }
    o
}
