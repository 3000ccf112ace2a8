//! Supervision: shards cases over worker processes, watches for panics, deaths and endless loops,
//! confirms what it saw by running the case alone, and writes verdict, replay and evidence.
use crate::rng::{hash_str, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, &mut Rng) -> R,
    /// run in the parent afterwards: sanitizer builds, system call traces, instruction counts
    pub after: Option<fn(&mut Parent) -> R>,
    /// counters that must be non-zero for the run to have observed anything
    pub must: &'static [&'static str],
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub case: u64,
    pub dir: String,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub inputs: Vec<(String, String)>,
    pub max_samples: usize,
    pub persist: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    /// this case exercised the property on something not seen before
    pub fn nontrivial(&mut self, what: &str) {
        self.distinct.insert(hash_str(what));
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < self.max_samples {
            let t: String = s.chars().take(600).collect();
            self.samples.push(t);
        }
    }
    pub fn input(&mut self, name: &str, text: &str) {
        if self.persist {
            // so that the input of a crash survives it
            let _ = fs::write(format!("{}/input{}-{}", self.dir, self.inputs.len(), name.replace('/', "_")), text);
        }
        self.inputs.push((name.to_string(), text.to_string()));
    }
    /// a fresh directory for this case
    pub fn fresh_dir(&mut self) -> String {
        let d = format!("{}/c", self.dir);
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("scratch");
        d
    }
}

thread_local! {
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub static ANY_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST.with(|l| *l.borrow_mut() = Some((loc.clone(), msg.clone())));
        if let Ok(mut a) = ANY_PANIC.lock() {
            *a = Some((loc, msg));
        }
    }));
}

pub enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}

/// run something that calls the library, telling its panics from ours
pub fn guarded<F: FnOnce() -> R>(f: F) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Violation(m),
        Err(_) => {
            let (loc, msg) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                Outcome::Harness(format!("{} at {}", msg, loc))
            } else {
                Outcome::Violation(format!("panic: {} at {}", msg, loc))
            }
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn set_limits(cpu_s: u64) {
    // address space and cpu time of this process; ignored when it cannot be set
    #[repr(C)]
    struct Rl {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(r: i32, l: *const Rl) -> i32;
    }
    if std::env::var("LIMA_NO_RLIMIT").is_err() {
        unsafe {
            let l = Rl { cur: 4 << 30, max: 4 << 30 };
            setrlimit(9, &l);
            let l = Rl { cur: 0, max: 0 };
            setrlimit(4, &l);
            if cpu_s > 0 {
                let l = Rl { cur: cpu_s, max: cpu_s + 5 };
                setrlimit(0, &l);
            }
        }
    }
}

pub struct WorkerArgs {
    pub seed: u64,
    pub thorough: bool,
    pub k: u64,
    pub n: u64,
    pub cases: u64,
    pub deadline: f64,
    pub dir: String,
    pub only: Option<u64>,
}

pub fn worker(p: &Prop, a: WorkerArgs) -> i32 {
    set_limits(if a.only.is_some() { 150 } else { 0 });
    install_hook();
    let run = p.run;
    let id = p.id;
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || worker_body(id, run, a))
        .expect("thread")
        .join()
        .unwrap_or(2)
}

fn worker_body(id: &'static str, run: fn(&mut Ctx, &mut Rng) -> R, a: WorkerArgs) -> i32 {
    fs::create_dir_all(&a.dir).expect("scratch");
    let prog = fs::File::create(format!("{}/progress", a.dir)).expect("progress");
    let mut ctx = Ctx {
        seed: a.seed,
        thorough: a.thorough,
        case: 0,
        dir: a.dir.clone(),
        counts: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        inputs: vec![],
        max_samples: if a.k == 0 { 4 } else { 0 },
        persist: a.only.is_some() || std::env::var("LIMA_PERSIST").is_ok(),
    };
    let t0 = Instant::now();
    let mut done = 0u64;
    let mut verdict = 0;
    let mut out = String::new();
    let mut i = a.only.unwrap_or(a.k);
    while i < a.cases || a.only.is_some() {
        let _ = prog.write_all_at(format!("{:020}", i).as_bytes(), 0);
        ctx.case = i;
        ctx.inputs.clear();
        let mut r = Rng::new(a.seed, id, i);
        match guarded(|| run(&mut ctx, &mut r)) {
            Outcome::Ok => {}
            Outcome::Violation(m) => {
                out.push_str(&format!("viol {} {}\n", i, esc(&m)));
                for (n, t) in &ctx.inputs {
                    out.push_str(&format!("input {} {}\n", esc(n).replace(' ', "_"), esc(t)));
                }
                verdict = 1;
            }
            Outcome::Harness(m) => {
                out.push_str(&format!("harness {} {}\n", i, esc(&m)));
                for (n, t) in &ctx.inputs {
                    out.push_str(&format!("input {} {}\n", esc(n).replace(' ', "_"), esc(t)));
                }
                verdict = 2;
            }
        }
        done += 1;
        if verdict != 0 || a.only.is_some() {
            break;
        }
        i += a.n;
        if t0.elapsed().as_secs_f64() > a.deadline {
            break;
        }
    }
    for (k, v) in &ctx.counts {
        out.push_str(&format!("count {} {}\n", k, v));
    }
    for s in &ctx.samples {
        out.push_str(&format!("sample {}\n", esc(s)));
    }
    let mut dbytes: Vec<u8> = vec![];
    for d in &ctx.distinct {
        dbytes.extend_from_slice(&d.to_le_bytes());
    }
    fs::write(format!("{}/distinct", a.dir), dbytes).expect("distinct");
    out.push_str(&format!("done {}\n", done));
    fs::write(format!("{}/out", a.dir), out).expect("out");
    verdict
}

pub struct Parent {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: String,
    pub verif: String,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
    pub known: Vec<String>,
    pub notes: Vec<String>,
    pub inconclusive: Option<String>,
    pub inputs: Vec<(String, String)>,
}

impl Parent {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn exe() -> std::path::PathBuf {
        std::env::current_exe().expect("exe")
    }
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit_once(") ")?.1;
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn read_progress(dir: &str) -> Option<u64> {
    fs::read_to_string(format!("{}/progress", dir)).ok()?.trim().parse().ok()
}

struct WorkerResult {
    viol: Option<(u64, String, Vec<(String, String)>)>,
    harness: Option<(u64, String)>,
}

fn read_out(dir: &str, par: &mut Parent) -> Option<WorkerResult> {
    let s = fs::read_to_string(format!("{}/out", dir)).ok()?;
    let mut w = WorkerResult { viol: None, harness: None };
    let mut inputs = vec![];
    let mut complete = false;
    for l in s.split('\n') {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "count" => {
                let (n, v) = rest.rsplit_once(' ')?;
                par.add(n, v.parse().ok()?);
            }
            "sample" => par.samples.push(unesc(rest)),
            "viol" => {
                let (c, m) = rest.split_once(' ')?;
                w.viol = Some((c.parse().ok()?, unesc(m), vec![]));
            }
            "harness" => {
                let (c, m) = rest.split_once(' ')?;
                w.harness = Some((c.parse().ok()?, unesc(m)));
            }
            "input" => {
                let (n, t) = rest.split_once(' ').unwrap_or((rest, ""));
                inputs.push((n.to_string(), unesc(t)));
            }
            "done" => {
                par.evaluations += rest.parse::<u64>().ok()?;
                complete = true;
            }
            _ => {}
        }
    }
    if let Ok(d) = fs::read(format!("{}/distinct", dir)) {
        for c in d.chunks_exact(8) {
            par.distinct.insert(u64::from_le_bytes(c.try_into().ok()?));
        }
    }
    if let Some(v) = &mut w.viol {
        v.2 = inputs;
    }
    complete.then_some(w)
}

fn spawn_worker(p: &Prop, par: &Parent, k: u64, n: u64, cases: u64, deadline: f64, dir: &str, only: Option<u64>) -> std::process::Child {
    let mut c = Command::new(Parent::exe());
    c.arg("worker")
        .arg(p.id)
        .arg(par.seed.to_string())
        .arg(if par.thorough { "1" } else { "0" })
        .arg(k.to_string())
        .arg(n.to_string())
        .arg(cases.to_string())
        .arg(deadline.to_string())
        .arg(dir)
        .arg(only.map_or("-".to_string(), |c| c.to_string()))
        .stdin(Stdio::null())
        .stdout(Stdio::null());
    c.stderr(fs::File::create(format!("{}.err", dir)).map(Stdio::from).unwrap_or(Stdio::null()));
    c.spawn().expect("spawn worker")
}

/// Runs the shards; Ok(Some) is a violation, Err a failure of the check itself.
fn shards(p: &Prop, par: &mut Parent, cases: u64, deadline: f64) -> Result<Option<(u64, String, Vec<(String, String)>)>, String> {
    let n = std::thread::available_parallelism().map_or(4, |x| x.get() as u64).min(8);
    struct W {
        dir: String,
        child: std::process::Child,
        last: Option<u64>,
        cpu_at: f64,
        status: Option<std::process::ExitStatus>,
        hung: bool,
    }
    let mut ws: Vec<W> = vec![];
    for k in 0..n {
        let dir = format!("{}/w{}", par.scratch, k);
        let child = spawn_worker(p, par, k, n, cases, deadline, &dir, None);
        ws.push(W { dir, child, last: None, cpu_at: 0.0, status: None, hung: false });
    }
    let t0 = Instant::now();
    loop {
        let mut live = 0;
        for w in ws.iter_mut() {
            if w.status.is_some() {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(s)) => w.status = Some(s),
                _ => {
                    live += 1;
                    let cur = read_progress(&w.dir);
                    let cpu = cpu_secs(w.child.id()).unwrap_or(0.0);
                    if cur != w.last {
                        w.last = cur;
                        w.cpu_at = cpu;
                    } else if cpu - w.cpu_at > 60.0 {
                        w.hung = true;
                        let _ = w.child.kill();
                        w.status = w.child.wait().ok();
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        if t0.elapsed().as_secs_f64() > deadline + 240.0 {
            for w in ws.iter_mut() {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            return Err("workers did not finish in time (watchdog)".to_string());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut best: Option<(u64, String, Vec<(String, String)>)> = None;
    let mut err = None;
    for w in ws.iter_mut() {
        let st = w.status.unwrap();
        let died = w.hung || st.signal().is_some() || !matches!(st.code(), Some(0..=2));
        if died {
            let case = read_progress(&w.dir);
            let why = format!("hung={} status={:?} stderr={}", w.hung, st, tail(&format!("{}.err", w.dir)));
            let Some(case) = case else {
                err = Some(format!("worker died before its first case: {}", why));
                continue;
            };
            // confirm by running that case alone
            let dir = format!("{}-confirm", w.dir);
            let mut c = spawn_worker(p, par, 0, 1, 0, 0.0, &dir, Some(case));
            let t1 = Instant::now();
            let st2 = loop {
                match c.try_wait() {
                    Ok(Some(s)) => break Some(s),
                    _ => {
                        if t1.elapsed().as_secs() > 400 {
                            let _ = c.kill();
                            let _ = c.wait();
                            break None;
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                }
            };
            match st2 {
                Some(s) if s.signal().is_some() => {
                    let what = format!("process died by signal {} ({}) on case {}: {}", s.signal().unwrap(), if w.hung { "cpu time exhausted" } else { "crash" }, case, tail(&format!("{}.err", dir)));
                    let mut inputs = vec![];
                    for e in fs::read_dir(&dir).into_iter().flatten().flatten() {
                        if e.file_name().to_string_lossy().starts_with("input") {
                            if let Ok(t) = fs::read_to_string(e.path()) {
                                inputs.push((e.file_name().to_string_lossy().to_string(), t));
                            }
                        }
                    }
                    if best.as_ref().is_none_or(|b| case < b.0) {
                        best = Some((case, what, inputs));
                    }
                }
                _ => {
                    // the case may still report on its own
                    if let Some(r) = read_out(&dir, par) {
                        if let Some(v) = r.viol {
                            best = Some(v);
                            continue;
                        }
                    }
                    err = Some(format!("worker died, not reproduced alone (case {}): {}", case, why));
                }
            }
            continue;
        }
        match read_out(&w.dir, par) {
            None => err = Some(format!("no result from worker: {:?} {}", st, tail(&format!("{}.err", w.dir)))),
            Some(r) => {
                if let Some(h) = r.harness {
                    err = Some(format!("harness failure in case {}: {}", h.0, h.1));
                }
                if let Some(v) = r.viol {
                    if best.as_ref().is_none_or(|b| v.0 < b.0) {
                        best = Some(v);
                    }
                }
            }
        }
    }
    match (best, err) {
        (Some(b), _) => Ok(Some(b)),
        (None, Some(e)) => Err(e),
        (None, None) => Ok(None),
    }
}

fn tail(path: &str) -> String {
    let s = fs::read(path).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let t: Vec<char> = s.chars().collect();
    t[t.len().saturating_sub(500)..].iter().collect::<String>().replace('\n', " | ")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || matches!(c as u32, 0x2028 | 0x2029 | 0xfeff) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    let scratch = format!("{}/lima-{}-{}", std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into()), p.id, std::process::id());
    fs::create_dir_all(&scratch).expect("scratch");
    let mut par = Parent {
        id: p.id,
        seed,
        thorough,
        scratch: scratch.clone(),
        verif: verif.clone(),
        counts: BTreeMap::new(),
        samples: vec![],
        distinct: HashSet::new(),
        evaluations: 0,
        known: vec![],
        notes: vec![],
        inconclusive: None,
        inputs: vec![],
    };
    let cases = if thorough { p.thorough } else { p.quick };
    let deadline = std::env::var("LIMA_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 480.0 } else { 60.0 });
    let mut verdict: Result<Option<(u64, String, Vec<(String, String)>)>, String> = shards(p, &mut par, cases, deadline);
    if let (Ok(None), Some(after)) = (&verdict, p.after) {
        install_hook();
        match guarded(|| after(&mut par)) {
            Outcome::Ok => {
                if let Some(e) = par.inconclusive.take() {
                    verdict = Err(e);
                }
            }
            Outcome::Violation(m) => verdict = Ok(Some((u64::MAX, m, std::mem::take(&mut par.inputs)))),
            Outcome::Harness(m) => verdict = Err(m),
        }
    }
    if let Ok(None) = &verdict {
        for m in p.must {
            if par.counts.get(*m).copied().unwrap_or(0) == 0 {
                verdict = Err(format!("nothing observed for {}", m));
            }
        }
        if par.evaluations == 0 {
            verdict = Err("no case was run".to_string());
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    let (code, nviol) = match &verdict {
        Ok(None) => (0, 0),
        Ok(Some(_)) => (1, 1),
        Err(_) => (2, 0),
    };
    if par.samples.is_empty() {
        par.samples.push("(none)".into());
    }
    // evidence
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json_str(p.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        par.evaluations,
        par.distinct.len(),
        json_str(p.rule)
    ));
    ev.push_str("  \"observed\": {");
    ev.push_str(&par.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"samples\": [");
    ev.push_str(&par.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    ev.push_str("]\n },\n");
    ev.push_str(&format!(
        " \"assumptions\": [{}],\n",
        par.notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
    ));
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), nviol));
    let evdir = format!("{}/evidence", verif);
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(format!("{}/{}.json", evdir, p.id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for k in &par.known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    match verdict {
        Ok(None) => println!(
            "{} held: {} cases, {} distinct non-trivial, {:.1} s; observed {:?}",
            p.id,
            par.evaluations,
            par.distinct.len(),
            t0.elapsed().as_secs_f64(),
            par.counts
        ),
        Ok(Some((case, what, inputs))) => {
            let rd = format!("{}/replays", verif);
            let _ = fs::create_dir_all(&rd);
            let path = format!("{}/{}-{}-{}.txt", rd, p.id, seed, if case == u64::MAX { "after".to_string() } else { case.to_string() });
            let mut f = fs::File::create(&path).expect("replay");
            let _ = writeln!(
                f,
                "property {}\nseed {}\ntier {}\ncase {}\nreplay with: {} replay {}\n\n{}\n",
                p.id,
                seed,
                if thorough { "thorough" } else { "quick" },
                if case == u64::MAX { "after".to_string() } else { case.to_string() },
                Parent::exe().display(),
                path,
                what
            );
            for (n, t) in inputs {
                let _ = writeln!(f, "===== {} =====\n{}", n, t);
            }
            println!("{}: {}", p.id, what.chars().take(2000).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        Err(e) => {
            println!("{} INCONCLUSIVE: {}", p.id, e);
            eprintln!("{} INCONCLUSIVE: {}", p.id, e);
        }
    }
    code
}

/// Re-run one case in this process and show what happened.
pub fn replay(props: &'static [Prop], path: &str) -> i32 {
    let s = fs::read(path).map(|b| String::from_utf8_lossy(&b).to_string()).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{} ", k))).unwrap_or("").to_string();
    let (id, seed, case) = (get("property"), get("seed"), get("case"));
    let Ok(case) = case.parse::<u64>() else {
        println!("not a generated case; see the text of {}", path);
        return 2;
    };
    let p = props.iter().find(|p| p.id == id).expect("property");
    let dir = format!("/tmp/lima-replay-{}", std::process::id());
    let code = worker(
        p,
        WorkerArgs {
            seed: seed.parse().unwrap_or(1),
            thorough: get("tier") == "thorough",
            k: 0,
            n: 1,
            cases: 0,
            deadline: 0.0,
            dir: dir.clone(),
            only: Some(case),
        },
    );
    println!("{}", fs::read_to_string(format!("{}/out", dir)).unwrap_or_default());
    let _ = fs::remove_dir_all(&dir);
    code
}
