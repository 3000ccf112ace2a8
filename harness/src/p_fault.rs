//! C23: what cannot be read is reported, and never taken for a shorter ledger.
//! Faults are injected into the system calls of a process of its own, by strace.
use crate::dump;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, Report};
use std::collections::BTreeSet;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// the process under observation
pub fn child(path: &str) -> i32 {
    let s = match BeancountSources::try_from(std::path::PathBuf::from(path)) {
        Ok(s) => s,
        Err(e) => {
            println!("LOAD {}", e);
            return 0;
        }
    };
    let p = BeancountParser::new(&s);
    match p.parse() {
        Ok(_) => println!("OK"),
        Err(e) => {
            println!("ERR");
            for x in &e.errors {
                let rs = s.resolve_span(&x.span());
                println!("E\t{}\t{}\t{}\t{}", rs.file_name.unwrap_or("?"), rs.start_line, x.message().escape_debug(), x.reason().escape_debug());
            }
        }
    }
    println!("---");
    print!("{}", dump::outcome(&s, &p, false));
    0
}

struct F {
    name: String,
    parent: usize,
    /// lines of its parent where it is included
    lines: Vec<usize>,
    text: String,
}

fn body(r: &mut Rng, f: &mut F, id: &mut usize, faulty: bool) {
    for _ in 0..r.below(4) {
        *id += 1;
        match r.below(5) {
            0 => f.text.push_str(&format!("2024-01-{:02} open Assets:A{}\n", 1 + *id % 28, id)),
            1 => f.text.push_str(&format!("2024-01-{:02} * \"t{}\"\n  Assets:A  1 USD\n  Assets:B\n", 1 + *id % 28, id)),
            // with something well formed after it, for the parser to go on from
            2 if faulty => f.text.push_str(&format!("2024-01-01 bogus{} Assets:A\n2024-01-02 close Assets:A\n", id)),
            _ => f.text.push_str(&format!("2024-01-{:02} note Assets:A \"n{} é\"\n", 1 + *id % 28, id)),
        }
    }
    if r.pct(6) {
        // more than a buffer or a pipe holds at once
        let n = *r.pick(&[60, 150, 150, 300, 1500]);
        for _ in 0..n {
            *id += 1;
            f.text.push_str(&format!("2024-02-01 note Assets:A \"long {} 银行\"\n", id));
        }
    }
}

fn lines(t: &str) -> usize {
    t.matches('\n').count()
}

#[derive(PartialEq, Debug)]
enum Out {
    Load,
    Ok,
    Err(BTreeSet<(String, usize, String)>),
}

fn parse_out(t: &str) -> Option<Out> {
    let mut ls = t.lines();
    match ls.next()? {
        "OK" => Some(Out::Ok),
        "ERR" => Some(Out::Err(
            ls.take_while(|l| *l != "---")
                .filter_map(|l| {
                    let v: Vec<&str> = l.split('\t').collect();
                    Some((v.get(1)?.to_string(), v.get(2)?.parse().ok()?, format!("{}: {}", v.get(3)?, v.get(4).unwrap_or(&""))))
                })
                .collect(),
        )),
        l if l.starts_with("LOAD") => Some(Out::Load),
        _ => None,
    }
}

fn run(args: &[String], root: &str) -> Option<String> {
    let exe = crate::sup::Parent::exe();
    let mut c = if args.is_empty() {
        Command::new(&exe)
    } else {
        let mut c = Command::new("strace");
        c.args(args).arg(&exe);
        c
    };
    let out = c.arg("faulted").arg(root).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("run");
    if out.status.code() != Some(0) {
        return None;
    }
    Some(String::from_utf8_lossy(&out.stdout).to_string())
}

const ERRNOS: &[&str] = &["EIO", "ENOMEM", "EISDIR", "EBADF", "ESTALE", "EINVAL", "EAGAIN", "ETIMEDOUT"];
const OPEN_ERRNOS: &[&str] = &["EACCES", "EMFILE", "ENFILE", "EIO", "EPERM", "ENOMEM", "ENOENT", "ELOOP", "ESTALE"];

pub fn c23(ctx: &mut Ctx, r: &mut Rng) -> R {
    let _ = std::env::set_current_dir("/");
    let base = ctx.fresh_dir();
    let faulty = r.pct(40);
    let n = r.range(1, 6);
    let mut id = 0;
    let mut fs: Vec<F> = (0..n).map(|i| F { name: if i == 0 { "root.beancount".into() } else { format!("{}f{}.beancount", r.pick(&["", "d/", "e é/"]), i) }, parent: if i == 0 { 0 } else { r.below(i) }, lines: vec![], text: String::new() }).collect();
    for i in 0..n {
        let mut f = F { name: String::new(), parent: 0, lines: vec![], text: String::new() };
        body(r, &mut f, &mut id, faulty);
        for k in i + 1..n {
            if fs[k].parent != i {
                continue;
            }
            for _ in 0..if r.pct(10) { 2 } else { 1 } {
                let at = lines(&f.text) + 1;
                fs[k].lines.push(at);
                let how = if r.pct(25) { fs[k].name.replace(".beancount", ".bean*") } else { fs[k].name.clone() };
                f.text.push_str(&format!("include \"{}/{}\"\n", base, how));
            }
            body(r, &mut f, &mut id, faulty);
        }
        if r.pct(20) {
            f.text.pop();
        }
        fs[i].text = f.text;
    }
    let path = |i: usize| format!("{}/{}", base, fs[i].name);
    for d in ["d", "e é"] {
        std::fs::create_dir_all(format!("{}/{}", base, d)).expect("mkdir");
    }
    for (i, f) in fs.iter().enumerate() {
        std::fs::write(path(i), &f.text).expect("write");
        ctx.input(&f.name, &f.text);
    }
    let Some(t0) = run(&[], &path(0)) else {
        ctx.count("crashed (decided elsewhere)");
        return Ok(());
    };
    let (Some(o0), false) = (parse_out(&t0), t0.starts_with("LOAD")) else {
        ctx.count("not loaded (decided elsewhere)");
        return Ok(());
    };
    ctx.count(if o0 == Out::Ok { "well formed" } else { "malformed" });
    let known: BTreeSet<(String, usize, String)> = match &o0 {
        Out::Err(e) => e.clone(),
        _ => BTreeSet::new(),
    };
    for _ in 0..3 {
        let k = if r.pct(25) { 0 } else { r.below(n) };
        let target = path(k);
        if r.pct(20) {
            pipe(ctx, r, &base, &target, &fs[k].text, &path(0), &t0)?;
            continue;
        }
        let log = format!("{}.trace", base);
        let (calls, errno, when, harmless) = match r.below(10) {
            0..=1 => ("read,pread64,readv", "EINTR", if r.pct(50) { "1".into() } else { format!("{}..{}", 1, r.range(1, 4)) }, true),
            2 => ("openat,open,openat2", "EINTR", "1".to_string(), true),
            3..=5 => ("openat,open,openat2", *r.pick(OPEN_ERRNOS), "1+".to_string(), false),
            _ => ("read,pread64,readv", *r.pick(ERRNOS), r.pick(&["1", "1+", "2", "2+"]).to_string(), false),
        };
        let args: Vec<String> = ["-f", "--seccomp-bpf", "-qq", "-o", &log, "-P", &target, "-e", &format!("trace={}", calls), "-e", &format!("inject={}:error={}:when={}", calls, errno, when), "-e", "signal=none"].iter().map(|s| s.to_string()).collect();
        let res = run(&args, &path(0));
        let trace = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).to_string();
        let _ = std::fs::remove_file(&log);
        let hits = trace.matches("(INJECTED)").count();
        let what = format!("{} failing with {} ({}) for {}", calls, errno, when, fs[k].name);
        ctx.input("fault", &what);
        let Some(t1) = res else {
            return Err(format!("{}: the process dies", what));
        };
        if hits == 0 || harmless {
            if t1 != t0 {
                return Err(format!("{}: {}, and the result differs: {}", what, if hits == 0 { "nothing failed" } else { "an interrupted call has to be made again" }, t1.lines().take(3).collect::<Vec<_>>().join(" | ")));
            }
            ctx.count(if hits == 0 { "faults that came too late" } else { "interrupted calls made again" });
            continue;
        }
        let Some(o1) = parse_out(&t1) else {
            return Err(format!("{}: no result: {:?}", what, t1.lines().next()));
        };
        if k == 0 {
            if o1 != Out::Load {
                return Err(format!("{}: the root file could not be read, and the ledger loads", what));
            }
            ctx.count("root not readable: reported by loading");
            continue;
        }
        let e1 = match o1 {
            Out::Err(e) => e,
            Out::Ok => return Err(format!("{}: a file could not be read, and parsing succeeds", what)),
            Out::Load => return Err(format!("{}: an included file could not be read, and nothing is loaded", what)),
        };
        let at = |e: &(String, usize, String)| same(&e.0, &path(fs[k].parent)) && fs[k].lines.contains(&e.1);
        if !e1.iter().any(at) {
            return Err(format!("{}: no error at the include line; {:?}", what, e1.iter().take(3).collect::<Vec<_>>()));
        }
        // what lies in the file and below it isn't there
        let mut below = vec![false; n];
        below[k] = true;
        for i in 1..n {
            below[i] |= i != k && below[fs[i].parent];
        }
        let gone = |e: &(String, usize, String)| (0..n).any(|i| below[i] && same(&e.0, &path(i)));
        if let Some(e) = known.iter().find(|e| !gone(e) && !e1.contains(*e)) {
            return Err(format!("{}: another error is no longer reported: {:?}", what, e));
        }
        if let Some(e) = e1.iter().find(|e| !known.contains(*e) && !at(e)) {
            return Err(format!("{}: an error elsewhere: {:?}", what, e));
        }
        ctx.count(if calls.starts_with("read") { "include not readable: reported at its line" } else { "include not to be opened: reported at its line" });
        if when.starts_with('2') {
            ctx.count("failed after the first read");
        }
        if known.iter().any(|e| !gone(e)) {
            ctx.count("other errors still reported");
        }
    }
    ctx.nontrivial(&fs.iter().map(|f| format!("{}\n{}", f.name, f.text)).collect::<String>());
    ctx.sample(&fs[0].text);
    Ok(())
}

fn same(a: &str, b: &str) -> bool {
    a == b || matches!((std::fs::canonicalize(a), std::fs::canonicalize(b)), (Ok(x), Ok(y)) if x == y)
}

/// the same content, arriving through a pipe in pieces
fn pipe(ctx: &mut Ctx, r: &mut Rng, base: &str, target: &str, text: &str, root: &str, t0: &str) -> R {
    std::fs::remove_file(target).expect("rm");
    let ok = Command::new("mkfifo").arg(target).status().is_ok_and(|s| s.success());
    assert!(ok, "mkfifo");
    let done = AtomicBool::new(false);
    let chunk = *r.pick(&[1usize, 7, 100, 4096, 65536]);
    let chunk = chunk.max(text.len() / 400);
    ctx.input("fault", &format!("{} is a pipe, content in pieces of {}", target, chunk));
    let exe = crate::sup::Parent::exe();
    let (out, wrote) = std::thread::scope(|sc| {
        let w = sc.spawn(|| {
            use std::os::unix::fs::OpenOptionsExt;
            // O_NONBLOCK, so as not to wait for a reader who never comes
            let mut f = loop {
                if done.load(Relaxed) {
                    return false;
                }
                match std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(target) {
                    Ok(f) => break f,
                    Err(_) => std::thread::sleep(std::time::Duration::from_micros(200)),
                }
            };
            for c in text.as_bytes().chunks(chunk) {
                let mut c = c;
                while !c.is_empty() {
                    match f.write(c) {
                        Ok(n) => c = &c[n..],
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock && !done.load(Relaxed) => std::thread::sleep(std::time::Duration::from_micros(100)),
                        Err(_) => return false,
                    }
                }
                std::thread::yield_now();
            }
            true
        });
        let out = Command::new("timeout").args(["-s", "KILL", "20"]).arg(&exe).arg("faulted").arg(root).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("run");
        done.store(true, Relaxed);
        (out, w.join().unwrap_or(false))
    });
    std::fs::remove_file(target).expect("rm");
    std::fs::write(target, text).expect("write");
    let _ = base;
    if !out.status.success() {
        return Err(format!("{} is a pipe: the process ends with {:?}", target, out.status));
    }
    let t1 = String::from_utf8_lossy(&out.stdout).to_string();
    if t1 != t0 {
        return Err(format!("{} arrives through a pipe in pieces of {} bytes, and the result differs: {}", target, chunk, t1.lines().take(3).collect::<Vec<_>>().join(" | ")));
    }
    if wrote {
        ctx.count("files arriving in pieces");
    }
    Ok(())
}
