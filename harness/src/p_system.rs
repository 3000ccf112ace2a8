//! System calls of loading and parsing, seen by strace.
use crate::dump;
use crate::emit::*;
use crate::model::*;
use crate::p_files::{Extra, World};
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, ErrorKind, SyntheticSources};
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};

const MARK: &str = "/lima-no-such-place/";

fn mark(what: &str) {
    let _ = std::fs::symlink_metadata(format!("{}{}", MARK, what));
}

/// the process under observation
pub fn child(path: &str, cwd: &str, inline: bool) -> i32 {
    let text = if inline { std::fs::read_to_string(path).expect("root") } else { String::new() };
    std::env::set_current_dir(cwd).expect("cwd");
    mark("load");
    let s = if inline {
        BeancountSources::from(text)
    } else {
        match BeancountSources::try_from(std::path::PathBuf::from(path)) {
            Ok(s) => s,
            Err(_) => {
                mark("end");
                return 1;
            }
        }
    };
    mark("parse");
    let p = BeancountParser::new(&s);
    let t = dump::outcome(&s, &p, true);
    let mut sink = vec![];
    match p.parse() {
        Ok(ok) => {
            let mut syn = SyntheticSources::new(&s);
            for d in &ok.directives {
                let x = syn.create_synthetic_span("made", &d.to_string());
                let _ = syn.resolve_span(&x);
                let _ = syn.write_report::<_, ErrorKind, _>(&mut sink, &d.error("x"));
            }
            let _ = s.write_errors_or_warnings(&mut sink, ok.warnings);
        }
        Err(e) => {
            let _ = s.write_errors_or_warnings(&mut sink, e.errors);
        }
    }
    let c = s.clone();
    let _ = format!("{:?}{}", c, t.len());
    drop(c);
    mark("end");
    0
}

/// "..." with the escapes strace writes, from position i just after the quote
fn unquote(l: &[u8], mut i: usize, close: u8) -> (Vec<u8>, usize) {
    let mut o = vec![];
    while i < l.len() && l[i] != close {
        if l[i] == b'\\' && i + 1 < l.len() {
            i += 1;
            match l[i] {
                b'n' => o.push(b'\n'),
                b't' => o.push(b'\t'),
                b'r' => o.push(b'\r'),
                b'f' => o.push(12),
                b'v' => o.push(11),
                b'0'..=b'7' => {
                    let mut v = 0u32;
                    let mut n = 0;
                    while n < 3 && i < l.len() && (b'0'..=b'7').contains(&l[i]) {
                        v = v * 8 + (l[i] - b'0') as u32;
                        i += 1;
                        n += 1;
                    }
                    o.push(v as u8);
                    continue;
                }
                c => o.push(c),
            }
            i += 1;
        } else {
            o.push(l[i]);
            i += 1;
        }
    }
    (o, i)
}

struct Call {
    name: String,
    /// first path given
    path: String,
    /// whole line
    line: String,
    /// of what was opened, when it was
    opened: Option<String>,
}

fn calls(trace: &[u8]) -> Vec<Call> {
    let mut v = vec![];
    for l in trace.split(|b| *b == b'\n') {
        // pid of -f
        let mut l = l;
        if let Some(k) = l.iter().position(|b| *b == b' ') {
            if k > 0 && l[..k].iter().all(|b| b.is_ascii_digit()) {
                l = &l[k..];
                while l.first() == Some(&b' ') {
                    l = &l[1..];
                }
            }
        }
        let Some(k) = l.iter().position(|b| *b == b'(') else { continue };
        let name = String::from_utf8_lossy(&l[..k]).to_string();
        if name.is_empty() || !name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') {
            continue;
        }
        let path = match l.iter().position(|b| *b == b'"') {
            Some(q) => String::from_utf8_lossy(&unquote(l, q + 1, b'"').0).to_string(),
            None => String::new(),
        };
        let line = String::from_utf8_lossy(l).to_string();
        // ") = 3</path>"
        let opened = l.windows(4).rposition(|w| w == b") = ").and_then(|e| {
            let rest = &l[e + 4..];
            let d = rest.iter().take_while(|b| b.is_ascii_digit()).count();
            (d > 0 && rest.get(d) == Some(&b'<')).then(|| String::from_utf8_lossy(&unquote(rest, d + 1, b'>').0).to_string())
        });
        v.push(Call { name, path, line, opened });
    }
    v
}

/// reading only: whatever else is done to files, processes or the network counts
const HARMLESS: &[&str] = &[
    "stat", "lstat", "newfstatat", "fstatat64", "statx", "access", "faccessat", "faccessat2", "readlink", "readlinkat", "getcwd", "open", "openat", "openat2", "fstat", "statfs", "fstatfs", "getdents64", "getdents", "clone", "clone3", "wait4",
    "exit", "exit_group", "listxattr", "getxattr", "inotify_add_watch", "rt_sigaction", "name_to_handle_at",
];

pub fn c19(ctx: &mut Ctx, r: &mut Rng) -> R {
    let _ = std::env::set_current_dir("/");
    let base = ctx.fresh_dir();
    let g = Gen { unicode: r.pct(40), expr_depth: 0, max_items: 1, pragmas: false, dates: 3, long_strings: r.pct(10), kinds: vec![] };
    let inline = r.pct(15);
    let faults = if r.pct(40) { 0 } else { 70 };
    let mut w = World::new(&g, &base, inline, r.pct(60), faults, *r.pick(&[1, 3, 6, 12]));
    w.fill(r, 0, 0, false);
    // files nobody asks for, and things in directives which are names of files
    let mut others: Vec<String> = vec![];
    for n in ["other.beancount", "d1/f9.beancount", "include.bean", "doc.pdf", "é银/none.beancount", "plug.py", ".root.beancount.picklecache"] {
        if r.pct(40) && !w.extra.iter().any(|e| e.0 == n) {
            w.extra.push((n.into(), Extra::Bytes(b"2024-01-01 open Assets:Nobody\n".to_vec())));
            others.push(n.into());
        }
    }
    // what might be taken for a file that cannot be read
    let mut near: Vec<String> = vec![];
    for (i, _, _) in &w.bad {
        let path = &w.files[*i].path;
        let lead = path.rsplit_once('/').map(|(d, _)| format!("{}/", d)).unwrap_or_default();
        let lead = if inline && *i == 0 { String::new() } else { lead };
        for n in ["missing", "missing.bean", "missing.beancount.beancount", "Missing.beancount", "adir.beancount", "adir.bean", "adir/main.beancount", "adir/index.beancount", "adir/adir", "bin", "bin.bean", "broken", "broken.beancount", "loop.beancount", "afile.beancount", "nodir.beancount"] {
            let p = format!("{}{}", lead, n);
            if r.pct(30) && !near.contains(&p) && !w.taken(&p) {
                near.push(p);
            }
        }
    }
    ctx.add("files near one that cannot be read", near.len() as u64);
    for p in near {
        w.extra.push((p, Extra::Bytes(b"2024-01-01 open Assets:Nobody\n".to_vec())));
    }
    for n in &others {
        let at = r.below(w.files.len());
        let l = format!("{}/{}", base, n);
        let it = match r.below(6) {
            0 => Item::Raw(format!("2024-01-01 document Assets:A \"{}\"\n", l)),
            1 => Item::Raw(format!("plugin \"{}\"\n", n)),
            2 => Item::Raw(format!("option \"documents\" \"{}\"\n", l)),
            3 => Item::Raw(format!("; include \"{}\"\n", n)),
            4 => Item::Raw(format!("2024-01-01 note Assets:A \"include '{}'\"\n", n)),
            _ => Item::Raw(format!("2024-01-01 note Assets:A \"\n; include {} \n\"\n", n)),
        };
        w.files[at].items.push(it);
    }
    let style = Style::canonical();
    let files: Vec<EFile> = w.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    // a root that is not there, others being near
    let absent = !inline && r.pct(6);
    if absent {
        for n in ["rooted.beancount", "rooted.bean", "Rooted", "rooted~", "rooted.txt"] {
            w.extra.push((n.into(), Extra::Bytes(b"2024-01-01 open Assets:Nobody\n".to_vec())));
        }
        if r.pct(30) {
            w.extra.push(("rooted/main.beancount".into(), Extra::Bytes(b"2024-01-01 open Assets:Nobody\n".to_vec())));
        }
    }
    w.write(&files);
    let (mut path, mut cwd) = (format!("{}/root.beancount", base), "/".to_string());
    if inline {
        path = format!("{}.text", base);
        std::fs::write(&path, &files[0].text).expect("write");
    } else if absent {
        path = format!("{}/{}", base, r.pick(&["rooted", "rooted.", "rooted.beancoun", "rooted.b"]));
    } else {
        path = w.root(r);
        cwd = std::env::current_dir().expect("cwd").to_string_lossy().to_string();
        let _ = std::env::set_current_dir("/");
    }
    ctx.input("world", &w.extra.iter().map(|(p, e)| format!("{} {}\n", p, match e { Extra::Bytes(b) => format!("{} bytes", b.len()), Extra::Dir => "dir".into(), Extra::Link(t) => format!("-> {}", t) })).collect::<String>());
    let stamp = |p: &str| std::fs::symlink_metadata(p).ok().map(|m| (m.len(), m.modified().ok(), m.permissions().readonly(), m.file_type().is_symlink()));
    let listing = |d: &str| {
        let mut v = BTreeMap::new();
        let mut todo = vec![d.to_string()];
        while let Some(x) = todo.pop() {
            v.insert(x.clone(), stamp(&x));
            if std::fs::symlink_metadata(&x).is_ok_and(|m| m.is_dir()) {
                for e in std::fs::read_dir(&x).into_iter().flatten().flatten() {
                    todo.push(e.path().to_string_lossy().to_string());
                }
            }
        }
        v
    };
    let before = listing(&base);
    let log = format!("{}.trace", base);
    let out = Command::new("strace")
        .args(["-f", "-y", "-qq", "-s", "8192", "--seccomp-bpf", "-e", "trace=%file,%network,%process,ftruncate,fchmod,fchown,fsetxattr,futimesat,memfd_create,mount,ptrace,process_vm_writev,sendfile,copy_file_range,fallocate,flock,fsync", "-e", "signal=none", "-o", &log])
        .arg(crate::sup::Parent::exe())
        .arg("traced")
        .arg(&path)
        .arg(&cwd)
        .arg(if inline { "inline" } else { "file" })
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("strace");
    let trace = std::fs::read(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let v = calls(&trace);
    let pos = |m: &str| v.iter().position(|c| c.path == format!("{}{}", MARK, m));
    let (Some(a), Some(z)) = (pos("load"), pos("end")) else {
        if out.status.code() == Some(101) || out.status.code().is_none() {
            // a crash is decided by C01
            ctx.count("crashed");
            return Ok(());
        }
        panic!("no marks in the trace: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr));
    };
    let m = match pos("parse") {
        Some(_) if absent => return Err(format!("{} is loaded, though there is none", path)),
        None if absent => {
            ctx.count("no root to load");
            z
        }
        Some(m) => m,
        None => return Err(format!("{} is not loaded", path)),
    };
    // what may be read
    let real = |p: &str| format!("{}/{}", base, p);
    let mut due: BTreeSet<String> = files.iter().skip(inline as usize).map(|f| real(&f.path)).collect();
    for (p, e) in &w.extra {
        if matches!(e, Extra::Bytes(_)) && ["bin.beancount", "latin.beancount"].contains(&p.rsplit('/').next().unwrap_or("")) {
            due.insert(real(p));
        }
    }
    if absent {
        due.clear();
    }
    let mut times: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, c) in v.iter().enumerate().take(z).skip(a + 1) {
        if i == m {
            continue;
        }
        let when = if i < m { "loading" } else { "parsing" };
        ctx.count(&format!("system calls seen while {}", when));
        if !HARMLESS.contains(&c.name.as_str()) {
            if ["chdir", "fchdir"].contains(&c.name.as_str()) {
                ctx.count("changes of directory");
                continue;
            }
            return Err(format!("while {}: {}", when, c.line));
        }
        if c.name.starts_with("clone") && !c.line.contains("CLONE_THREAD") {
            return Err(format!("while {}, a process: {}", when, c.line));
        }
        if c.name.starts_with("open") {
            if ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"].iter().any(|f| c.line.contains(f)) {
                return Err(format!("while {}, opened for more than reading: {}", when, c.line));
            }
            let Some(o) = &c.opened else {
                ctx.count("opens that failed");
                continue;
            };
            if c.line.contains("O_DIRECTORY") || c.line.contains("O_PATH") {
                ctx.count("directories listed");
                continue;
            }
            if ["/proc/", "/sys/", "/dev/"].iter().any(|p| o.starts_with(p)) {
                ctx.count("opened of the system");
                continue;
            }
            if std::path::Path::new(o).is_dir() {
                ctx.count("directories opened");
                continue;
            }
            if i > m {
                return Err(format!("opened again while parsing: {}", c.line));
            }
            if !due.contains(o) {
                return Err(format!("opened although no include reaches it: {}", c.line));
            }
            let n = times.entry(o).or_insert(0);
            *n += 1;
            if *n > 1 {
                return Err(format!("opened twice: {}", c.line));
            }
            ctx.count("files opened");
        }
    }
    for d in &due {
        if !times.contains_key(d.as_str()) {
            return Err(format!("never opened: {}", d));
        }
    }
    let after = listing(&base);
    if before != after {
        let k = before.iter().find(|(k, v)| after.get(*k) != Some(v)).map(|x| x.0).or_else(|| after.keys().find(|k| !before.contains_key(*k)));
        return Err(format!("the files are no longer what they were: {:?}", k));
    }
    ctx.add("files left alone", (before.len() - due.len().min(before.len())) as u64);
    if inline {
        ctx.count("inline root");
    }
    if files.len() > 1 {
        ctx.count("ledgers over several files");
        ctx.nontrivial(&files.iter().map(|f| format!("{}\n{}", f.path, f.text)).collect::<String>());
        ctx.sample(&files[0].text);
    }
    Ok(())
}
