//! No input makes the library panic, abort or hang.
use crate::dump;
use crate::p_any::*;
use crate::p_scale::{FAMILIES, TREES};
use crate::rng::Rng;
use crate::sup::{Ctx, Parent, R};
use beancount_parser_lima as lima;
use lima::{spanned, BeancountParser, BeancountSources, ErrorKind, ParseError, ParseSuccess, Report, Span, SyntheticSources, WarningKind};
use std::fmt::Write as _;
use std::io::Write;

/// a writer that fails after so many bytes
struct Failing(usize);
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::other("full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.0 == 0 {
            Err(std::io::Error::other("full"))
        } else {
            Ok(())
        }
    }
}

struct Custom {
    message: String,
    reason: String,
    span: Span,
    contexts: Vec<(String, Span)>,
    related: Vec<(String, Span)>,
}
impl Report for Custom {
    fn message(&self) -> &str {
        &self.message
    }
    fn reason(&self) -> &str {
        &self.reason
    }
    fn span(&self) -> Span {
        self.span
    }
    fn contexts(&self) -> impl Iterator<Item = (&str, Span)> {
        self.contexts.iter().map(|(l, s)| (l.as_str(), *s))
    }
    fn related(&self) -> impl Iterator<Item = (&str, Span)> {
        self.related.iter().map(|(l, s)| (l.as_str(), *s))
    }
}

fn any_index(r: &mut Rng, len: usize) -> usize {
    match r.below(10) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(3),
        2 => len,
        3 => len + r.below(5),
        4 => 0,
        5 => len.saturating_sub(r.below(4)),
        _ => r.below(len + 1),
    }
}

/// any span whatever: other sources, reversed, inside characters, beyond the end
fn any_span(r: &mut Rng, lens: &[usize]) -> Span {
    let source = match r.below(8) {
        0 => usize::MAX,
        1 => lens.len() + r.below(4),
        2 => usize::MAX - lens.len(),
        _ => r.below(lens.len().max(1)),
    };
    let len = lens.get(source).copied().unwrap_or(20);
    let start = any_index(r, len);
    let end = if r.pct(40) { start.saturating_add(r.below(40)) } else { any_index(r, len) };
    Span { source, start, end }
}

fn any_message(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "one\ntwo\r\nthree".into(),
        2 => {
            let n = r.range(0, 30);
            noise(r, n)
        }
        3 => "\u{1b}[31mred".into(),
        4 => "é银😀\t".repeat(r.range(0, 9)),
        _ => "message".into(),
    }
}

/// everything a user may do with the outcome of a parse
fn exercise(ctx: &mut Ctx, r: &mut Rng, s: &BeancountSources, others: &[Span]) -> Result<Vec<Span>, String> {
    let p = BeancountParser::new(s);
    let mut sink = String::new();
    let mut spans: Vec<Span> = vec![];
    match p.parse() {
        Ok(ParseSuccess { directives, options, plugins, warnings }) => {
            ctx.count("parsed");
            for d in &directives {
                let _ = write!(sink, "{}{:?}", d, d);
                let _ = write!(sink, "{:>20}{:<3}{:.2}", d.item(), d.date(), d.metadata());
                let _ = s.resolve_span(d.span());
                spans.push(*d.span());
            }
            for pl in &plugins {
                let _ = write!(sink, "{}{:?}", pl, pl);
            }
            let _ = write!(sink, "{:?}{:?}", options, dump::options(&options).len());
            for w in &warnings {
                let _ = write!(sink, "{}{:?}{}", w, w, s.error_source_text(w));
                spans.push(w.span());
            }
            s.write_errors_or_warnings(&mut std::io::sink(), warnings).map_err(|e| e.to_string())?;
            ctx.add("directives displayed", directives.len() as u64);
        }
        Err(ParseError { errors, warnings }) => {
            ctx.count("not parsed");
            if errors.is_empty() {
                return Err("parsing failed without any error".into());
            }
            for e in &errors {
                let _ = write!(sink, "{}{:?}{}", e, e, s.error_source_text(e));
                spans.push(e.span());
            }
            for e in &warnings {
                let _ = write!(sink, "{}{:?}{}", e, e, s.error_source_text(e));
            }
            ctx.add("reports rendered", errors.len() as u64);
            #[allow(deprecated)]
            s.write(&mut std::io::sink(), errors).map_err(|e| e.to_string())?;
            s.write_errors_or_warnings(&mut std::io::sink(), warnings).map_err(|e| e.to_string())?;
        }
    }
    sink.clear();
    let rendered = dump::outcome(s, &p, true);
    let _ = write!(sink, "{:?}", s);
    // any span whatever
    let lens = [rendered.len().min(300), 60, 60];
    let mut syn = SyntheticSources::new(s);
    let mut made: Vec<Span> = vec![];
    if r.pct(50) {
        for _ in 0..r.below(5) {
            let name = match r.below(4) {
                0 => String::new(),
                1 => any_message(r),
                2 => "inline".into(),
                _ => format!("gen{}", r.below(2)),
            };
            let text = match r.below(4) {
                0 => String::new(),
                1 => any_message(r),
                2 => " \n\t ".into(),
                _ => {
                    let n = r.range(1, 6);
                    soup(r, n)
                }
            };
            made.push(syn.create_synthetic_span(&name, &text));
            ctx.count("fragments created");
        }
    }
    for k in 0..r.range(1, 5) {
        let mut span = |r: &mut Rng| match r.below(6) {
            0 if !spans.is_empty() => *r.pick(&spans),
            1 if !others.is_empty() => *r.pick(others),
            2 if !made.is_empty() => *r.pick(&made),
            _ => any_span(r, &lens),
        };
        let c = Custom {
            message: any_message(r),
            reason: any_message(r),
            span: span(r),
            contexts: (0..r.below(4)).map(|_| (any_message(r), span(r))).collect(),
            related: (0..r.below(4)).map(|_| (any_message(r), span(r))).collect(),
        };
        let _ = s.resolve_span(&c.span);
        let _ = syn.resolve_span(&c.span);
        let e = spanned(lima::Key::try_from("key").unwrap(), c.span).error(c.message.clone());
        let _ = s.error_source_text(&e);
        let _ = syn.error_source_text(&e);
        let mut v: Vec<u8> = vec![];
        s.write_report::<_, ErrorKind, _>(&mut v, &c).map_err(|e| format!("writing a report to memory failed: {}", e))?;
        let full = v.len();
        syn.write_report::<_, WarningKind, _>(&mut v, &c).map_err(|e| format!("writing a report to memory failed: {}", e))?;
        syn.write_errors_or_warnings(&mut v, vec![e.with_annotation(any_message(r))]).map_err(|e| format!("writing a report to memory failed: {}", e))?;
        ctx.add("reports on any span rendered", 3);
        if k == 0 && full > 0 {
            let room = r.below(full);
            if s.write_report::<_, ErrorKind, _>(&mut Failing(room), &c).is_ok() {
                return Err(format!("a writer failing after {} of {} bytes went unnoticed", room, full));
            }
            ctx.count("failing writers");
        }
    }
    Ok(spans)
}

fn names(ctx: &mut Ctx, r: &mut Rng) {
    let n = r.below(12);
    let s = match r.below(4) {
        0 => noise(r, n),
        1 => soup(r, 1),
        2 => "-".repeat(n),
        _ => {
            let a = noise(r, 1);
            format!("{}{}{}", r.pick(&["A", "a", "Assets:A", "/", "1", ""]), a, r.pick(&["A", "a", ":", "-", "1", ""]))
        }
    };
    let mut o = String::new();
    macro_rules! t {
        ($($t:ty),*) => {$(
            match <$t>::try_from(s.as_str()) {
                Ok(x) => { let _ = write!(o, "{}{:?}", x, x); }
                Err(e) => { let _ = write!(o, "{}{:?}", e, e); }
            }
        )*};
    }
    t!(lima::Currency, lima::AccountName, lima::AccountTypeName, lima::Subaccount, lima::Key, lima::Tag, lima::Link);
    for c in s.chars() {
        match lima::FlagLetter::try_from(c) {
            Ok(x) => {
                let _ = write!(o, "{}", x.char());
            }
            Err(e) => {
                let _ = write!(o, "{}", e);
            }
        }
    }
    let _ = lima::Booking::try_from(s.as_str()).map(|b| o.push_str(&b.to_string()));
    ctx.count("strings given to constructors");
}

pub fn c01(ctx: &mut Ctx, r: &mut Rng) -> R {
    for _ in 0..4 {
        names(ctx, r);
    }
    // many short ones: a single line, bent
    for k in 0..6 {
        let t = if k < 3 { bent_option(r) } else { bent(r, 1) };
        if t.contains("include") {
            continue;
        }
        ctx.input("line", &t);
        let s = BeancountSources::from(t);
        let p = BeancountParser::new(&s);
        if let Err(e) = p.parse() {
            if e.errors.is_empty() {
                return Err("parsing failed without any error".into());
            }
        }
        ctx.count("single lines, bent");
        ctx.inputs.pop();
    }
    let d = ctx.fresh_dir();
    let a = any(r, &d);
    for f in &a.files {
        ctx.input(&f.0, &f.1);
    }
    ctx.count(a.sort);
    let others = if r.pct(20) {
        let o = BeancountSources::from(corpus(r));
        exercise(ctx, r, &o, &[])?
    } else {
        vec![]
    };
    match a.load() {
        Ok(s) => {
            exercise(ctx, r, &s, &others)?;
            if r.pct(10) {
                exercise(ctx, r, &s.clone(), &others)?;
            }
        }
        Err(_) => ctx.count("not loaded"),
    }
    ctx.nontrivial(&a.text());
    ctx.sample(&a.files[0].1);
    Ok(())
}

/// repetition without end: each family in a process of its own
pub fn c01_after(par: &mut Parent) -> R {
    let n = if par.thorough { 200_000 } else { 20_000 };
    let jobs: Vec<(String, usize, String, bool)> = FAMILIES
        .iter()
        .map(|f| (f.0.to_string(), limit(f.0, n), String::new(), f.1))
        .chain(TREES.iter().map(|t| (t.0.to_string(), n / 20, format!("{}/tree-{}", par.scratch, t.0.replace(' ', "-")), t.1)))
        .collect();
    let res = run_children(&jobs, true);
    for ((name, n, _, _), out) in jobs.iter().zip(res) {
        match out {
            Child::Died(why) => return Err(format!("{} of {:?} in one ledger: {}", n, name, why)),
            Child::Stuck => return Err(format!("{} of {:?} in one ledger: not finished after {} s of processor time", n, name, CHILD_CPU)),
            Child::Done(o) => {
                par.add("repetitions survived", *n as u64);
                par.add("families of repetition", 1);
                if !o.contains("as expected true") {
                    par.add("families not parsed as the harness thought", 1);
                    par.notes.push(format!("family {:?}: {}", name, o.trim()));
                }
            }
            Child::Lost(why) => par.inconclusive = Some(format!("{}: {}", name, why)),
        }
    }
    // listed in known-findings.txt: looked at again, reported as known, never counted as fresh
    let listed = std::fs::read_to_string(format!("{}/known-findings.txt", par.verif)).unwrap_or_default();
    for (name, n) in KNOWN {
        let jobs = vec![(name.to_string(), *n, String::new(), true)];
        if let Some(Child::Died(why)) = run_children(&jobs, true).pop() {
            let what = format!("{} of {:?} overflow the stack of 8 MiB", n, name);
            if !listed.lines().any(|l| l.strip_prefix("known: property=C01 ") == Some(&what)) {
                return Err(format!("{} of {:?} in one ledger: {}", n, name, why));
            }
            par.known.push(what);
        }
    }
    Ok(())
}

/// stack overflows of deep expressions, see known-findings.txt
pub const KNOWN: &[(&str, usize)] = &[("terms of a sum", 1_000_000), ("factors of a product", 1_000_000), ("nested parentheses", 1_000_000), ("a long string of other letters", 20_000), ("an account of many parts", 200_000)];

/// below what is known to overflow
pub fn limit(name: &str, n: usize) -> usize {
    match name {
        "nested parentheses" | "terms of a sum" | "factors of a product" | "unclosed parentheses" => n.min(2_000),
        // 15 letters each; without full optimisation the generated lexer calls itself for each of them
        "a long string of other letters" => n.min(300),
        "an account of many parts" => n.min(4_000),
        _ => n,
    }
}

pub enum Child {
    Done(String),
    Died(String),
    Stuck,
    Lost(String),
}
const CHILD_CPU: u64 = 300;

/// run `scale` children, several at a time
pub fn run_children(jobs: &[(String, usize, String, bool)], all: bool) -> Vec<Child> {
    children(jobs, all, CHILD_CPU)
}

pub fn children(jobs: &[(String, usize, String, bool)], all: bool, cpu: u64) -> Vec<Child> {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<Child>>> = jobs.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |x| x.get()).min(8) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                let Some((name, n, dir, _)) = jobs.get(i) else { break };
                if !dir.is_empty() {
                    crate::p_scale::tree(name, *n, dir);
                }
                let mut c = Command::new("prlimit");
                c.arg(format!("--cpu={}", cpu)).arg("--core=0").arg(Parent::exe()).arg("scale").arg(name).arg(n.to_string()).arg(dir);
                if all {
                    c.arg("all");
                }
                let r = match c.stdin(Stdio::null()).stderr(Stdio::piped()).stdout(Stdio::piped()).output() {
                    Err(e) => Child::Lost(e.to_string()),
                    Ok(o) => {
                        let text = String::from_utf8_lossy(&o.stdout).to_string();
                        let err = String::from_utf8_lossy(&o.stderr).to_string();
                        match (o.status.code(), o.status.signal()) {
                            (Some(0), _) => Child::Done(text),
                            (_, Some(24)) => Child::Stuck,
                            (_, Some(9)) => Child::Lost("ended from outside".into()),
                            (_, Some(s)) => Child::Died(format!("died by signal {}: {}", s, err.chars().take(300).collect::<String>())),
                            (c, _) => Child::Died(format!("exit {:?}: {} {}", c, text, err.chars().take(300).collect::<String>())),
                        }
                    }
                };
                if !dir.is_empty() {
                    let _ = std::fs::remove_dir_all(dir);
                }
                *out[i].lock().unwrap() = Some(r);
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap_or(Child::Lost("not run".into()))).collect()
}
