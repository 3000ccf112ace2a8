//! Results are the bytes of the sources themselves, and stay so.
use crate::dump;
use crate::p_any::*;
use crate::rng::Rng;
use crate::sup::{Ctx, Parent, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, DirectiveVariant, ErrorKind, MetaValue, Metadata, ParseSuccess, SimpleValue, Span, Spanned, SyntheticSources};

/// a piece of text in a result: what it is, where it lies in memory, its span
struct Piece<'x> {
    what: &'static str,
    text: &'x str,
    span: Span,
}

struct Pieces<'x> {
    v: Vec<Piece<'x>>,
}

impl<'x> Pieces<'x> {
    fn add(&mut self, what: &'static str, text: &'x str, span: &Span) {
        self.v.push(Piece { what, text, span: *span });
    }
    fn cur(&mut self, c: &'x Spanned<lima::Currency<'_>>) {
        self.add("currency", c.item().as_ref(), c.span());
    }
    fn acc(&mut self, a: &'x Spanned<lima::Account<'_>>) {
        self.add("account", a.item().as_ref(), a.span());
    }
    fn st(&mut self, s: &'x Spanned<&'_ str>) {
        self.add("string", s.item(), s.span());
    }
    fn mv(&mut self, v: &'x Spanned<MetaValue<'_>>) {
        match v.item() {
            MetaValue::Amount(a) => self.cur(a.currency()),
            MetaValue::Simple(SimpleValue::String(s)) => self.add("string value", s, v.span()),
            MetaValue::Simple(SimpleValue::Currency(c)) => self.add("currency value", c.as_ref(), v.span()),
            MetaValue::Simple(SimpleValue::Account(c)) => self.add("account value", c.as_ref(), v.span()),
            MetaValue::Simple(SimpleValue::Tag(c)) => self.add("tag value", c.as_ref(), v.span()),
            MetaValue::Simple(SimpleValue::Link(c)) => self.add("link value", c.as_ref(), v.span()),
            _ => {}
        }
    }
    fn meta(&mut self, m: &'x Metadata<'_>) {
        for (k, v) in m.key_values() {
            self.add("key", k.item().as_ref(), k.span());
            self.mv(v);
        }
        for t in m.tags() {
            self.add("tag", t.item().as_ref(), t.span());
        }
        for t in m.links() {
            self.add("link", t.item().as_ref(), t.span());
        }
    }
    fn all(&mut self, ok: &'x ParseSuccess<'_>) {
        for d in &ok.directives {
            match d.variant() {
                DirectiveVariant::Transaction(t) => {
                    for s in t.payee().into_iter().chain(t.narration()) {
                        self.st(s);
                    }
                    for p in t.postings() {
                        self.acc(p.account());
                        if let Some(c) = p.currency() {
                            self.cur(c);
                        }
                        if let Some(c) = p.cost_spec() {
                            if let Some(x) = c.currency() {
                                self.cur(x);
                            }
                            if let Some(x) = c.label() {
                                self.st(x);
                            }
                        }
                        if let Some(pr) = p.price_annotation() {
                            use lima::PriceSpec::*;
                            if let BareCurrency(c) | CurrencyAmount(_, c) = pr.item() {
                                self.add("currency of a price", c.as_ref(), pr.span());
                            }
                        }
                        self.meta(p.metadata());
                    }
                }
                DirectiveVariant::Price(p) => {
                    self.cur(p.currency());
                    self.cur(p.amount().currency());
                }
                DirectiveVariant::Balance(b) => {
                    self.acc(b.account());
                    self.cur(b.atol().amount().currency());
                }
                DirectiveVariant::Open(x) => {
                    self.acc(x.account());
                    for c in x.currencies() {
                        self.cur(c);
                    }
                }
                DirectiveVariant::Close(x) => self.acc(x.account()),
                DirectiveVariant::Commodity(x) => self.cur(x.currency()),
                DirectiveVariant::Pad(x) => {
                    self.acc(x.account());
                    self.acc(x.source());
                }
                DirectiveVariant::Document(x) => {
                    self.acc(x.account());
                    self.st(x.path());
                }
                DirectiveVariant::Note(x) => {
                    self.acc(x.account());
                    self.st(x.comment());
                }
                DirectiveVariant::Event(x) => {
                    self.st(x.event_type());
                    self.st(x.description());
                }
                DirectiveVariant::Query(x) => {
                    self.st(x.name());
                    self.st(x.content());
                }
                DirectiveVariant::Custom(x) => {
                    self.st(x.type_());
                    for v in x.values() {
                        self.mv(v);
                    }
                }
            }
            self.meta(d.metadata());
        }
        for p in &ok.plugins {
            self.st(p.module_name());
            if let Some(c) = p.config() {
                self.st(c);
            }
        }
        if let Some(t) = ok.options.title() {
            self.add("title", t.item(), t.span());
        }
        if let Some(c) = ok.options.conversion_currency() {
            self.add("conversion currency", c.item().as_ref(), c.span());
        }
    }
}

const KEYWORDS: &[&str] = &["txn", "open", "close", "balance", "pad", "note", "document", "event", "query", "custom", "price", "commodity", "option", "include", "plugin", "pushtag", "poptag", "pushmeta", "popmeta", "options", "true", "false", "null"];

fn within(p: &Piece, t: &str) -> bool {
    let (a, b) = (p.text.as_ptr() as usize, t.as_ptr() as usize);
    a >= b && a + p.text.len() <= b + t.len()
}

fn elsewhere(s: &BeancountSources, a: &Any, p: &Piece) -> bool {
    (0..a.files.len()).any(|source| a.files.iter().any(|f| within(p, s.resolve_span(&Span { source, start: 0, end: f.1.len() }).content)))
}

fn churn(ctx: &mut Ctx, r: &mut Rng, s: &BeancountSources, p: &BeancountParser) {
    for _ in 0..r.range(1, 3) {
        match r.below(5) {
            0 => {
                let _ = p.parse();
                ctx.count("parsed again while results were held");
            }
            1 => {
                let o = BeancountSources::from(corpus(r));
                let _ = BeancountParser::new(&o).parse();
                ctx.count("parsed something else while results were held");
            }
            2 => {
                let c = s.clone();
                let q = BeancountParser::new(&c);
                let _ = dump::outcome(&c, &q, true);
                drop(q);
                drop(c);
                ctx.count("cloned and dropped while results were held");
            }
            3 => {
                let mut syn = SyntheticSources::new(s);
                for i in 0..r.range(1, 6) {
                    let x = syn.create_synthetic_span(&format!("n{}", i % 2), &"fragment\n".repeat(i));
                    let _ = syn.resolve_span(&x);
                }
                ctx.count("fragments made while results were held");
            }
            _ => {
                std::thread::scope(|sc| {
                    for _ in 0..3 {
                        sc.spawn(|| {
                            let _ = dump::outcome(s, p, true);
                        });
                    }
                });
                ctx.count("threads parsing while results were held");
            }
        }
    }
}

pub fn c14(ctx: &mut Ctx, r: &mut Rng) -> R {
    let d = ctx.fresh_dir();
    let a = any(r, &d);
    for f in &a.files {
        ctx.input(&f.0, &f.1);
    }
    let Ok(s) = a.load() else {
        ctx.count("not loaded");
        return Ok(());
    };
    let p = BeancountParser::new(&s);
    match p.parse() {
        Err(e) => {
            ctx.count("not parsed");
            // what errors refer to is text of the sources as well
            let before: Vec<(usize, String)> = e.errors.iter().map(|x| s.error_source_text(x)).map(|t| (t.as_ptr() as usize, t.to_string())).collect();
            churn(ctx, r, &s, &p);
            for (x, b) in e.errors.iter().zip(&before) {
                let t = s.error_source_text(x);
                if (t.as_ptr() as usize) != b.0 || t != b.1 {
                    return Err(format!("the text of an error moved: {:?}", b.1));
                }
                ctx.count("texts of errors looked at again");
            }
        }
        Ok(ok) => {
            ctx.count("parsed");
            let mut v = Pieces { v: vec![] };
            v.all(&ok);
            for x in &v.v {
                let t = s.resolve_span(&x.span).content;
                let exact = within(x, t);
                if exact {
                    ctx.count(&format!("borrowed: {}", x.what));
                } else if t.contains('\\') && x.what.contains("string") || x.what == "title" && t.contains('\\') {
                    ctx.count("with escapes");
                } else if x.what == "key" && KEYWORDS.contains(&x.text) {
                    ctx.count("keys spelt like keywords");
                } else if x.what == "key" && elsewhere(&s, &a, x) {
                    // of a key pushed several times, each push is as good as the other
                    ctx.count("borrowed from another push of the same key");
                } else if x.text.is_empty() {
                    ctx.count("empty");
                } else {
                    return Err(format!("a {} is not the text of the source but a copy: {:?}", x.what, x.text));
                }
            }
            let kept: Vec<String> = v.v.iter().map(|x| x.text.to_string()).collect();
            churn(ctx, r, &s, &p);
            for (x, k) in v.v.iter().zip(&kept) {
                if x.text != k {
                    return Err(format!("a {} changed while it was held: {:?}", x.what, k));
                }
            }
            let mut v2 = Pieces { v: vec![] };
            v2.all(&ok);
            for (x, y) in v.v.iter().zip(&v2.v) {
                // unordered things may come in another order, never in another place
                if !v2.v.iter().any(|z| z.text.as_ptr() == x.text.as_ptr()) {
                    return Err(format!("a {} moved while it was held: {:?} {:?}", x.what, x.text, y.text));
                }
            }
            ctx.add("texts unchanged while held", kept.len() as u64);
            if let Some(d) = ok.directives.first() {
                let mut w = vec![];
                let _ = s.write_report::<_, ErrorKind, _>(&mut w, &d.error("x"));
            }
            // moving the sources moves no text
            if !v.v.is_empty() {
                ctx.nontrivial(&a.text());
                ctx.sample(&a.files[0].1);
            }
        }
    }
    Ok(())
}

/// the same workloads under the sanitizers
pub fn c14_after(par: &mut Parent) -> R {
    for san in ["asan", "tsan"] {
        let exe = format!("{}/harness/target-{}/x86_64-unknown-linux-gnu/debug/lima-monitor", par.verif, san);
        if !std::path::Path::new(&exe).exists() {
            par.inconclusive = Some(format!("{} is missing", exe));
            return Ok(());
        }
        sanitized(par, san, &exe)?;
    }
    if par.thorough {
        interpreted(par)?;
    }
    Ok(())
}

/// a few small ledgers in the interpreter that knows undefined behaviour
fn interpreted(par: &mut Parent) -> R {
    use std::process::{Command, Stdio};
    let mut kids = vec![];
    for k in 0..8u64 {
        let dir = format!("{}/miri{}", par.scratch, k);
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "-q", "--offline", "--manifest-path"]).arg(format!("{}/harness/Cargo.toml", par.verif));
        c.arg("--target-dir").arg(format!("{}/harness/target-miri", par.verif)).arg("--");
        c.args(["worker", "C14", &par.seed.to_string(), "0", &k.to_string(), "8", "4000", "400", &dir, "-"]);
        c.env("MIRIFLAGS", "-Zmiri-disable-isolation").env("LIMA_NO_RLIMIT", "1").env("LIMA_PERSIST", "1").env("CARGO_NET_OFFLINE", "true");
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
        kids.push((dir, c.spawn().map_err(|e| e.to_string())));
    }
    for (dir, k) in kids {
        let o = match k.and_then(|k| k.wait_with_output().map_err(|e| e.to_string())) {
            Ok(o) => o,
            Err(e) => {
                par.inconclusive = Some(e);
                continue;
            }
        };
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        if err.contains("error: Undefined Behavior") || err.contains("Data race detected") {
            par.inputs = vec![("miri.txt".to_string(), err.chars().take(8000).collect())];
            return Err(err.lines().find(|l| l.contains("Undefined Behavior")).unwrap_or("undefined behaviour").to_string());
        }
        let out = std::fs::read_to_string(format!("{}/out", dir)).unwrap_or_default();
        match out.lines().find_map(|l| l.strip_prefix("done ")).and_then(|x| x.parse::<u64>().ok()) {
            Some(x) => par.add("ledgers worked through under Miri", x),
            None => par.inconclusive = Some(format!("Miri ended with {:?}: {}", o.status, err.chars().take(800).collect::<String>())),
        }
    }
    Ok(())
}

fn sanitized(par: &mut Parent, san: &'static str, exe: &str) -> R {
    use std::process::{Command, Stdio};
    use std::sync::Mutex;
    let secs: f64 = if par.thorough { 240.0 } else { 25.0 };
    let cases: u64 = if par.thorough { 400_000 } else { 6_000 };
    let found: Mutex<Option<(String, Vec<(String, String)>)>> = Mutex::new(None);
    let lost: Mutex<Option<String>> = Mutex::new(None);
    let n = 8u64;
    let done: Mutex<Vec<(String, u64)>> = Mutex::new(vec![]);
    let (seed, scratch) = (par.seed, par.scratch.clone());
    std::thread::scope(|sc| {
        for k in 0..n {
            let (found, lost, done, scratch) = (&found, &lost, &done, &scratch);
            sc.spawn(move || {
                let id = if san == "tsan" {
                    ["C14", "C12"][k as usize % 2]
                } else {
                    ["C14", "C01", "C14", "C15", "C14", "C08", "C14", "C12"][k as usize]
                };
                let dir = format!("{}/{}{}", scratch, san, k);
                let mut c = Command::new(exe);
                c.arg("worker").arg(id).arg(seed.to_string()).arg("0").arg(k.to_string()).arg(n.to_string());
                c.arg(cases.to_string()).arg(secs.to_string()).arg(&dir).arg("-");
                c.env("LIMA_NO_RLIMIT", "1").env("LIMA_PERSIST", "1");
                c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1");
                c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=99:second_deadlock_stack=1");
                c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
                let o = match c.output() {
                    Ok(o) => o,
                    Err(e) => {
                        *lost.lock().unwrap() = Some(e.to_string());
                        return;
                    }
                };
                let err = String::from_utf8_lossy(&o.stderr).to_string();
                let bad = err.contains("ERROR: AddressSanitizer") || err.contains("WARNING: ThreadSanitizer");
                // running out of stack is decided by C01
                if bad && !err.contains("AddressSanitizer: stack-overflow") && !err.contains("ERROR: AddressSanitizer: out of memory") && !err.contains("allocation-size-too-big") {
                    let mut inputs = vec![("sanitizer.txt".to_string(), err.chars().take(6000).collect::<String>())];
                    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                        if e.file_name().to_string_lossy().starts_with("input") {
                            if let Ok(t) = std::fs::read_to_string(e.path()) {
                                inputs.push((e.file_name().to_string_lossy().to_string(), t));
                            }
                        }
                    }
                    let line = err.lines().find(|l| l.contains("Sanitizer:")).unwrap_or("").to_string();
                    *found.lock().unwrap() = Some((line, inputs));
                    return;
                }
                let out = std::fs::read_to_string(format!("{}/out", dir)).unwrap_or_default();
                match out.lines().find_map(|l| l.strip_prefix("done ")).and_then(|x| x.parse::<u64>().ok()) {
                    Some(x) => done.lock().unwrap().push((id.to_string(), x)),
                    None => *lost.lock().unwrap() = Some(format!("{} worker of {} ended with {:?}: {}", san, id, o.status, err.chars().take(800).collect::<String>())),
                }
            });
        }
    });
    for (_, x) in done.into_inner().unwrap() {
        par.add(&format!("ledgers worked through under {}", san), x);
    }
    if let Some((line, inputs)) = found.into_inner().unwrap() {
        par.inputs = inputs;
        return Err(line);
    }
    if let Some(l) = lost.into_inner().unwrap() {
        par.inconclusive = Some(l);
    }
    Ok(())
}
