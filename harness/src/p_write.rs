//! C24: reports are written completely, in order, or the failure to write is returned.
use crate::p_any::any;
use crate::p_report::elements;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{AnnotatedErrorOrWarning, BeancountParser, BeancountSources, ErrorOrWarning, ErrorOrWarningKind, SyntheticSources};
use std::io::{self, ErrorKind, Write};

/// a writer with a will of its own
struct Sink {
    got: Vec<u8>,
    /// at most so many bytes at a time
    chunk: usize,
    /// every so many calls one is interrupted
    interrupt: usize,
    calls: usize,
    /// fails when it would hold more than so many bytes; None is a write of nothing
    fail: Option<(usize, Option<ErrorKind>)>,
    /// and works again afterwards
    recovers: bool,
    failures: usize,
    interrupts: usize,
}

impl Sink {
    fn new() -> Self {
        Sink { got: vec![], chunk: usize::MAX, interrupt: 0, calls: 0, fail: None, recovers: false, failures: 0, interrupts: 0 }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            self.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.chunk);
        if let Some((at, kind)) = self.fail {
            let room = at.saturating_sub(self.got.len());
            if !(self.recovers && self.failures > 0) {
                if room == 0 && n > 0 {
                    self.failures += 1;
                    return match kind {
                        Some(k) => Err(io::Error::new(k, "stop")),
                        None => Ok(0),
                    };
                }
                n = n.min(room);
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Via<'a, 's> {
    Real(&'a BeancountSources),
    Syn(&'a SyntheticSources<'s>),
}

impl Via<'_, '_> {
    fn all<K: ErrorOrWarningKind>(&self, w: &mut Sink, v: Vec<AnnotatedErrorOrWarning<K>>, old: bool) -> io::Result<()> {
        match self {
            #[allow(deprecated)]
            Via::Real(s) if old => s.write(w, v),
            Via::Real(s) => s.write_errors_or_warnings(w, v),
            Via::Syn(s) => s.write_errors_or_warnings(w, v),
        }
    }
    fn one<K: ErrorOrWarningKind>(&self, w: &mut Sink, e: &ErrorOrWarning<K>) -> io::Result<()> {
        match self {
            Via::Real(s) => s.write_report::<_, K, _>(w, e),
            Via::Syn(s) => s.write_report::<_, K, _>(w, e),
        }
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::BrokenPipe, ErrorKind::StorageFull, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::WriteZero,
    ErrorKind::ConnectionReset, ErrorKind::OutOfMemory,
];

fn watch<K: ErrorOrWarningKind + Clone>(ctx: &mut Ctx, r: &mut Rng, via: &Via, v: &[(ErrorOrWarning<K>, Option<String>)], how: &str) -> R {
    let old = r.pct(20);
    let make = || -> Vec<AnnotatedErrorOrWarning<K>> {
        v.iter()
            .map(|(e, a)| match a {
                Some(a) => e.clone().with_annotation(a.as_str()),
                None => e.clone().into(),
            })
            .collect()
    };
    // each by itself, in the order given, with what is attached to it
    let mut want: Vec<u8> = vec![];
    for (e, a) in v {
        let mut w = Sink::new();
        via.one(&mut w, e).map_err(|x| format!("{}: writing one report to memory failed: {}", how, x))?;
        want.extend(w.got);
        if let Some(a) = a {
            want.extend(a.as_bytes());
            want.push(b'\n');
        }
    }
    let mut w = Sink::new();
    via.all(&mut w, make(), old).map_err(|x| format!("{}: writing to memory failed: {}", how, x))?;
    if w.got != want {
        let i = w.got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(w.got.len().min(want.len()));
        return Err(format!("{}: {} reports written together differ from each by itself followed by its annotation, from byte {} of {} (expected {})", how, v.len(), i, w.got.len(), want.len()));
    }
    ctx.add(&format!("{}: reports written together", how), v.len() as u64);
    // a writer that takes little at a time, and is interrupted
    let mut w = Sink { chunk: *r.pick(&[1, 2, 3, 7, 64, 1000]), interrupt: *r.pick(&[0, 2, 3, 5, 17]), ..Sink::new() };
    let res = via.all(&mut w, make(), old);
    if let Err(x) = res {
        return Err(format!("{}: a writer taking {} bytes at a time and interrupted {} times fails with {}", how, w.chunk, w.interrupts, x));
    }
    if w.got != want {
        return Err(format!("{}: a writer taking {} bytes at a time gets {} bytes of {}", how, w.chunk, w.got.len(), want.len()));
    }
    if w.interrupts > 0 {
        ctx.count("writers interrupted");
    }
    ctx.count("writers taking little at a time");
    // a writer that fails somewhere
    for _ in 0..3 {
        if want.is_empty() {
            break;
        }
        let at = match r.below(6) {
            0 => want.len() - 1,
            1 => 0,
            _ => r.below(want.len()),
        };
        let kind = if r.pct(15) { None } else { Some(*r.pick(KINDS)) };
        let mut w = Sink { fail: Some((at, kind)), recovers: r.pct(30), chunk: *r.pick(&[1, 5, usize::MAX]), ..Sink::new() };
        let res = via.all(&mut w, make(), old);
        let exp = kind.unwrap_or(ErrorKind::WriteZero);
        match res {
            Ok(()) => return Err(format!("{}: a writer failing ({:?}) after {} of {} bytes goes unnoticed; it got {} bytes", how, exp, at, want.len(), w.got.len())),
            Err(x) if x.kind() != exp => return Err(format!("{}: a writer fails with {:?}, and {:?} is returned: {}", how, exp, x.kind(), x)),
            Err(_) => {}
        }
        if !want.starts_with(&w.got) {
            return Err(format!("{}: a writer failing after {} bytes got something other than the start of the reports", how, at));
        }
        ctx.count("failing writers");
        if w.recovers {
            ctx.count("writers that fail once");
        }
    }
    Ok(())
}

fn note(r: &mut Rng) -> Option<String> {
    match r.below(8) {
        6 => Some(r.pick(&["below\n", "  far in", "open  ", "\n", " ", "\t\r\n", "\u{a0}"]).to_string()),
        0 => Some(String::new()),
        1 => Some("one line".into()),
        2 => Some("two\nlines".into()),
        3 => Some(format!("{{}} % é银😀 {}", r.below(100))),
        _ => None,
    }
}

pub fn c24(ctx: &mut Ctx, r: &mut Rng) -> R {
    let base = ctx.fresh_dir();
    let a = any(r, &base);
    for (n, t) in &a.files {
        ctx.input(n, t);
    }
    if a.text().len() > 30000 {
        ctx.count("large, left out");
        return Ok(());
    }
    let Ok(s) = a.load() else {
        ctx.count("not loaded");
        return Ok(());
    };
    let p = BeancountParser::new(&s);
    let res = p.parse();
    let mut syn = SyntheticSources::new(&s);
    let made: Vec<lima::Spanned<lima::Key>> = (0..r.below(4))
        .map(|i| {
            let sp = syn.create_synthetic_span(r.pick(&["made", "other", "é"]), r.pick(&["2024-01-01 close Assets:A", "x\ny  z\n", "银"]));
            lima::spanned(lima::Key::try_from(["ka", "kb", "kc", "kd"][i]).unwrap(), sp)
        })
        .collect();
    let none = vec![];
    let (mut es, mut ws): (Vec<_>, Vec<_>) = match &res {
        Ok(ok) => (none.clone(), ok.warnings.clone()),
        Err(e) => (e.errors.clone(), e.warnings.clone()),
    };
    if let Ok(ok) = &res {
        let els = elements(ok);
        if !els.is_empty() {
            for _ in 0..r.range(1, 5) {
                let (x, y, z) = (r.pick(&els), r.pick(&els), r.pick(&els));
                let t = *r.pick(&["reason", "", "two\nlines", "é"]);
                if r.pct(60) {
                    es.push(x.error(t));
                } else {
                    ws.push(x.warning(t));
                }
                if r.pct(40) {
                    if let Some(e) = es.pop() {
                        es.push(y.related(z.context(e)));
                    }
                }
            }
        }
    }
    r.shuffle(&mut es);
    if ctx.case % 2000 == 7 && !es.is_empty() {
        // a great many at once
        let n = r.range(1000, 4000);
        let v: Vec<_> = (0..n).map(|i| (es[i % es.len()].clone(), (i % 3 == 0).then(|| format!("no {}", i)))).collect();
        watch(ctx, r, &Via::Real(&s), &v, "a great many errors")?;
        watch(ctx, r, &Via::Syn(&syn), &v, "a great many errors with fragments")?;
    }
    es.truncate(6);
    ws.truncate(4);
    let ev: Vec<_> = es.iter().map(|e| (e.clone(), note(r))).collect();
    let wv: Vec<_> = ws.iter().map(|e| (e.clone(), note(r))).collect();
    watch(ctx, r, &Via::Real(&s), &ev, "errors")?;
    watch(ctx, r, &Via::Real(&s), &wv, "warnings")?;
    let mut es: Vec<_> = es.into_iter().take(3).collect();
    for (i, k) in made.iter().enumerate() {
        let mut e = k.error("of a fragment");
        if let Some(o) = made.get((i + 1) % made.len()) {
            e = e.related_to(o);
        }
        let at = r.below(es.len() + 1);
        es.insert(at, e);
    }
    let ev2: Vec<_> = es.into_iter().map(|e| (e, note(r))).collect();
    watch(ctx, r, &Via::Syn(&syn), &ev2, "with fragments")?;
    watch(ctx, r, &Via::Syn(&syn), &wv, "warnings with fragments")?;
    if ev.len() + wv.len() + ev2.len() > 1 {
        ctx.nontrivial(&a.text());
        ctx.sample(&a.text());
    }
    if ev.iter().chain(&ev2).any(|(_, a)| a.is_some()) {
        ctx.count("with annotations");
    }
    Ok(())
}
