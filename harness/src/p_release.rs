//! C22: whatever the library takes while it works on a ledger is given back.
use crate::alloc;
use crate::dump;
use crate::p_any::{any, Any};
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, ErrorKind, ParseError, SyntheticSources};
use std::fmt::Write;

fn descriptors() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// what a user does with one parse
fn parse_and_use(s: &BeancountSources, p: &BeancountParser) -> usize {
    let mut n = dump::outcome(s, p, true).len();
    let mut syn = SyntheticSources::new(s);
    let made = [syn.create_synthetic_span("made", "2024-01-01 close Assets:A"), syn.create_synthetic_span("made", "é\n x"), syn.create_synthetic_span("other", "x")];
    let mut out = vec![];
    match p.parse() {
        Ok(ok) => {
            let mut o = String::new();
            for d in &ok.directives {
                let _ = write!(o, "{}", d);
                let e = d.error("r").related_to(d).in_context(d);
                let _ = syn.write_report::<_, ErrorKind, _>(&mut out, &e);
            }
            let kept = ok.directives.clone();
            n += o.len() + kept.len();
            let _ = s.write_errors_or_warnings(&mut out, ok.warnings);
        }
        Err(ParseError { errors, warnings }) => {
            n += errors.iter().map(|e| s.error_source_text(e).len()).sum::<usize>();
            let _ = s.write_errors_or_warnings(&mut out, errors);
            let _ = syn.write_errors_or_warnings(&mut out, warnings);
        }
    }
    for m in &made {
        n += syn.resolve_span(m).content.len();
    }
    n + out.len()
}

fn whole(a: &Any) -> Option<usize> {
    let s = a.load().ok()?;
    let p = BeancountParser::new(&s);
    Some(parse_and_use(&s, &p))
}

/// ever new ledgers: what is set up once is so for the first few at most
fn ever_new(ctx: &mut Ctx, r: &mut Rng) -> R {
    alloc::live();
    let (mut n, mut held, mut bytes) = (0, 0, 0);
    for i in 0..40 {
        let base = ctx.fresh_dir();
        let a = any(r, &base);
        if i < 3 || i > 36 {
            ctx.input(&format!("ledger {}", i), &a.text());
        }
        let l = alloc::live();
        whole(&a);
        let more = alloc::live() - l;
        n += 1;
        if more > 0 {
            held += 1;
            bytes += more;
        }
    }
    if held > 20 {
        return Err(format!("after {} of {} ledgers, never seen before, something stays allocated, {} bytes altogether", held, n, bytes));
    }
    ctx.add("ledgers never seen before", n);
    ctx.add("ledgers never seen before that left something set up", held);
    Ok(())
}

pub fn c22(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.pct(2) {
        return ever_new(ctx, r);
    }
    let base = ctx.fresh_dir();
    let mut a = any(r, &base);
    if r.pct(4) {
        // not there
        a.root = Some(format!("{}/{}", base, r.pick(&["none.beancount", "none/root.beancount", ""])));
    }
    for (n, t) in &a.files {
        ctx.input(n, t);
    }
    alloc::live();
    // whatever is set up once
    let first = whole(&a);
    let (l, f, t) = (alloc::live(), descriptors(), threads());
    for i in 1..=3 {
        let n = whole(&a);
        let (l2, f2, t2) = (alloc::live(), descriptors(), threads());
        if n.is_some() != first.is_some() {
            return Err("loads only sometimes".into());
        }
        if l2 > l {
            return Err(format!("{} bytes are still allocated after round {} of loading, parsing, reporting and dropping", l2 - l, i));
        }
        if f2 > f {
            return Err(format!("{} file descriptors are still open after round {}", f2 - f, i));
        }
        if t2 > t {
            return Err(format!("{} threads still run after round {}", t2 - t, i));
        }
    }
    ctx.add("rounds from loading to dropping", 3);
    let Ok(s) = a.load() else {
        ctx.count("not loaded");
        ctx.nontrivial(&a.text());
        return Ok(());
    };
    // again and again on the same sources
    let p = BeancountParser::new(&s);
    parse_and_use(&s, &p);
    parse_and_use(&s, &p);
    let (l, f) = (alloc::live(), descriptors());
    for i in 1..=3 {
        parse_and_use(&s, &p);
        let (l2, f2) = (alloc::live(), descriptors());
        if l2 > l || f2 > f {
            return Err(format!("{} bytes and {} file descriptors more in use after parsing the same sources {} times again", l2 - l, f2 as i64 - f as i64, i));
        }
    }
    ctx.add("rounds on the same sources", 3);
    // and a parser on them again and again
    let l = alloc::live();
    let mut failed = false;
    for _ in 0..3 {
        let q = BeancountParser::new(&s);
        failed = q.parse().is_err();
    }
    if alloc::live() > l {
        return Err(format!("{} bytes are still allocated after dropping three parsers", alloc::live() - l));
    }
    ctx.count(if failed { "with errors" } else { "without errors" });
    ctx.count(&format!("ledger {}", a.sort));
    ctx.nontrivial(&a.text());
    ctx.sample(&a.text());
    Ok(())
}
