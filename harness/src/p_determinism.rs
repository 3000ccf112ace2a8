//! The same sources, parsed again and again in every way there is.
use crate::dump;
use crate::p_any::{any, Any};
use crate::rng::Rng;
use crate::sup::{Ctx, Parent, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources};
use std::process::{Command, Stdio};
use std::sync::Barrier;

fn differ(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} against {:?}", x, y);
        }
    }
    format!("{} lines against {}", a.lines().count(), b.lines().count())
}

fn same(ctx: &mut Ctx, how: &str, a: &str, b: &str) -> R {
    if a != b {
        return Err(format!("differs {}: {}", how, differ(a, b)));
    }
    ctx.count(&format!("equal {}", how));
    Ok(())
}

/// a file name shows in reports and in what resolves; take it out
fn nameless(d: &str, path: Option<&str>) -> String {
    let d = crate::p_report::strip_ansi(d);
    let d = match path {
        Some(p) => d.replace(&format!("Some({:?})", p), "None").replace(&format!("[ {}:", p), "[ inline:"),
        None => d,
    };
    d
}

pub fn c12(ctx: &mut Ctx, r: &mut Rng) -> R {
    let base = ctx.fresh_dir();
    let a = any(r, &base);
    for (n, t) in &a.files {
        ctx.input(n, t);
    }
    let other: Any = {
        // something else, to be parsed in between; inline, so as not to disturb the files
        let t = crate::p_any::corpus(r);
        let t = crate::p_any::mutate(r, t);
        Any { files: vec![("other".into(), t)], root: None, sort: "other" }
    };
    let Ok(s) = a.load() else {
        ctx.count("not loaded");
        return match a.load() {
            Ok(_) => Err("loads the second time only".into()),
            Err(_) => Ok(()),
        };
    };
    let p = BeancountParser::new(&s);
    let one = dump::outcome(&s, &p, true);
    ctx.count(if one.lines().any(|l| l.starts_with("ERROR ")) { "with errors" } else { "without errors" });
    if one.lines().any(|l| l.starts_with("WARNING ")) {
        ctx.count("with warnings");
    }
    ctx.count(a.sort);
    same(ctx, "when parsed again", &one, &dump::outcome(&s, &p, true))?;
    if let Ok(o) = other.load() {
        let op = BeancountParser::new(&o);
        let _ = dump::outcome(&o, &op, true);
    }
    same(ctx, "after parsing something else", &one, &dump::outcome(&s, &p, true))?;
    let p2 = BeancountParser::new(&s);
    same(ctx, "with a fresh parser", &one, &dump::outcome(&s, &p2, true))?;
    let c = s.clone();
    let pc = BeancountParser::new(&c);
    same(ctx, "on a clone of the sources", &one, &dump::outcome(&c, &pc, true))?;
    let again = a.load().map_err(|e| format!("can't be loaded a second time: {}", e))?;
    let pa = BeancountParser::new(&again);
    same(ctx, "when loaded again", &one, &dump::outcome(&again, &pa, true))?;
    // a string, and a file holding it
    if a.files.len() == 1 && !a.files[0].1.contains("include") && !a.files[0].1.contains("documents") {
        let text = &a.files[0].1;
        let path = format!("{}/as-file.beancount", base);
        std::fs::write(&path, text).expect("write");
        let f = BeancountSources::try_from(std::path::Path::new(&path)).map_err(|e| format!("text accepted as a string can't be loaded from a file: {}", e))?;
        let pf = BeancountParser::new(&f);
        let df = dump::outcome(&f, &pf, true);
        let i = BeancountSources::from(text.clone());
        let pi = BeancountParser::new(&i);
        let di = dump::outcome(&i, &pi, true);
        same(ctx, "from a file and from a string", &nameless(&df, Some(&path)), &nameless(&di, None))?;
    }
    // at once
    if r.pct(20) {
        let n = 4;
        let reps = 2;
        let b = Barrier::new(n);
        let shared = r.pct(50);
        let outs: Vec<std::thread::Result<Vec<String>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    sc.spawn(|| {
                        b.wait();
                        (0..reps)
                            .map(|_| {
                                if shared {
                                    dump::outcome(&s, &p, true)
                                } else {
                                    let q = BeancountParser::new(&s);
                                    dump::outcome(&s, &q, true)
                                }
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for o in outs {
            match o {
                Err(_) => return Err("panics when parsed by several threads at once".into()),
                Ok(v) => {
                    for x in v {
                        same(ctx, if shared { "in threads sharing a parser" } else { "in threads sharing the sources" }, &one, &x)?;
                    }
                }
            }
        }
    }
    // elsewhere
    if r.pct(3) {
        let path = match &a.root {
            Some(p) => p.clone(),
            None => {
                let p = format!("{}/proc.beancount", base);
                std::fs::write(&p, &a.files[0].1).expect("write");
                p
            }
        };
        let l = BeancountSources::try_from(std::path::PathBuf::from(&path)).map_err(|e| format!("not loaded: {}", e))?;
        let pl = BeancountParser::new(&l);
        let here = dump::outcome(&l, &pl, true);
        let o = Command::new(Parent::exe()).arg("dump").arg(&path).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("spawn");
        if o.status.code() == Some(0) {
            same(ctx, "in another process", &here, &String::from_utf8_lossy(&o.stdout))?;
        } else {
            return Err(format!("another process fails on it: {:?}", o.status));
        }
    }
    // the sources have been read: what becomes of the files is nothing to the parser
    if a.root.is_some() {
        let gone = format!("{}-gone", base);
        let _ = std::fs::remove_dir_all(&gone);
        let _ = std::env::set_current_dir("/");
        std::fs::rename(&base, &gone).expect("rename");
        let q = dump::outcome(&s, &p, true);
        let r = dump::outcome(&s, &BeancountParser::new(&s), true);
        let _ = std::fs::remove_dir_all(&gone);
        same(ctx, "when the files are gone", &one, &q)?;
        same(ctx, "when the files are gone", &one, &r)?;
    }
    ctx.nontrivial(&a.text());
    ctx.sample(&a.files[0].1);
    Ok(())
}
