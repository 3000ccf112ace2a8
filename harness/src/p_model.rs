//! Monitors that compare results with the model of a generated ledger.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, ParseError, Report};

pub fn show_errors(s: &BeancountSources, e: &ParseError) -> String {
    e.errors
        .iter()
        .take(5)
        .map(|x| {
            let sp = x.span();
            let rs = s.resolve_span(&sp);
            format!("[{}: {} at {:?}:{} {:?}]", x.message(), x.reason(), rs.file_name, rs.start_line, rs.content)
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// give every directive an identity that survives parsing
pub fn with_ids(items: &mut [Item]) -> usize {
    let mut n = 0;
    for it in items.iter_mut() {
        if let Item::Dir(d) = it {
            d.meta.retain(|m| !matches!(m, MetaItem::KV(k, _) if k == "zzid"));
            d.meta.push(MetaItem::KV("zzid".into(), MV::Str(Lit::plain(&n.to_string()))));
            n += 1;
        }
    }
    n
}

pub fn one_file(items: Vec<Item>) -> FileM {
    FileM { path: "root.beancount".into(), items }
}

pub fn id_of_facts(d: &EDir) -> Option<&str> {
    d.facts.iter().find(|f| f.path == "meta[zzid]").and_then(|f| f.vals[0].strip_prefix('"'))
}
pub fn id_of(o: &ODir) -> Option<&str> {
    o.get("meta[zzid]").and_then(|f| f.val.strip_prefix('"'))
}

pub fn gen_profile(r: &mut Rng) -> Gen {
    Gen {
        unicode: r.pct(70),
        expr_depth: *r.pick(&[0, 1, 3]),
        max_items: *r.pick(&[3, 6, 12, 20]),
        pragmas: r.pct(40),
        dates: *r.pick(&[0, 0, 3, 8]),
        long_strings: r.pct(10),
        kinds: vec![],
    }
}

pub fn loaded(ctx: &mut Ctx, r: &mut Rng, f: &EFile) -> (BeancountSources, Option<String>) {
    // from a string or from a file
    if r.pct(25) {
        let d = ctx.fresh_dir();
        let p = format!("{}/{}", d, f.path);
        std::fs::write(&p, &f.text).expect("write ledger");
        (BeancountSources::try_from(std::path::PathBuf::from(&p)).expect("load ledger"), Some(d))
    } else if r.pct(50) {
        (BeancountSources::from(f.text.as_str()), None)
    } else {
        (BeancountSources::from(f.text.clone()), None)
    }
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut g = gen_profile(r);
    g.long_strings = false;
    let items = g.items(r);
    let style = if r.pct(40) { Style::canonical() } else { Style::random(r) };
    let f = Printer::new(&style).file(r, 0, &one_file(items));
    ctx.input("ledger", &f.text);
    let m = meaning(std::slice::from_ref(&f));
    let (s, _d) = loaded(ctx, r, &f);
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Err(e) => Err(format!("well-formed ledger rejected: {}", show_errors(&s, &e))),
        Ok(ok) => {
            let mut obs = directives(&ok);
            ctx.add("directives compared", obs.len() as u64);
            ctx.add("fields compared", obs.iter().map(|o| o.facts.len() as u64).sum());
            if obs.len() != m.dirs.len() {
                return Err(format!("{} directives written, {} returned", m.dirs.len(), obs.len()));
            }
            for e in &m.dirs {
                ctx.count(&format!("kind {}", e.kind));
                // as a multiset: order is another property
                match obs.iter().position(|o| diff_dir(e, o).is_none()) {
                    Some(i) => {
                        obs.swap_remove(i);
                    }
                    None => {
                        let near = obs
                            .iter()
                            .min_by_key(|o| e.facts.iter().filter(|f| !o.facts.iter().any(|g| g.path == f.path && f.vals.contains(&g.val))).count())
                            .map(|o| diff_dir(e, o).unwrap_or_default());
                        return Err(format!(
                            "no directive returned equals the one written {:?}: {}",
                            f.text.get(e.start..e.end).unwrap_or(""),
                            near.unwrap_or_default()
                        ));
                    }
                }
            }
            if ok.plugins.len() != m.plugins.len() {
                return Err(format!("{} plugins written, {} returned", m.plugins.len(), ok.plugins.len()));
            }
            for (e, o) in m.plugins.iter().zip(&ok.plugins) {
                ctx.count("plugins compared");
                if let Some(d) = diff_facts(e, &plugin(o), &|_| true) {
                    return Err(format!("plugin: {}", d));
                }
            }
            if !m.dirs.is_empty() {
                ctx.nontrivial(&f.text);
                ctx.sample(&f.text);
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C03

pub fn c03(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = match r.below(10) {
        0 => r.range(100, 400),
        1..=3 => r.range(20, 60),
        _ => r.range(2, 20),
    };
    let g = Gen {
        unicode: false,
        expr_depth: 0,
        max_items: n,
        pragmas: false,
        dates: *r.pick(&[1, 2, 3, 8, 8, 0]),
        long_strings: false,
        kinds: if r.pct(50) { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { vec![0, 2, 3, 4, 8, 2, 3] },
    };
    let mut items = g.items_n(r, n);
    // small directives
    for it in items.iter_mut() {
        if let Item::Dir(d) = it {
            d.meta.clear();
            d.inline.truncate(1);
            if let Kind::Txn { postings, .. } = &mut d.kind {
                postings.truncate(2);
                for p in postings {
                    p.meta.clear();
                }
            }
        }
    }
    if r.pct(10) {
        // years at the ends of the range
        for it in items.iter_mut() {
            if let Item::Dir(d) = it {
                d.date.y = *r.pick(&[0, 1, 9999, 2024, 1969, 1970]);
                if d.date.m == 2 && d.date.d == 29 {
                    d.date.d = 28;
                }
            }
        }
    }
    with_ids(&mut items);
    // possibly spread over files by includes
    let split = r.pct(40);
    let style = if r.pct(70) { Style::canonical() } else { Style::random(r) };
    let ledger = if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let files: Vec<EFile> = ledger.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    let want = sorted(meaning(&files).dirs);
    let s = if split {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        match BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))) {
            Ok(s) => s,
            Err(_) => {
                ctx.count("not loaded (decided elsewhere)");
                return Ok(());
            }
        }
    } else {
        BeancountSources::from(files[0].text.as_str())
    };
    let parser = BeancountParser::new(&s);
    let Ok(ok) = parser.parse() else {
        ctx.count("rejected (decided elsewhere)");
        return Ok(());
    };
    let obs = directives(&ok);
    // date order and class order of what came out
    let mut prev: Option<(String, u8)> = None;
    for o in &obs {
        let k = (
            o.get("date").map(|f| f.val.clone()).unwrap_or_default(),
            match o.get("kind").map(|f| f.val.as_str()) {
                Some("open") => 0,
                Some("balance") => 1,
                _ => 2,
            },
        );
        if let Some(p) = &prev {
            if *p > k {
                return Err(format!("{:?} comes after {:?}", k, p));
            }
        }
        prev = Some(k);
    }
    let got: Vec<&str> = obs.iter().map(|o| id_of(o).unwrap_or("?")).collect();
    let exp: Vec<&str> = want.iter().map(|e| id_of_facts(e).unwrap_or("?")).collect();
    ctx.add("directives ordered", got.len() as u64);
    if got != exp {
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        return Err(format!(
            "order differs at position {}: expected directive {:?}, found {:?} ({} expected, {} returned)",
            i,
            exp.get(i),
            got.get(i),
            exp.len(),
            got.len()
        ));
    }
    let mut ties = 0;
    for w in want.windows(2) {
        if (w[0].date, w[0].class) == (w[1].date, w[1].class) {
            ties += 1;
        }
    }
    ctx.add("ties kept in declared order", ties);
    if split {
        ctx.count("ledgers over several files");
    }
    if ties > 0 {
        ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
        ctx.sample(&format!("{} directives, order {:?}", exp.len(), exp.iter().take(40).collect::<Vec<_>>()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = gen_profile(r);
    let items = g.items(r);
    let fm = one_file(items);
    let canon = Style::canonical();
    let a = Printer::new(&canon).file(r, 0, &fm);
    let style = Style::random(r);
    let mut b = Printer::new(&style).file(r, 0, &fm);
    // a fixed set of whole-text changes as well
    let whole = r.below(15);
    match whole {
        0 => b.text = format!("\n\n{}", b.text),
        1 if b.text.ends_with('\n') => b.text.push_str("\n  \n\t\n"),
        2 => b.text = format!("; first\n{}", b.text),
        3 if b.text.ends_with('\n') => b.text.push_str("; last"),
        4 if b.text.ends_with('\n') => b.text.push_str("* last heading\n"),
        5 => b.text = format!(" \n{}", b.text),
        6 => b.text = format!("{} first\n{}", r.pick(&["*", "#", "!", "%", "?", "&", ":", "**", "#é"]), b.text),
        7 if b.text.ends_with('\n') => b.text.push_str(r.pick(&["* last", "#", "** é", "%x", ":END:", "# a\n* b"])),
        8 if b.text.ends_with('\n') => b.text.push_str(r.pick(&["  ", "\t", "\n  ", "  \n    ", "  ; c", "\n\t; c"])),
        9 if b.text.ends_with('\n') => b.text.push_str(r.pick(&["  :PROPERTIES:\n", "\t:x y z\n", "  :a", "\t: \"\n", "  :5\" \n\n  :\""])),
        11 => b.text = format!("{}{}", r.pick(&["  :PROPERTIES:\n", "\t:\"x\n", " :\n\t:\"\n"]), b.text),
        10 => b.text = format!("* first\r\n{}", b.text),
        _ => {}
    }
    ctx.input("plain layout", &a.text);
    ctx.input("other layout", &b.text);
    let sa = BeancountSources::from(a.text.as_str());
    let pa = BeancountParser::new(&sa);
    let Ok(oa) = pa.parse() else {
        ctx.count("rejected in plain layout (decided elsewhere)");
        return Ok(());
    };
    let (sb, _d) = loaded(ctx, r, &b);
    let pb = BeancountParser::new(&sb);
    match pb.parse() {
        Err(e) => Err(format!("accepted in plain layout, rejected in another: {}", show_errors(&sb, &e))),
        Ok(ob) => {
            let (da, db) = (directives(&oa), directives(&ob));
            if da.len() != db.len() {
                return Err(format!("{} directives in plain layout, {} in the other", da.len(), db.len()));
            }
            for (x, y) in da.iter().zip(&db) {
                let (vx, vy) = (x.values(), y.values());
                if vx != vy {
                    let d = vx.iter().zip(&vy).find(|(p, q)| p != q);
                    return Err(format!("layout changes a value: {:?}", d));
                }
                ctx.add("values compared", vx.len() as u64);
            }
            let pl = |o: &lima::ParseSuccess| {
                o.plugins.iter().map(|p| plugin(p).iter().map(|f| f.val.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()
            };
            if pl(&oa) != pl(&ob) {
                return Err("layout changes the plugins".into());
            }
            if oa.warnings.len() != ob.warnings.len() {
                return Err(format!("layout changes the warnings: {} and {}", oa.warnings.len(), ob.warnings.len()));
            }
            if a.text != b.text {
                ctx.nontrivial(&b.text);
                ctx.sample(&b.text);
                if b.text.contains("\r\n") {
                    ctx.count("with CRLF");
                }
                if !b.text.ends_with('\n') {
                    ctx.count("without final newline");
                }
                if style.headings > 0 {
                    ctx.count("with headings");
                }
                if style.comments > 0 {
                    ctx.count("with comments");
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut g = gen_profile(r);
    g.unicode = r.pct(85);
    let mut items = g.items(r);
    let many = ctx.case % 2000 == 11;
    if many {
        g.max_items = 1;
        items = (0..r.range(260, 320)).map(|_| Item::Dir(g.dir(r))).collect();
        ctx.count("hundreds of files");
    }
    // far into a large file
    let far = ctx.case % 250 == 3;
    if far {
        let line = *r.pick(&["\n", "a\n", "a line of some text, seventy characters of it or so, up to its very end\n"]);
        let n = if ctx.case % 4000 == 3 { 1_100_000 } else { r.range(60_000, 160_000) };
        let at = r.below(items.len() + 1).min(1);
        items.insert(at, Item::Dir(Dir { date: D { y: 2000, m: 1, d: 1 }, kind: Kind::Note(g.acc(r), Lit::plain(&line.repeat(n / line.len()))), inline: vec![], meta: vec![] }));
        items.retain(|x| matches!(x, Item::Dir(_)));
        items.truncate(6);
        ctx.count("far into a large file");
    }
    with_ids(&mut items);
    let style = if r.pct(15) { Style::canonical() } else { Style::random(r) };
    let split = many || r.pct(30);
    let ledger = if many {
        crate::p_include::many(r, items)
    } else if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let files: Vec<EFile> = ledger.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    let m = meaning(&files);
    let (s, fs) = if split || r.pct(30) {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        let Ok(s) = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))) else {
            ctx.count("not loaded (decided elsewhere)");
            return Ok(());
        };
        (s, Files::on_disk(&d, &files))
    } else {
        (BeancountSources::from(files[0].text.as_str()), Files::inline(&files[0].text))
    };
    let parser = BeancountParser::new(&s);
    let Ok(ok) = parser.parse() else {
        ctx.count("rejected (decided elsewhere)");
        return Ok(());
    };
    let synth = lima::SyntheticSources::new(&s);
    let obs = directives(&ok);
    let mut multi = 0u64;
    for e in &m.dirs {
        let id = id_of_facts(e);
        let Some(o) = obs.iter().find(|o| id_of(o) == id) else {
            ctx.count("directive missing (decided elsewhere)");
            continue;
        };
        let text = &files[e.file].text;
        // the directive itself
        let rs = s.resolve_span(&o.span);
        let c = rs.content;
        let end = e.start + c.len();
        let what = text.get(e.start..e.end).unwrap_or("");
        if text.get(e.start..end) != Some(c) || end < e.end {
            return Err(format!("directive {:?} resolves to {:?}", what, c));
        }
        if end > e.limit {
            return Err(format!("directive {:?} resolves to text of the next item as well: {:?}", what, c));
        }
        if c.trim_end() != c {
            return Err(format!("directive resolves with trailing blank space: {:?}", c));
        }
        if let Some(msg) = fs.check_resolved(rs.file_name, rs.start_line, rs.end_line, c, e.file, e.start, end) {
            return Err(format!("directive {:?}: {}", what, msg));
        }
        if o.span.start != e.start {
            return Err(format!("directive {:?} begins at byte {}, its span at {}", what, e.start, o.span.start));
        }
        let r2 = synth.resolve_span(&o.span);
        if (r2.file_name, r2.start_line, r2.end_line, r2.content) != (rs.file_name, rs.start_line, rs.end_line, rs.content) {
            return Err(format!("directive {:?} resolves differently through synthetic sources", what));
        }
        for f in &e.facts {
            let Some(of) = o.get(&f.path) else {
                ctx.count("element missing (decided elsewhere)");
                continue;
            };
            if !f.vals.contains(&of.val) {
                ctx.count("element differs (decided elsewhere)");
                continue;
            }
            if of.span.is_some() && f.sp != Sp::Any {
                ctx.count("spans resolved");
            }
            if let Some(msg) = check_span(&fs, &s, f, of) {
                return Err(format!("in {:?}: {}", what, msg));
            }
            // containment
            if let (Some(sp), Sp::At(a, b)) = (&of.span, &f.sp) {
                let own = f.file == e.file && e.start <= *a && *b <= e.end;
                if own && (sp.start < o.span.start || sp.end > o.span.end || sp.source != o.span.source) {
                    return Err(format!("{} lies outside of its directive {:?}", f.path, what));
                }
                if own {
                    if let Some(post) = f.path.strip_prefix("posting[").and_then(|p| p.split_once("].")).filter(|(_, rest)| !rest.contains('[')) {
                        if let Some(pp) = o.get(&format!("posting[{}]", post.0)).and_then(|p| p.span) {
                            if sp.start < pp.start || sp.end > pp.end {
                                return Err(format!("{} lies outside of its posting", f.path));
                            }
                        }
                    }
                }
            }
        }
        if !text.get(..e.end).unwrap_or("").is_ascii() {
            multi += 1;
        }
    }
    for (e, o) in m.plugins.iter().zip(&ok.plugins) {
        for (f, of) in e.iter().zip(plugin(o)) {
            if f.path == of.path && f.vals.contains(&of.val) {
                if let Some(msg) = check_span(&fs, &s, f, &of) {
                    return Err(format!("plugin: {}", msg));
                }
                ctx.count("spans resolved");
            }
        }
    }
    ctx.add("directives after multi-byte text", multi);
    if split {
        ctx.count("ledgers over several files");
    }
    if multi > 0 {
        ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
        ctx.sample(&files[0].text);
    }
    Ok(())
}
