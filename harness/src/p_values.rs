//! Numbers, strings, pragmas and display.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::p_model::*;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, ParseError, Report, Span};

/// the file index of a span, by the path it resolves to
pub fn file_of(s: &BeancountSources, fs: &Files, span: &Span) -> Option<usize> {
    let rs = s.resolve_span(span);
    (0..fs.files.len()).find(|i| fs.same_file(*i, rs.file_name))
}

pub fn overlaps(span: &Span, a: usize, b: usize) -> bool {
    span.start < b && span.end > a || (span.start == span.end && a <= span.start && span.start <= b)
}

// ---------------------------------------------------------------- C05

fn wide(r: &mut Rng) -> (String, i128, u32) {
    // up to 28 significant digits, any scale
    let n = r.range(1, 28);
    let scale = r.below(n + 1) as u32;
    let mut digits = String::new();
    for i in 0..n {
        let lo = if i == 0 { 1 } else { 0 };
        digits.push((b'0' + r.range(lo, 9) as u8) as char);
    }
    let m: i128 = digits.parse().unwrap();
    let t = dec_str(m, scale);
    let (int, frac) = match t.split_once('.') {
        Some((a, b)) => (a.to_string(), Some(b.to_string())),
        None => (t.clone(), None),
    };
    let mut s = String::new();
    if r.pct(40) {
        let len = int.len();
        for (i, c) in int.chars().enumerate() {
            if i > 0 && (len - i) % 3 == 0 {
                s.push(',');
            }
            s.push(c);
        }
    } else {
        s = int;
    }
    if let Some(f) = frac {
        s.push('.');
        s.push_str(&f);
    }
    (s, m, scale)
}

/// an expression in one of the positions that take one, on a line of its own
fn place(r: &mut Rng, e: &str) -> (String, &'static str) {
    match r.below(9) {
        0 => (format!("2024-01-01 price USD {} EUR\n", e), "amount.num"),
        1 => (format!("2024-01-01 balance Assets:A {} USD\n", e), "amount.num"),
        2 => (format!("2024-01-01 txn \"x\"\n  Assets:A {} USD\n", e), "posting[0].amount"),
        3 => (format!("2024-01-01 txn \"x\"\n  Assets:A 1 USD {{{} EUR}}\n", e), "posting[0].cost.per_unit"),
        4 => (format!("2024-01-01 txn \"x\"\n  Assets:A 1 USD {{ # {} EUR}}\n", e), "posting[0].cost.total"),
        5 => (format!("2024-01-01 txn \"x\"\n  Assets:A 1 USD @ {} EUR\n", e), "posting[0].price.num"),
        6 => (format!("2024-01-01 txn \"x\"\n  Assets:A 1 USD @@ {} EUR\n", e), "posting[0].price.num"),
        7 => (format!("2024-01-01 open Assets:A\n  amount: {}\n", e), "meta[amount]"),
        _ => (format!("2024-01-01 custom \"x\" {} USD\n", e), "value[0].num"),
    }
}

pub fn c05(ctx: &mut Ctx, r: &mut Rng) -> R {
    match r.below(10) {
        0 => return c05_no_value(ctx, r),
        1..=2 => return c05_wide(ctx, r),
        3 => return c05_option(ctx, r),
        _ => {}
    }
    let g = Gen {
        unicode: false,
        expr_depth: r.range(1, 5),
        max_items: 8,
        pragmas: r.pct(20),
        dates: 0,
        long_strings: false,
        kinds: vec![0, 0, 0, 1, 2, 11],
    };
    let mut items = g.items(r);
    with_ids(&mut items);
    let style = if r.pct(40) { Style::canonical() } else { Style::random(r) };
    let f = Printer::new(&style).file(r, 0, &one_file(items));
    ctx.input("ledger", &f.text);
    let m = meaning(std::slice::from_ref(&f));
    let s = BeancountSources::from(f.text.as_str());
    let parser = BeancountParser::new(&s);
    let ok = match parser.parse() {
        Ok(ok) => ok,
        Err(e) => {
            for x in &e.errors {
                let sp = x.span();
                for d in &m.dirs {
                    for n in d.facts.iter().filter(|n| n.vals[0].starts_with('=')) {
                        if let Sp::At(a, b) = n.sp {
                            if sp.start < b && sp.end > a || sp.start == sp.end && a <= sp.start && sp.start < b {
                                return Err(format!("expression {:?} rejected: {}", f.text.get(a..b), show_errors(&s, &e)));
                            }
                        }
                    }
                }
            }
            ctx.count("rejected (decided elsewhere)");
            return Ok(());
        }
    };
    let obs = directives(&ok);
    let mut n = 0;
    for e in &m.dirs {
        let Some(o) = obs.iter().find(|o| id_of(o) == id_of_facts(e)) else {
            ctx.count("directive missing (decided elsewhere)");
            continue;
        };
        for x in e.facts.iter().filter(|n| n.vals[0].starts_with('=')) {
            let Some(of) = o.get(&x.path) else {
                ctx.count("number missing (decided elsewhere)");
                continue;
            };
            n += 1;
            if !x.vals.contains(&of.val) {
                let txt = match x.sp {
                    Sp::At(a, b) => f.text.get(a..b).unwrap_or("").to_string(),
                    _ => String::new(),
                };
                return Err(format!("{} written {:?}: expected {:?}, found {:?}", x.path, txt, x.vals, of.val));
            }
            let key = x.path.rsplit(['.', ']']).next().unwrap_or("");
            ctx.count(&format!("evaluated in {}", if key.is_empty() { "metadata or custom value" } else { key }));
            if x.vals[0].contains('(') {
                ctx.nontrivial(&x.vals[0]);
                ctx.sample(&x.vals[0]);
            }
        }
    }
    ctx.add("numbers compared", n);
    Ok(())
}

fn c05_wide(ctx: &mut Ctx, r: &mut Rng) -> R {
    let (t, m, sc) = wide(r);
    let (txt, m, sc) = match r.below(4) {
        0 => (format!("-{}", t), -m, sc),
        1 => {
            // a sum that still fits
            let (u, n, s2) = wide(r);
            let scale = sc.max(s2);
            let a = m.checked_mul(pow10(scale - sc));
            let b = n.checked_mul(pow10(scale - s2));
            match (a, b) {
                (Some(a), Some(b)) if a < pow10(28) && b < pow10(28) && a + b < pow10(28) => {
                    if r.pct(50) {
                        (format!("{} + {}", t, u), a + b, scale)
                    } else {
                        (format!("{} - {}", t, u), a - b, scale)
                    }
                }
                _ => (t, m, sc),
            }
        }
        _ => (t, m, sc),
    };
    let (text, path) = place(r, &txt);
    ctx.input("ledger", &text);
    let want = format!("={}e-{} ", m, sc);
    let s = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Err(e) => Err(format!("number {:?} rejected: {}", txt, show_errors(&s, &e))),
        Ok(ok) => {
            let obs = directives(&ok);
            let Some(of) = obs.first().and_then(|o| o.get(path)) else {
                ctx.count("number missing (decided elsewhere)");
                return Ok(());
            };
            if !of.val.starts_with(&want) {
                return Err(format!("{:?} read as {:?}, expected {:?}", txt, of.val, want));
            }
            ctx.count("numbers of up to 28 digits compared");
            ctx.nontrivial(&text);
            Ok(())
        }
    }
}

fn c05_no_value(ctx: &mut Ctx, r: &mut Rng) -> R {
    let big = "70000000000000000000000000000"; // 7e28
    let txt = match r.below(8) {
        0 => format!("{} / 0", r.below(100)),
        1 => format!("{} / 0.00", r.below(100)),
        2 => format!("1 / ({} - {})", 7, 7),
        3 => format!("(1 + 2) * 3 / ( 2 - 1.0 - 1.00 ) + {}", r.below(10)),
        4 => format!("{} * {}", big, r.range(2, 100)),
        5 => format!("{} + {}", big, big),
        6 => format!("-{} - {}", big, big),
        _ => format!("5 / (0 * {})", r.below(10)),
    };
    let txt = if r.pct(30) { format!("{} + ({})", r.below(10), txt) } else { txt };
    let (bad, path) = place(r, &txt);
    let before = "2020-01-01 open Assets:A\n";
    let after = "2020-01-02 open Assets:B\n";
    let text = format!("{}{}{}", before, bad, after);
    ctx.input("ledger", &text);
    let s = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Ok(ok) => {
            let obs = directives(&ok);
            let v = obs.iter().find_map(|o| o.get(path)).map(|f| f.val.clone());
            Err(format!("{:?} has no representable value but reads as {:?}", txt, v))
        }
        Err(e) => {
            let (a, b) = (before.len(), before.len() + bad.len());
            if !e.errors.iter().any(|x| overlaps(&x.span(), a, b)) {
                return Err(format!("{:?} has no value, but no error is at it: {}", txt, show_errors(&s, &e)));
            }
            ctx.count("expressions without value rejected");
            ctx.nontrivial(&text);
            Ok(())
        }
    }
}

fn c05_option(ctx: &mut Ctx, r: &mut Rng) -> R {
    let (_, m, sc) = wide(r);
    let t = dec_str(if r.pct(10) { -m } else { m }, sc);
    let m = if t.starts_with('-') { -m } else { m };
    let (name, val) = if r.pct(50) {
        ("inferred_tolerance_multiplier", t.clone())
    } else {
        ("inferred_tolerance_default", format!("{}:{}", *r.pick(&["*", "USD"]), t))
    };
    let text = format!("option \"{}\" \"{}\"\n", name, val);
    ctx.input("ledger", &text);
    let s = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Err(e) => Err(format!("number {:?} rejected in an option: {}", t, show_errors(&s, &e))),
        Ok(ok) => {
            let got = ok
                .options
                .inferred_tolerance_multiplier()
                .map(|x| *x.item())
                .or_else(|| ok.options.inferred_tolerance_defaults().next().map(|x| x.1));
            let Some(got) = got else {
                ctx.count("option missing (decided elsewhere)");
                return Ok(());
            };
            if (got.mantissa(), got.scale()) != (m, sc) {
                return Err(format!("option {:?} {:?} read as {}", name, val, got));
            }
            ctx.count("numbers in options compared");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C10

const TPOOL: &[&str] = &["a", "b", "c", "trip", "A", "a-b"];
const KPOOL: &[&str] = &["aa", "bb", "open", "kK", "aA", "aa-b"];

fn pool_key(r: &mut Rng) -> String {
    r.pick(KPOOL).to_string()
}

pub fn c10(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = Gen { unicode: r.pct(30), expr_depth: 0, max_items: 1, pragmas: false, dates: 3, long_strings: false, kinds: vec![] };
    let n = *r.pick(&[4, 8, 15, 30, 60]);
    let faulty = r.pct(35);
    let mut items = vec![];
    let mut tags: Vec<String> = vec![];
    let mut keys: Vec<String> = vec![];
    for _ in 0..n {
        match r.below(8) {
            0 => {
                let t = r.pick(TPOOL).to_string();
                tags.push(t.clone());
                items.push(Item::PushTag(t));
            }
            1 if !tags.is_empty() => {
                let t = if r.pct(60) { tags.pop().unwrap() } else { tags.remove(r.below(tags.len())) };
                items.push(Item::PopTag(t));
            }
            2 => {
                let k = pool_key(r);
                keys.push(k.clone());
                items.push(Item::PushMeta(k, g.mv(r)));
            }
            3 if !keys.is_empty() => {
                let k = if r.pct(60) { keys.pop().unwrap() } else { keys.remove(r.below(keys.len())) };
                items.push(Item::PopMeta(k));
            }
            4 if faulty && r.pct(30) => items.push(Item::PopTag(r.pick(TPOOL).to_string())),
            5 if faulty && r.pct(30) => items.push(Item::PopMeta(pool_key(r))),
            _ => {
                let mut d = g.dir(r);
                d.inline.clear();
                d.meta.clear();
                let custom = matches!(d.kind, Kind::Custom(..));
                for _ in 0..r.few(2) {
                    let t = format!("#{}", r.pick(TPOOL));
                    if !d.inline.contains(&t) && !custom {
                        d.inline.push(t);
                    }
                }
                for _ in 0..r.few(2) {
                    let k = pool_key(r);
                    if !d.meta.iter().any(|m| matches!(m, MetaItem::KV(x, _) if *x == k)) {
                        d.meta.push(MetaItem::KV(k, g.mv(r)));
                    }
                }
                if r.pct(20) {
                    let t = r.pick(TPOOL).to_string();
                    if !d.inline.contains(&format!("#{}", t)) {
                        d.meta.push(MetaItem::Tag(t));
                    }
                }
                if let Kind::Txn { postings, .. } = &mut d.kind {
                    postings.truncate(2);
                }
                items.push(Item::Dir(d));
            }
        }
    }
    // one of them pushed a great many times over
    if r.below(120) == 0 {
        let k = *r.pick(&[17, 20, 33, 70, 130, 260, 300]);
        let (tag, key) = (r.pick(TPOOL).to_string(), pool_key(r));
        let of_tag = r.pct(50);
        let mut up = k;
        let extra = if faulty && r.pct(30) { 2 } else { 0 };
        let mut tower = vec![];
        while up + extra > 0 {
            if r.pct(10) {
                tower.push(Item::Dir(Dir { date: g.date(r), kind: Kind::Close(g.acc(r)), inline: vec![], meta: vec![] }));
            }
            if tower.iter().filter(|x| !matches!(x, Item::Dir(_))).count() < k {
                tower.push(if of_tag { Item::PushTag(tag.clone()) } else { Item::PushMeta(key.clone(), g.mv(r)) });
            } else {
                tower.push(if of_tag { Item::PopTag(tag.clone()) } else { Item::PopMeta(key.clone()) });
                if up > 0 {
                    up -= 1;
                } else {
                    break;
                }
            }
        }
        tower.push(Item::Dir(Dir { date: g.date(r), kind: Kind::Close(g.acc(r)), inline: vec![], meta: vec![] }));
        let at = r.below(items.len() + 1);
        items.splice(at..at, tower);
        ctx.count("pushed many times over");
    }
    let leave = faulty && r.pct(60);
    for t in tags {
        if !(leave && r.pct(50)) {
            items.push(Item::PopTag(t));
        }
    }
    for k in keys {
        if !(leave && r.pct(50)) {
            items.push(Item::PopMeta(k));
        }
    }
    with_ids(&mut items);
    let split = r.pct(50);
    let ledger = if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let style = if r.pct(60) { Style::canonical() } else { Style::random(r) };
    let files: Vec<EFile> = ledger.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    let (s, fs) = if split {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        let Ok(s) = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))) else {
            ctx.count("not loaded (decided elsewhere)");
            return Ok(());
        };
        (s, Files::on_disk(&d, &files))
    } else {
        (BeancountSources::from(files[0].text.as_str()), Files::inline(&files[0].text))
    };
    let m = meaning(&files);
    // what is unbalanced: (file, start, limit)
    let mut bad: Vec<(usize, usize, usize)> = vec![]; // each needs an error
    let mut groups: Vec<Vec<(usize, usize, usize)>> = vec![]; // each group needs an error at one of its places
    history(&files, &mut bad, &mut groups);
    let parser = BeancountParser::new(&s);
    let pragma_lines: Vec<(usize, usize, usize)> = files
        .iter()
        .enumerate()
        .flat_map(|(i, f)| {
            f.items
                .iter()
                .filter(|it| matches!(it.kind, EKind::PushTag(..) | EKind::PopTag(..) | EKind::PushMeta(..) | EKind::PopMeta(..)))
                .map(move |it| (i, it.start, it.end))
        })
        .collect();
    match parser.parse() {
        Err(e) => {
            let at = |x: &lima::Error, p: &(usize, usize, usize)| file_of(&s, &fs, &x.span()) == Some(p.0) && overlaps(&x.span(), p.1, p.2);
            for x in &e.errors {
                let expected = bad.iter().chain(groups.iter().flatten()).any(|p| at(x, p));
                if !expected && pragma_lines.iter().any(|p| at(x, p)) {
                    return Err(format!("error at a balanced push or pop: {}", show_errors(&s, &e)));
                }
                if !expected && !(bad.is_empty() && groups.is_empty()) {
                    ctx.count("rejected elsewhere (decided elsewhere)");
                    return Ok(());
                }
            }
            for p in &bad {
                if !e.errors.iter().any(|x| at(x, p)) {
                    return Err(format!("no error at the unbalanced {:?}", &files[p.0].text[p.1..p.2]));
                }
            }
            for g in &groups {
                if !g.iter().any(|p| e.errors.iter().any(|x| at(x, p))) {
                    return Err(format!("no error at the unbalanced {:?}", &files[g[0].0].text[g[0].1..g[0].2]));
                }
            }
            if bad.is_empty() && groups.is_empty() {
                return Err(format!("balanced pushes and pops rejected: {}", show_errors(&s, &e)));
            }
            ctx.add("unbalanced pragmas reported", (bad.len() + groups.len()) as u64);
            ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
            Ok(())
        }
        Ok(ok) => {
            if let Some(p) = bad.iter().chain(groups.iter().flatten()).next() {
                return Err(format!("accepted in spite of the unbalanced {:?}", &files[p.0].text[p.1..p.2]));
            }
            let obs = directives(&ok);
            let mut pushed = 0;
            for e in &m.dirs {
                let Some(o) = obs.iter().find(|o| id_of(o) == id_of_facts(e)) else {
                    ctx.count("directive missing (decided elsewhere)");
                    continue;
                };
                let only = |p: &str| {
                    let p = p.split_once("].").filter(|(a, _)| a.starts_with("posting[")).map(|x| x.1).unwrap_or(p);
                    p.starts_with("tag[") || p.starts_with("key[") || p.starts_with("meta[") || p.starts_with("lookup[")
                };
                if let Some(d) = diff_facts(&e.facts, &o.facts, &only) {
                    return Err(format!("directive {:?} has the wrong tags or metadata: {}", files[e.file].text.get(e.start..e.end).unwrap_or(""), d));
                }
                ctx.add("tags and keys compared", e.facts.iter().filter(|f| only(&f.path)).count() as u64);
                pushed += e
                    .facts
                    .iter()
                    .filter(|f| f.path.starts_with("tag[") || f.path.starts_with("key["))
                    .filter(|f| f.file != e.file || !matches!(f.sp, Sp::At(a, b) if e.start <= a && b <= e.limit))
                    .count() as u64;
            }
            ctx.add("tags and keys in force from a push", pushed);
            if split {
                ctx.count("ledgers over several files");
            }
            if pushed > 0 {
                ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
                ctx.sample(&files[0].text);
            }
            Ok(())
        }
    }
}

type Place = (usize, usize, usize);

fn history(files: &[EFile], bad: &mut Vec<Place>, groups: &mut Vec<Vec<Place>>) {
    #[derive(Default)]
    struct H {
        seen: Vec<usize>,
        tags: Vec<(String, Place)>,
        keys: Vec<(String, Place)>,
        bad: Vec<Place>,
    }
    fn walk(files: &[EFile], i: usize, h: &mut H) {
        if h.seen.contains(&i) {
            return;
        }
        h.seen.push(i);
        for it in &files[i].items {
            let p = (i, it.start, it.end);
            match &it.kind {
                EKind::PushTag(t, _) => h.tags.push((t.clone(), p)),
                EKind::PushMeta(k, _) => h.keys.push((k.clone(), p)),
                EKind::PopTag(t) => match h.tags.iter().rposition(|x| x.0 == *t) {
                    Some(x) => {
                        h.tags.remove(x);
                    }
                    None => h.bad.push(p),
                },
                EKind::PopMeta(t) => match h.keys.iter().rposition(|x| x.0 == *t) {
                    Some(x) => {
                        h.keys.remove(x);
                    }
                    None => h.bad.push(p),
                },
                EKind::Include { files: fs, .. } => {
                    for f in fs {
                        walk(files, *f, h);
                    }
                }
                _ => {}
            }
        }
    }
    let mut h = H::default();
    walk(files, 0, &mut h);
    *bad = h.bad;
    // several open pushes of one name may be reported at any of them
    for v in [&h.tags, &h.keys] {
        let mut names: Vec<&String> = v.iter().map(|x| &x.0).collect();
        names.sort();
        names.dedup();
        for n in names {
            groups.push(v.iter().filter(|x| x.0 == *n).map(|x| x.1).collect());
        }
    }
}

// ---------------------------------------------------------------- C17

fn hostile_lit(r: &mut Rng) -> Lit {
    let mut src = String::new();
    let mut val = String::new();
    for _ in 0..r.range(0, 12) {
        match r.below(10) {
            0..=2 => {
                let (s, v) = *r.pick(&[
                    ("\\\"", "\""),
                    ("\\\\", "\\"),
                    ("\\n", "\n"),
                    ("\\t", "\t"),
                    ("\\r", "\r"),
                    ("\\'", "'"),
                    ("\\/", "/"),
                    ("\\b", "\u{8}"),
                    ("\\f", "\u{c}"),
                    ("\\u{1F600}", "😀"),
                    ("\\u{0}", "\0"),
                    ("\\u00e9", "é"),
                    ("\\x41", "A"),
                    ("\\xe9", "é"),
                    ("\\\\\\\\", "\\\\"),
                    ("\\\\n", "\\n"),
                    ("\\\\\\\"", "\\\""),
                ]);
                src.push_str(s);
                val.push_str(v);
            }
            3 => {
                let t = *r.pick(&["\n", "\r\n", "\n\n", "\t", "\n  Assets:A 1 USD\n", "\n; c\n", "\n* h\n", "  ", "\r"]);
                src.push_str(t);
                val.push_str(t);
            }
            4..=6 => {
                let t = *r.pick(&["é", "银行", "😀", "e\u{301}", "\u{feff}", "\u{200b}", "ß", "\u{85}", "\u{2028}", "Ж", "\u{10ffff}", "\u{7f}", "\u{1}"]);
                src.push_str(t);
                val.push_str(t);
            }
            _ => {
                let t = *r.pick(&["a", "option", ";", "#x", "'", "{", "}", " ", "0", "; \\\\", "2024-01-01", "|", "n", "u{41}", "x41"]);
                let esc = t.replace("\\\\", "\\");
                src.push_str(t);
                val.push_str(&esc);
            }
        }
    }
    Lit { src, val }
}

/// a literal of that many lines
fn lines_lit(r: &mut Rng, lines: usize) -> Lit {
    let mut src = String::new();
    let mut val = String::new();
    for i in 0..lines {
        if i > 0 {
            match r.below(10) {
                0 => {
                    src.push_str("\\n");
                    val.push('\n');
                }
                1 => {
                    src.push_str("\r\n");
                    val.push_str("\r\n");
                }
                _ => {
                    src.push('\n');
                    val.push('\n');
                }
            }
        }
        let w = *r.pick(&["x", "é", "", "line", "; c", "  y"]);
        src.push_str(w);
        val.push_str(w);
    }
    Lit { src, val }
}

fn map_lits(d: &mut Dir, f: &mut dyn FnMut(&mut Lit)) {
    fn mv(v: &mut MV, f: &mut dyn FnMut(&mut Lit)) {
        if let MV::Str(l) = v {
            f(l)
        }
    }
    fn meta(m: &mut [MetaItem], f: &mut dyn FnMut(&mut Lit)) {
        for x in m {
            if let MetaItem::KV(k, v) = x {
                if k != "zzid" {
                    mv(v, f)
                }
            }
        }
    }
    match &mut d.kind {
        Kind::Txn { strings, postings, .. } => {
            strings.iter_mut().for_each(&mut *f);
            for p in postings {
                for c in p.cost.iter_mut().flatten() {
                    if let CC::Label(l) = c {
                        f(l)
                    }
                }
                meta(&mut p.meta, f);
            }
        }
        Kind::Document(_, l) | Kind::Note(_, l) => f(l),
        Kind::Event(a, b) | Kind::Query(a, b) => {
            f(a);
            f(b)
        }
        Kind::Custom(a, vs) => {
            f(a);
            for v in vs {
                mv(v, f)
            }
        }
        _ => {}
    }
    meta(&mut d.meta, f);
}

pub fn c17(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.pct(20) {
        return c17_bad(ctx, r);
    }
    let g = Gen { unicode: true, expr_depth: 0, max_items: 6, pragmas: false, dates: 0, long_strings: false, kinds: vec![0, 0, 7, 8, 9, 10, 11, 3] };
    let mut items = g.items(r);
    with_ids(&mut items);
    let long = r.pct(50);
    let max_opt = if long && r.pct(70) { Some(if r.pct(4) { *r.pick(&[255, 256, 257, 300, 1000]) } else { *r.pick(&[1usize, 2, 3, 5, 10, 63, 64, 65, 100]) }) } else { None };
    let max = max_opt.unwrap_or(64);
    let mut reached = 0u64;
    for it in items.iter_mut() {
        if let Item::Dir(d) = it {
            map_lits(d, &mut |l| {
                let keep_empty = l.val.is_empty();
                *l = if long && r.pct(40) {
                    let n = *r.pick(&[1, 2, max.saturating_sub(1).max(1), max, max + 1, max + 2, max * 2]);
                    lines_lit(r, n)
                } else if long {
                    lines_lit(r, 1)
                } else {
                    let mut h = hostile_lit(r);
                    if r.pct(1) {
                        // a long way in
                        let a = "abc ".repeat(r.range(10, 4000));
                        h = Lit { src: format!("{}{}", a, h.src), val: format!("{}{}", a, h.val) };
                    }
                    h
                };
                if keep_empty != l.val.is_empty() && l.val.is_empty() {
                    *l = Lit::plain("x");
                }
                if l.val.matches('\n').count() == max {
                    reached += 1;
                }
            });
        }
    }
    let style = if r.pct(50) { Style::canonical() } else { Style::random(r) };
    if let Some(n) = max_opt {
        items.insert(0, Item::Opt(Lit::plain("long_string_maxlines"), Lit::plain(&n.to_string())));
        if r.pct(30) {
            // and another along the way
            for _ in 0..r.range(1, 2) {
                let at = r.range(1, items.len());
                let n = *r.pick(&[0usize, 1, 2, 64, max, max + 1, 1000]);
                items.insert(at, Item::Opt(Lit::plain("long_string_maxlines"), Lit::plain(&n.to_string())));
            }
            ctx.count("limit changed along the way");
        }
    }
    // strings outside of directives as well
    if r.pct(30) {
        let na = *r.pick(&[1, max, max + 1]);
        let a = if long { lines_lit(r, na) } else { hostile_lit(r) };
        let b = if r.pct(50) { Some(if long { lines_lit(r, max + 1) } else { hostile_lit(r) }) } else { None };
        items.push(Item::Plugin(a, b));
    }
    let f = Printer::new(&style).file(r, 0, &one_file(items));
    ctx.input("ledger", &f.text);
    let m = meaning(std::slice::from_ref(&f));
    let s = BeancountSources::from(f.text.as_str());
    let fs = Files::inline(&f.text);
    let parser = BeancountParser::new(&s);
    let strings: Vec<&Fact> = m.dirs.iter().flat_map(|d| d.facts.iter()).chain(m.plugins.iter().flatten()).filter(|x| x.vals[0].starts_with('"')).collect();
    let ok = match parser.parse() {
        Ok(ok) => ok,
        Err(e) => {
            for x in &e.errors {
                let sp = x.span();
                for n in &strings {
                    if let Sp::At(a, b) = n.sp {
                        if sp.start < b && sp.end > a {
                            return Err(format!("string {:?} rejected: {}", f.text.get(a..b), show_errors(&s, &e)));
                        }
                    }
                }
            }
            ctx.count("rejected (decided elsewhere)");
            return Ok(());
        }
    };
    let obs = directives(&ok);
    let is_str = |f: &&Fact| f.vals[0].starts_with('"');
    for e in &m.dirs {
        let Some(o) = obs.iter().find(|o| id_of(o) == id_of_facts(e)) else {
            ctx.count("directive missing (decided elsewhere)");
            continue;
        };
        for x in e.facts.iter().filter(is_str) {
            let Some(of) = o.get(&x.path) else {
                ctx.count("string missing (decided elsewhere)");
                continue;
            };
            ctx.count("strings compared");
            if !x.vals.contains(&of.val) {
                return Err(format!("{}: string written as {:?} reads as {:?}", x.path, x.vals[0].get(1..), of.val.get(1..)));
            }
        }
    }
    if ok.plugins.len() == m.plugins.len() {
        for (e, o) in m.plugins.iter().zip(&ok.plugins) {
            if let Some(d) = diff_facts(e, &plugin(o), &|_| true) {
                return Err(format!("plugin: {}", d));
            }
            ctx.count("strings compared");
        }
    }
    // the limit in force at a place
    let mut limits: Vec<(usize, usize)> = vec![(0, 64)];
    if max_opt.is_some() {
        for (i, m) in f.text.match_indices("\"long_string_maxlines\"") {
            let rest = &f.text[i + m.len()..];
            if let Some(n) = rest.split('"').nth(1).and_then(|v| v.parse().ok()) {
                limits.push((i + m.len(), n));
            }
        }
    }
    let limit = |a: usize| limits.iter().rev().find(|l| l.0 <= a).map_or(64, |l| l.1);
    // warnings: exactly one for each long string
    let mut expected: Vec<(usize, usize)> = vec![];
    for x in &strings {
        if let Sp::At(a, b) = x.sp {
            if x.vals[0].matches('\n').count() + 1 > limit(a) {
                expected.push((a, b));
            } else {
                ctx.count("strings within the limit");
            }
        }
    }
    let mut got: Vec<(usize, usize)> = vec![];
    for w in &ok.warnings {
        let sp = w.span();
        let Some(e) = expected.iter().find(|e| (e.0, e.1) == (sp.start, sp.end)) else {
            let hit = strings.iter().any(|x| matches!(x.sp, Sp::At(a, b) if overlaps(&sp, a, b)));
            if hit {
                return Err(format!("warning {:?} at {:?}, which has no more than {} lines", w.message(), s.resolve_span(&sp).content, limit(sp.start)));
            }
            ctx.count("other warnings");
            continue;
        };
        if got.contains(e) {
            return Err(format!("more than one warning for the string {:?}", &f.text[e.0..e.1]));
        }
        got.push(*e);
        if let Some(msg) = fs.check(&s, &sp, 0, e.0, e.1) {
            return Err(format!("warning at the wrong place: {}", msg));
        }
        let max = limit(e.0);
        if max_opt.is_some() && !w.related().any(|(_, x)| s.resolve_span(&x).content.trim_matches('"') == max.to_string()) {
            return Err(format!("warning does not point at the configured maximum of {} lines", max));
        }
    }
    if let Some(e) = expected.iter().find(|e| !got.contains(e)) {
        return Err(format!("no warning for the string of more than {} lines {:?}", limit(e.0), &f.text[e.0..e.1]));
    }
    ctx.add("warnings for long strings", got.len() as u64);
    ctx.add("strings one line over the limit", reached);
    if strings.iter().any(|x| x.vals[0].len() > 1) {
        ctx.nontrivial(&f.text);
        ctx.sample(&f.text);
    }
    Ok(())
}

fn c17_bad(ctx: &mut Ctx, r: &mut Rng) -> R {
    let good = hostile_lit(r);
    let bad = match r.below(3) {
        0 => {
            // an escape that is not one
            let e = *r.pick(&["\\q", "\\8", "\\ ", "\\é", "\\Z", "\\x4", "\\xzz", "\\u{110000}", "\\u{d800}", "\\u{zz}", "\\u12", "\\9", "\\-", "\\;"]);
            let tail = *r.pick(&["", " ", "z"]);
            format!("\"{}{}{}\"", good.src, e, tail)
        }
        1 => format!("\"{}", good.src.replace("\\\"", "q")), // never closed
        _ => format!("\"{}\\\"", good.src),                   // the closing quote escaped
    };
    let (pre, post) = *r.pick(&[
        ("2024-01-02 note Assets:A ", "\n"),
        ("2024-01-02 txn ", "\n  Assets:A 1 USD\n"),
        ("2024-01-02 open Assets:A\n  key: ", "\n"),
        ("2024-01-02 event \"x\" ", "\n"),
        ("plugin ", "\n"),
        ("2024-01-02 custom ", "\n"),
    ]);
    let before = "2024-01-01 open Assets:A\n";
    let text = format!("{}{}{}{}2024-02-01 open Assets:Z\n", before, pre, bad, post);
    ctx.input("ledger", &text);
    let s = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Ok(_) => Err(format!("malformed string {:?} accepted", bad)),
        Err(ParseError { errors, .. }) => {
            if !errors.iter().any(|e| e.span().end >= before.len()) {
                return Err(format!("malformed string {:?} is not reported where it stands", bad));
            }
            ctx.count("malformed strings rejected");
            ctx.nontrivial(&text);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C13

pub fn c13(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut g = gen_profile(r);
    g.expr_depth = *r.pick(&[0, 2, 4]);
    let mut items = g.items(r);
    for it in items.iter_mut() {
        if let Item::Dir(d) = it {
            if r.pct(30) {
                map_lits(d, &mut |l| {
                    if !l.val.is_empty() {
                        *l = hostile_lit(r);
                    }
                });
            }
        }
    }
    let style = if r.pct(50) { Style::canonical() } else { Style::random(r) };
    let f = Printer::new(&style).file(r, 0, &one_file(items));
    ctx.input("ledger", &f.text);
    let s = BeancountSources::from(f.text.as_str());
    let parser = BeancountParser::new(&s);
    let Ok(ok) = parser.parse() else {
        ctx.count("rejected (decided elsewhere)");
        return Ok(());
    };
    for d in &ok.directives {
        let shown = format!("{}\n", d.item());
        let spanned = format!("{}\n", d);
        let want = directive(d);
        for (which, text) in [("item", &shown), ("spanned", &spanned)] {
            let text = if which == "spanned" && shown == spanned { continue } else { text };
            if which == "spanned" {
                // shown with its position as well; only the item itself is ledger text
                ctx.count("displayed with position");
                continue;
            }
            let s2 = BeancountSources::from(text.as_str());
            let p2 = BeancountParser::new(&s2);
            match p2.parse() {
                Err(e) => {
                    ctx.input("displayed", text);
                    return Err(format!("displayed directive does not parse: {:?}: {}", text, show_errors(&s2, &e)));
                }
                Ok(ok2) => {
                    let got = directives(&ok2);
                    if got.len() != 1 {
                        ctx.input("displayed", text);
                        return Err(format!("displayed directive {:?} parses to {} directives", text, got.len()));
                    }
                    let (a, b) = (want.values(), got[0].values());
                    if a != b {
                        let d = a.iter().zip(&b).find(|(x, y)| x != y).map(|(x, y)| format!("{:?} became {:?}", x, y));
                        let d = d.unwrap_or_else(|| format!("{} values became {}", a.len(), b.len()));
                        ctx.input("displayed", text);
                        return Err(format!("displayed directive {:?} parses to another: {}", text, d));
                    }
                    // up to the order of the unordered parts, it is shown the same again
                    let again = format!("{}\n", ok2.directives[0].item());
                    if sorted_chars(&again) != sorted_chars(text) {
                        ctx.input("displayed", text);
                        return Err(format!("displayed as {:?}, and when parsed again as {:?}", text, again));
                    }
                    ctx.count("directives displayed and parsed back");
                    ctx.add("fields compared", a.len() as u64);
                    ctx.count(&format!("kind {}", want.get("kind").map(|k| k.val.clone()).unwrap_or_default()));
                    ctx.nontrivial(text);
                    ctx.sample(text);
                }
            }
        }
    }
    for p in &ok.plugins {
        let text = format!("{}\n", p);
        let s2 = BeancountSources::from(text.as_str());
        let p2 = BeancountParser::new(&s2);
        match p2.parse() {
            Err(e) => return Err(format!("displayed plugin does not parse: {:?}: {}", text, show_errors(&s2, &e))),
            Ok(ok2) => {
                let v = |p: &lima::Plugin| plugin(p).into_iter().map(|f| (f.path, f.val)).collect::<Vec<_>>();
                if ok2.plugins.len() != 1 || v(&ok2.plugins[0]) != v(p) {
                    return Err(format!("displayed plugin {:?} parses to another", text));
                }
                ctx.count("plugins displayed and parsed back");
            }
        }
    }
    Ok(())
}

fn sorted_chars(s: &str) -> Vec<char> {
    let mut v: Vec<char> = s.chars().collect();
    v.sort();
    v
}
