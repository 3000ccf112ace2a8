//! What errors say about their surroundings.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::p_model::*;
use crate::p_values::file_of;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, Report, Span};

// ---------------------------------------------------------------- C25

/// a line of a directive other than its first: where it begins, where its first element is, and whether that of a posting
#[derive(Clone, Copy, Debug)]
struct Line {
    at: usize,
    first: usize,
    posting: bool,
}

/// a declaration with exactly one thing wrong, all positions from its beginning
struct Bad {
    text: String,
    /// transaction, directive
    outer: &'static str,
    /// which kind, for a label of its own
    kind: &'static str,
    /// where the error may begin
    at: Vec<usize>,
    /// nothing is read beyond what is wrong
    stops: bool,
    lines: Vec<Line>,
    /// the elements on which the error stands are those of a posting, of metadata
    what: &'static str,
}

const ALIEN: &[&str] = &["$", "`", "=", "[", "€", "é", "😀", "\u{a0}", "]]"];

fn line_begin(t: &str, p: usize) -> usize {
    t[..p].rfind('\n').map(|i| i + 1).unwrap_or(0)
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| c == ' ' || c == '\t')
}

fn lines_of(text: &str, facts: &[Fact]) -> Vec<Line> {
    let mut v: Vec<Line> = vec![];
    for f in facts {
        let Sp::At(a, _) = f.sp else { continue };
        let at = line_begin(text, a);
        if at == 0 || a == at || !blank(&text[at..a]) {
            continue;
        }
        // a posting begins by its flag or account, metadata by its key, tag or link
        let (posting, rest) = match f.path.strip_prefix("posting[").and_then(|x| x.split_once("].")) {
            Some((_, rest)) => (true, rest),
            None => (false, f.path.as_str()),
        };
        let own = rest.starts_with("key[") || rest.starts_with("tag[") || rest.starts_with("link[");
        if !own && !(posting && matches!(rest, "flag" | "account")) {
            continue;
        }
        if !v.iter().any(|l| l.at == at) {
            v.push(Line { at, first: a, posting: posting && !own });
        }
    }
    v.sort_by_key(|l| l.at);
    v
}

fn print(r: &mut Rng, d: Dir, plain: bool) -> (String, EDir) {
    let style = if plain { Style::canonical() } else { Style { final_nl: true, head: 0, ..Style::random(r) } };
    let f = Printer::new(&style).file(r, 0, &one_file(vec![Item::Dir(d)]));
    for it in &f.items {
        if let EKind::Dir(e) = &it.kind {
            let mut e = e.clone();
            let s = e.start;
            for x in &mut e.facts {
                if let Sp::At(a, b) = &mut x.sp {
                    *a -= s;
                    *b -= s;
                }
            }
            return (f.text[s..e.end].to_string(), e);
        }
    }
    unreachable!()
}

fn bad(r: &mut Rng, g: &Gen) -> Bad {
    loop {
        if r.pct(15) {
            // pragmas
            let x = *r.pick(ALIEN);
            let t = match r.below(9) {
                0 => "pushtag ? #x".to_string(),
                1 => "poptag ?#x".to_string(),
                2 => "pushmeta ? aa: 1".to_string(),
                3 => "pushmeta aa: ? 1".to_string(),
                4 => "popmeta aa ? :".to_string(),
                5 => "option ? \"title\" \"x\"".to_string(),
                6 => "option \"title\" ? \"x\"".to_string(),
                7 => "plugin \"aa\" ? \"x\"".to_string(),
                _ => "plugin ? \"aa\"".to_string(),
            };
            let at = t.find('?').unwrap();
            return Bad { text: t.replace('?', x), outer: "directive", kind: "pragma", at: vec![at], stops: true, lines: vec![], what: "in a pragma" };
        }
        if r.pct(6) {
            let t = *r.pick(&["option ?\"no_such_option\" \"x\"", "option \"render_commas\" ?\"x\"", "option \"operating_currency\" ?\"x\"", "option \"name_assets\" ?\"x\"", "option \"booking_method\" ?\"BOGUS\""]);
            let at = t.find('?').unwrap();
            return Bad { text: t.replace('?', ""), outer: "directive", kind: "pragma", at: vec![at], stops: false, lines: vec![], what: "bad option" };
        }
        let d = g.dir(r);
        let plain = r.pct(60);
        let (text, e) = print(r, d, plain);
        let places: Vec<(usize, usize, &str)> =
            e.facts.iter().filter_map(|x| if let Sp::At(a, b) = x.sp { Some((a, b, x.path.as_str())) } else { None }).filter(|x| x.0 > 0).collect();
        if places.is_empty() {
            continue;
        }
        let outer = if e.kind == "transaction" { "transaction" } else { "directive" };
        let lines = lines_of(&text, &e.facts);
        let (a, b, path) = *r.pick(&places);
        match r.below(4) {
            0 => {
                // a number without a value
                if !(path.ends_with(".num") || path == "num") || text[a..b].contains('\n') {
                    continue;
                }
                let add = "1/0";
                let lines = lines.into_iter().map(|l| if l.at > a { Line { at: l.at + add.len() - (b - a), first: l.first + add.len() - (b - a), ..l } } else { l }).collect();
                return Bad { text: format!("{}{}{}", &text[..a], add, &text[b..]), outer, kind: e.kind, at: vec![a], stops: false, lines, what: "without a value" };
            }
            1 => {
                // the last line once more, when that is metadata
                let Some(l) = lines.last().copied() else { continue };
                if l.posting || plain && text[l.at..].contains('\n') {
                    continue;
                }
                let n = e.facts.iter().find(|x| matches!(x.sp, Sp::At(a, _) if a == l.first)).unwrap();
                let Sp::At(a, b) = n.sp else { continue };
                // tags and links also stand on the first line
                let name = text[a..b].to_string();
                let again = if name.starts_with(['#', '^']) { name.clone() } else { format!("{}: 1", name) };
                let t = format!("{}\n  {}", text, again);
                let second = text.len() + 3;
                let mut lines = lines;
                lines.push(Line { at: text.len() + 1, first: second, posting: false });
                return Bad { text: t, outer, kind: e.kind, at: vec![a, second], stops: false, lines, what: "given twice" };
            }
            _ => {
                let x = *r.pick(ALIEN);
                let t = format!("{}{} {}", &text[..a], x, &text[a..]);
                let lines = lines.into_iter().map(|l| if l.at > a { Line { at: l.at + x.len() + 1, first: l.first + x.len() + 1, ..l } } else { l }).collect();
                return Bad { text: t, outer, kind: e.kind, at: vec![a], stops: true, lines, what: "alien character" };
            }
        }
    }
}

/// the contexts of an error on something wrong in `b`, which stands at `base` of file `i`
fn contexts(ctx: &mut Ctx, b: &Bad, base: usize, e: u64, span: &Span, cs: &[(String, Span)]) -> R {
    let fail = |what: &str| -> R {
        Err(format!("{} ({}): error {} at {}..{}, in {:?}, which begins at {}", what, b.what, e, span.start, span.end, cs.iter().map(|(l, s)| format!("{} {}..{}", l, s.start, s.end)).collect::<Vec<_>>(), base))
    };
    if cs.is_empty() {
        return fail("no context");
    }
    let p = span.start - base;
    let line = b.lines.iter().rfind(|l| l.at <= p);
    let posting = b.lines.iter().rfind(|l| l.at <= p && l.posting);
    let mut outer = None;
    let (mut in_posting, mut in_metadata) = (false, false);
    for (l, s) in cs {
        if s.start < base || s.start > span.start || b.stops && s.end > span.start {
            return fail(&format!("the {} is not around the error", l));
        }
        if let Some(o) = outer {
            if s.start > o {
                return fail("contexts not from inner to outer");
            }
        }
        outer = Some(s.start);
        let c = s.start - base;
        let on = |x: Option<&Line>| x.is_some_and(|x| x.at.saturating_sub(1) <= c && c <= x.first);
        match l.as_str() {
            "metadata" => {
                in_metadata = true;
                if !on(line) || line.is_some_and(|x| x.posting && p > x.first) {
                    return fail("not in this metadata");
                }
            }
            "posting" => {
                in_posting = true;
                if b.outer != "transaction" || !(on(posting) || line.is_some_and(|x| p == x.first) && (on(line) || on(b.lines.iter().rfind(|l| l.at < line.unwrap().at && l.posting)))) {
                    return fail("not in this posting");
                }
            }
            l if l == b.outer || l == b.kind => {
                if c != 0 {
                    return fail(&format!("the {} does not begin there", l));
                }
            }
            l => return fail(&format!("what is this {:?}", l)),
        }
    }
    if outer != Some(base) || cs.last().unwrap().0 != b.outer {
        return fail(&format!("the {} it stands in is not named", b.outer));
    }
    if b.stops {
        if let Some(l) = line {
            if p > l.first {
                if !l.posting && !in_metadata {
                    return fail("the metadata it stands in is not named");
                }
                if posting.is_some() && !in_posting && (l.posting || posting.is_some_and(|x| x.at < l.at)) {
                    return fail("the posting it stands in is not named");
                }
            }
        }
    }
    ctx.count(b.what);
    ctx.add("contexts compared", cs.len() as u64);
    if in_posting && in_metadata {
        ctx.count("in the metadata of a posting");
    } else if in_posting {
        ctx.count("in a posting");
    } else if in_metadata {
        ctx.count("in metadata");
    }
    Ok(())
}

pub fn c25(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.pct(25) {
        return related(ctx, r);
    }
    let g = Gen { unicode: r.pct(50), expr_depth: 1, max_items: 4, pragmas: false, dates: 0, long_strings: false, kinds: vec![] };
    let mut items: Vec<Item> = vec![];
    for _ in 0..r.below(3) {
        items.push(Item::Dir(g.dir(r)));
    }
    let mut bads = vec![];
    for _ in 0..r.range(1, 3) {
        let b = bad(r, &g);
        items.push(Item::Raw(b.text.clone()));
        bads.push(b);
        for _ in 0..r.range(1, 2) {
            items.push(Item::Dir(g.dir(r)));
        }
    }
    let split = r.pct(25);
    let ledger = if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let style = if r.pct(60) { Style::canonical() } else { Style::random(r) };
    let files: Vec<EFile> = ledger.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    let (s, fs) = if split {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        let Ok(s) = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))) else {
            ctx.count("not loaded (decided elsewhere)");
            return Ok(());
        };
        (s, Files::on_disk(&d, &files))
    } else {
        (BeancountSources::from(files[0].text.as_str()), Files::inline(&files[0].text))
    };
    // where each of them went
    let mut left: Vec<&Bad> = bads.iter().collect();
    let mut placed: Vec<(usize, usize, &Bad)> = vec![];
    for (i, f) in files.iter().enumerate() {
        for it in &f.items {
            if let EKind::Raw = it.kind {
                if let Some(k) = left.iter().position(|b| f.text[it.start..].starts_with(b.text.as_str())) {
                    placed.push((i, it.start, left.remove(k)));
                }
            }
        }
    }
    let parser = BeancountParser::new(&s);
    let Err(e) = parser.parse() else {
        ctx.count("accepted (decided elsewhere)");
        return Ok(());
    };
    let mut seen = 0;
    for (i, base, b) in placed {
        for (n, x) in e.errors.iter().enumerate() {
            let sp = x.span();
            if file_of(&s, &fs, &sp) != Some(i) || !b.at.iter().any(|a| base + a == sp.start) {
                continue;
            }
            let cs: Vec<(String, Span)> = x.contexts().map(|(l, s)| (l.to_string(), s)).collect();
            if let Some((l, c)) = cs.iter().find(|c| file_of(&s, &fs, &c.1) != Some(i)) {
                return Err(format!("error at {}..{} of {:?} is in this {} at {}..{} of {:?}", sp.start, sp.end, s.resolve_span(&sp).file_name, l, c.start, c.end, s.resolve_span(c).file_name));
            }
            contexts(ctx, b, base, n as u64, &sp, &cs)?;
            seen += 1;
        }
    }
    if seen > 0 {
        ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
        ctx.sample(&files[0].text);
        if split {
            ctx.count("ledgers over several files");
        }
    }
    Ok(())
}

/// errors about something given before name the place where
fn related(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = Gen { unicode: r.pct(50), expr_depth: 1, max_items: 4, pragmas: false, dates: 0, long_strings: false, kinds: vec![] };
    let mut items: Vec<Item> = vec![];
    for _ in 0..r.below(4) {
        items.push(Item::Dir(g.dir(r)));
    }
    let single: &[(&str, &[&str])] = &[
        ("title", &["a", "b", "é"]),
        ("render_commas", &["TRUE", "0"]),
        ("booking_method", &["FIFO", "STRICT"]),
        ("account_rounding", &["Rounding", "R:S"]),
        ("account_previous_balances", &["X", "Y"]),
        ("account_previous_earnings", &["X", "Y"]),
        ("account_previous_conversions", &["X", "Y"]),
        ("account_current_earnings", &["X", "Y"]),
        ("account_current_conversions", &["X", "Y"]),
        ("account_unrealized_gains", &["X", "Y"]),
        ("conversion_currency", &["USD", "EUR"]),
        ("inferred_tolerance_multiplier", &["1", "1.5"]),
        ("infer_tolerance_from_cost", &["TRUE", "FALSE"]),
        ("plugin_processing_mode", &["RAW", "DEFAULT"]),
    ];
    let multi: &[(&str, &[&str])] = &[("operating_currency", &["USD"]), ("operating_currency", &["EUR"]), ("inferred_tolerance_default", &["USD:1", "USD:2"]), ("inferred_tolerance_default", &["*:1", "*:0.5"])];
    let mut given: Vec<(&str, bool, &[&str])> = vec![];
    for _ in 0..r.range(1, 2) {
        let (name, values, by_value) = if r.pct(60) {
            let x = r.pick(single);
            (x.0, x.1, false)
        } else {
            let x = r.pick(multi);
            (x.0, x.1, true)
        };
        if given.iter().any(|g| g.0 == name) {
            continue;
        }
        given.push((name, by_value, values));
        for _ in 0..r.range(2, 3) {
            let at = r.below(items.len() + 1);
            items.insert(at, Item::Opt(Lit::plain(name), Lit::plain(*r.pick(values))));
        }
    }
    let split = r.pct(40);
    let ledger = if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let style = if r.pct(60) { Style::canonical() } else { Style::random(r) };
    let mut files: Vec<EFile> = ledger.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    // a file included again while something else is pushed
    let mut includes: Vec<(usize, usize)> = vec![];
    let again = split && r.pct(50);
    if again {
        let nl = if files[0].text.ends_with('\n') || files[0].text.is_empty() { "" } else { "\n" };
        let push = *r.pick(&["pushtag #again", "pushmeta again: 1"]);
        let pop = if push.starts_with("pushtag") { "poptag #again" } else { "popmeta again:" };
        let t = &mut files[0].text;
        t.push_str(nl);
        for k in 0..r.range(2, 3) {
            if k > 0 {
                t.push_str(push);
                t.push('\n');
            }
            t.push_str("include ");
            includes.push((t.len(), t.len() + 13));
            t.push_str("\"again.added\"\n");
            if k > 0 {
                t.push_str(pop);
                t.push('\n');
            }
        }
        files.push(EFile { path: "again.added".into(), text: "2020-01-01 open Assets:Again\n".into(), items: vec![] });
    }
    // something included which cannot be read
    let mut unread: Option<(usize, usize)> = None;
    let sort = r.below(6);
    let wild = r.pct(30);
    if split && r.pct(40) {
        let t = &mut files[0].text;
        if !(t.ends_with('\n') || t.is_empty()) {
            t.push('\n');
        }
        t.push_str("include ");
        let a = t.len();
        t.push_str(if wild { "\"unread.*\"" } else { "\"unread.file\"" });
        unread = Some((a, t.len()));
        t.push('\n');
    }
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    let (s, fs) = if split {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        if unread.is_some() {
            let p = std::path::Path::new(&d).join(&files[0].path).with_file_name("unread.file");
            use std::os::unix::fs::symlink;
            match sort {
                0 | 1 => symlink("nowhere", &p),
                2 => symlink("unread.file", &p),
                3 => symlink("nowhere/further", &p),
                4 => std::fs::create_dir(&p),
                _ => std::fs::write(&p, b"\xff\xfe"),
            }
            .expect("unreadable");
        }
        let Ok(s) = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))) else {
            ctx.count("not loaded (decided elsewhere)");
            return Ok(());
        };
        (s, Files::on_disk(&d, &files))
    } else {
        (BeancountSources::from(files[0].text.as_str()), Files::inline(&files[0].text))
    };
    let parser = BeancountParser::new(&s);
    let Err(e) = parser.parse() else {
        ctx.count("accepted (decided elsewhere)");
        return Ok(());
    };
    let mut seen = 0;
    let mut check = |ctx: &mut Ctx, what: &str, spots: &[(usize, usize, usize)], first_only: bool| -> R {
        for x in &e.errors {
            let sp = x.span();
            let f = file_of(&s, &fs, &sp);
            let Some(me) = spots.iter().position(|p| Some(p.0) == f && p.1 <= sp.start && sp.end <= p.2 && sp.start < sp.end) else { continue };
            let rel: Vec<Span> = x.related().map(|r| r.1).collect();
            let ok = rel.iter().any(|y| {
                let f = file_of(&s, &fs, y);
                spots.iter().enumerate().any(|(k, p)| k != me && (!first_only || k == 0) && Some(p.0) == f && p.1 <= y.start && y.end <= p.2 && y.start < y.end)
            });
            if !ok {
                return Err(format!(
                    "{} given again at {}..{} of {:?}, but related is {:?}; it is at {:?}",
                    what,
                    sp.start,
                    sp.end,
                    s.resolve_span(&sp).file_name,
                    rel.iter().map(|y| format!("{}..{} of {:?}", y.start, y.end, s.resolve_span(y).file_name)).collect::<Vec<_>>(),
                    spots
                ));
            }
            seen += 1;
            ctx.count(&format!("again: {}", what));
        }
        Ok(())
    };
    for (name, _, _) in &given {
        let mut spots = vec![];
        for (i, f) in files.iter().enumerate() {
            for it in &f.items {
                if let EKind::Opt { name: n, value: v, .. } = &it.kind {
                    if f.text[n.0..n.1].contains(name) {
                        spots.push((i, n.0, v.1));
                    }
                }
            }
        }
        check(ctx, name, &spots, false)?;
    }
    if again {
        let spots: Vec<(usize, usize, usize)> = includes.iter().map(|x| (0, x.0, x.1)).collect();
        check(ctx, "include", &spots, true)?;
    }
    if let Some((a, b)) = unread {
        for x in &e.errors {
            let sp = x.span();
            if file_of(&s, &fs, &sp) == Some(0) && a <= sp.start && sp.end <= b && sp.start < sp.end {
                if x.message().to_lowercase().contains("duplicate") || x.related().count() > 0 {
                    return Err(format!("what is included at {}..{} cannot be read (case {}), and the error is {:?}: {:?}, with {} related", a, b, sort, x.message(), x.reason(), x.related().count()));
                }
                seen += 1;
                ctx.count(if sort < 4 { "not read: a link to nothing" } else { "not read: not a text" });
            }
        }
    }
    if seen > 0 {
        ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
        if split {
            ctx.count("again, over several files");
        }
    }
    Ok(())
}
