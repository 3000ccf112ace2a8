//! Rendered reports and synthetic sources.
use crate::emit::*;
use crate::model::*;
use crate::observe::line_of;
use crate::p_model::*;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{
    AnnotatedErrorOrWarning, BeancountParser, BeancountSources, DirectiveVariant, ElementType, ErrorOrWarning, ErrorOrWarningKind, ParseSuccess, Report,
    Span, Spanned, SyntheticSources,
};

// ---------------------------------------------------------------- reading a rendered report

pub struct Row {
    pub line: usize,
    pub text: String,
    pub arrows: Vec<String>,
}
pub struct Group {
    pub file: String,
    pub line: String,
    pub col: String,
    pub rows: Vec<Row>,
}
pub struct Rendered {
    pub title: String,
    pub groups: Vec<Group>,
    pub rest: Vec<String>,
}

pub fn strip_ansi(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// one report as written; what follows the closing line is `rest`
pub fn read(s: &str) -> Option<Rendered> {
    let s = strip_ansi(s);
    let mut lines = s.split('\n');
    let mut title = lines.next()?.to_string();
    let mut groups: Vec<Group> = vec![];
    let mut rest = vec![];
    let mut closed = false;
    for l in lines {
        let t = l.trim_start_matches(' ');
        if closed {
            rest.push(l.to_string());
        } else if let Some(h) = t.strip_prefix("╭─[ ").or_else(|| t.strip_prefix("├─[ ")) {
            let h = h.strip_suffix(" ]")?;
            let (h, col) = h.rsplit_once(':')?;
            let (file, line) = h.rsplit_once(':')?;
            groups.push(Group { file: file.into(), line: line.into(), col: col.into(), rows: vec![] });
        } else if t.starts_with("───╯") || t.starts_with("──╯") || (t.starts_with('─') && t.ends_with('╯')) {
            closed = true;
        } else {
            let digits = t.chars().take_while(|c| c.is_ascii_digit()).count();
            let Some(g) = groups.last_mut() else {
                // a message of several lines
                title.push('\n');
                title.push_str(l);
                continue;
            };
            if digits > 0 && t[digits..].starts_with(" │") {
                let text = t[digits..].strip_prefix(" │").unwrap_or("");
                g.rows.push(Row { line: t[..digits].parse().ok()?, text: text.to_string(), arrows: vec![] });
            } else if let Some(r) = g.rows.last_mut() {
                r.arrows.push(t.to_string());
            }
        }
    }
    if !closed {
        return None;
    }
    Some(Rendered { title, groups, rest })
}

/// where a span lies: the name its file is shown under, its text, and the bytes (trailing blank space excluded)
pub struct Place<'a> {
    pub name: String,
    pub any_name: bool,
    pub text: &'a str,
    pub a: usize,
    pub b: usize,
}

impl Place<'_> {
    pub fn new<'a>(name: &str, any_name: bool, text: &'a str, span: &Span) -> Option<Place<'a>> {
        let c = text.get(span.start..span.end)?;
        Some(Place { name: name.to_string(), any_name, text, a: span.start, b: span.start + c.trim_end().len() })
    }
    /// a blank span: where it ends is left open
    fn blank(&self) -> bool {
        self.b == self.a
    }
    fn first(&self) -> (usize, usize) {
        let l = line_of(self.text, self.a);
        let begin = self.text[..self.a].rfind('\n').map(|i| i + 1).unwrap_or(0);
        (l, self.text[begin..self.a].chars().count() + 1)
    }
    fn last_line(&self) -> usize {
        if self.b > self.a {
            let before_last = self.text[..self.b].char_indices().next_back().map(|x| x.0).unwrap_or(self.a);
            line_of(self.text, before_last)
        } else {
            line_of(self.text, self.a)
        }
    }
    fn line(&self, n: usize) -> &str {
        self.text.split('\n').nth(n - 1).unwrap_or("")
    }
    fn at_end(&self) -> bool {
        self.a >= self.text.len()
    }
}

fn blankless(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// what ariadne takes for line ends besides those of a ledger
pub fn unusual_line_ends(t: &str) -> bool {
    t.contains(['\u{85}', '\u{2028}', '\u{2029}', '\u{b}', '\u{c}', '\u{1b}']) || t.replace("\r\n", "").contains('\r')
}

pub struct Expect<'a> {
    pub kind: &'a str,
    pub message: String,
    pub reason: String,
    pub place: Place<'a>,
    pub labels: Vec<(String, Place<'a>)>,
    pub annotation: Option<String>,
}

/// compare a rendered report with what was to be reported
pub fn compare(ctx: &mut Ctx, out: &str, e: &Expect) -> R {
    let Some(r) = read(out) else { return Err(format!("rendered report can't be read: {:?}", out)) };
    let fail = |m: String| Err(format!("{}; rendered as:\n{}", m, strip_ansi(out)));
    let want = format!("{}: {}", e.kind, e.message);
    if r.title.trim_end() != want.trim_end() {
        return fail(format!("titled {:?}, expected {:?}", r.title, want));
    }
    if e.place.at_end() {
        // at the very end of the text there is no line to show
        ctx.count("reports at the end of the text");
        return Ok(());
    }
    let Some(g) = r.groups.first() else { return fail("shows no source".into()) };
    if !e.place.any_name && g.file != e.place.name {
        return fail(format!("names file {:?}, expected {:?}", g.file, e.place.name));
    }
    let (l, c) = e.place.first();
    if (g.line.as_str(), g.col.as_str()) != (l.to_string().as_str(), c.to_string().as_str()) {
        return fail(format!("at line {} column {}, expected line {} column {}", g.line, g.col, l, c));
    }
    ctx.count("positions compared");
    // every label at its line
    let mut wanted: Vec<(&str, &Place)> = vec![(&e.reason, &e.place)];
    wanted.extend(e.labels.iter().map(|(l, p)| (l.as_str(), p)));
    for (i, (label, p)) in wanted.iter().enumerate() {
        if label.contains('\n') || p.at_end() {
            continue;
        }
        if p.blank() {
            // shown somewhere, at least
            if !r.groups.iter().flat_map(|g| &g.rows).flat_map(|x| &x.arrows).any(|a| a.contains(label)) {
                return fail(format!("label {:?} is not shown", label));
            }
            ctx.count("labels of blank spans found");
            continue;
        }
        let n = p.last_line();
        let mine = |g: &&Group| p.any_name || g.file == p.name;
        let times = wanted[..=i].iter().filter(|(l, q)| !q.blank() && l.contains(label) && q.name == p.name && q.last_line() == n).count();
        let rows: Vec<&Row> = r.groups.iter().filter(mine).flat_map(|g| &g.rows).filter(|x| x.line == n).collect();
        let shown: usize = rows.iter().flat_map(|x| &x.arrows).map(|a| a.matches(label).count()).sum();
        if shown < times {
            return fail(format!("label {:?} is not shown at line {} of {:?} ({} of {})", label, n, p.name, shown, times));
        }
        for n in [p.first().0, n] {
            let src = blankless(p.line(n));
            let ok = r.groups.iter().filter(mine).flat_map(|g| &g.rows).any(|x| x.line == n && blankless(&x.text).ends_with(&src));
            if !ok {
                return fail(format!("line {} of {:?} is not shown: {:?}", n, p.name, p.line(n)));
            }
            ctx.count("source lines compared");
        }
        ctx.count("labels found at their lines");
    }
    // all of the span is underlined, and nothing else, where a lone label on one line of narrow characters lets us see it
    if e.labels.is_empty() && e.place.first().0 == e.place.last_line() && e.place.b > e.place.a {
        let p = &e.place;
        let line = p.line(l);
        if line.chars().all(|c| (' '..='~').contains(&c) || "éÜÏïñúßΩЖÅΔÉÑäöü".contains(c) || c == '\r') {
            let row = g.rows.iter().find(|x| x.line == l).and_then(|x| x.arrows.first());
            let Some(row) = row else { return fail("nothing is underlined".into()) };
            let cols: Vec<char> = row.chars().skip_while(|c| *c != '│').skip(2).collect();
            let lit: Vec<usize> = cols.iter().enumerate().filter(|(_, c)| **c == '─' || **c == '┬').map(|x| x.0).collect();
            let width = p.text[p.a..p.b].chars().count();
            let want: Vec<usize> = (c - 1..c - 1 + width).collect();
            if lit != want {
                return fail(format!("columns {:?} are underlined, expected {:?}", lit, want));
            }
            ctx.count("underlines compared");
        }
    }
    if let Some(a) = &e.annotation {
        let tail = format!("{}\n", a);
        if !out.ends_with(&tail) {
            return fail(format!("annotation {:?} is not shown", a));
        }
        ctx.count("annotations found");
    }
    Ok(())
}

// ---------------------------------------------------------------- elements to report on

/// an element of an application, of any name
#[derive(Clone, Debug)]
pub struct Named(pub &'static str);
impl ElementType<'static> for Named {
    fn element_type(&self) -> &'static str {
        self.0
    }
}

pub enum El<'a, 'p> {
    Dir(&'p Spanned<lima::Directive<'a>>),
    Posting(&'p Spanned<lima::Posting<'a>>),
    Account(&'p Spanned<lima::Account<'a>>),
    Currency(&'p Spanned<lima::Currency<'a>>),
    Amount(&'p Spanned<lima::ExprValue>),
    Tag(&'p Spanned<lima::Tag<'a>>),
    Link(&'p Spanned<lima::Link<'a>>),
    Key(&'p Spanned<lima::Key<'a>>),
    Flag(&'p Spanned<lima::Flag>),
    Cost(&'p Spanned<lima::CostSpec<'a>>),
    Booking(&'p Spanned<lima::Booking>),
    Named(Spanned<Named>),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            El::Dir($x) => $e,
            El::Posting($x) => $e,
            El::Account($x) => $e,
            El::Currency($x) => $e,
            El::Amount($x) => $e,
            El::Tag($x) => $e,
            El::Link($x) => $e,
            El::Key($x) => $e,
            El::Flag($x) => $e,
            El::Cost($x) => $e,
            El::Booking($x) => $e,
            El::Named($x) => $e,
        }
    };
}

impl El<'_, '_> {
    pub fn span(&self) -> Span {
        each!(self, x => *x.span())
    }
    pub fn label(&self) -> &'static str {
        match self {
            El::Dir(d) => match d.variant() {
                DirectiveVariant::Transaction(_) => "transaction",
                DirectiveVariant::Price(_) => "price",
                DirectiveVariant::Balance(_) => "balance",
                DirectiveVariant::Open(_) => "open",
                DirectiveVariant::Close(_) => "close",
                DirectiveVariant::Commodity(_) => "commodity",
                DirectiveVariant::Pad(_) => "pad",
                DirectiveVariant::Document(_) => "document",
                DirectiveVariant::Note(_) => "note",
                DirectiveVariant::Event(_) => "event",
                DirectiveVariant::Query(_) => "query",
                DirectiveVariant::Custom(_) => "custom",
            },
            El::Posting(_) => "posting",
            El::Account(_) => "account",
            El::Currency(_) => "currency",
            El::Amount(_) => "amount",
            El::Tag(_) => "tag",
            El::Link(_) => "link",
            El::Key(_) => "key",
            El::Flag(_) => "flag",
            El::Cost(_) => "cost specification",
            El::Booking(_) => "booking",
            El::Named(n) => n.item().0,
        }
    }
    pub fn error(&self, reason: &str) -> lima::Error {
        each!(self, x => x.error(reason))
    }
    pub fn warning(&self, reason: &str) -> lima::Warning {
        each!(self, x => x.warning(reason))
    }
    pub fn related<K: ErrorOrWarningKind>(&self, e: ErrorOrWarning<K>) -> ErrorOrWarning<K> {
        each!(self, x => e.related_to(x))
    }
    pub fn context<K: ErrorOrWarningKind>(&self, e: ErrorOrWarning<K>) -> ErrorOrWarning<K> {
        each!(self, x => e.in_context(x))
    }
}

pub fn elements<'a, 'p>(ok: &'p ParseSuccess<'a>) -> Vec<El<'a, 'p>> {
    let mut v: Vec<El> = vec![];
    fn meta<'a, 'p>(v: &mut Vec<El<'a, 'p>>, m: &'p lima::Metadata<'a>) {
        v.extend(m.tags().map(El::Tag));
        v.extend(m.links().map(El::Link));
        v.extend(m.key_values().map(|(k, _)| El::Key(k)));
    }
    for d in &ok.directives {
        v.push(El::Dir(d));
        meta(&mut v, d.metadata());
        match d.variant() {
            DirectiveVariant::Transaction(t) => {
                v.push(El::Flag(t.flag()));
                for p in t.postings() {
                    v.push(El::Posting(p));
                    v.push(El::Account(p.account()));
                    v.extend(p.amount().map(El::Amount));
                    v.extend(p.currency().map(El::Currency));
                    v.extend(p.flag().map(El::Flag));
                    v.extend(p.cost_spec().map(El::Cost));
                    meta(&mut v, p.metadata());
                }
            }
            DirectiveVariant::Price(x) => v.push(El::Currency(x.currency())),
            DirectiveVariant::Balance(x) => v.push(El::Account(x.account())),
            DirectiveVariant::Open(x) => {
                v.push(El::Account(x.account()));
                v.extend(x.currencies().map(El::Currency));
                v.extend(x.booking().map(El::Booking));
            }
            DirectiveVariant::Close(x) => v.push(El::Account(x.account())),
            DirectiveVariant::Commodity(x) => v.push(El::Currency(x.currency())),
            DirectiveVariant::Pad(x) => {
                v.push(El::Account(x.account()));
                v.push(El::Account(x.source()));
            }
            DirectiveVariant::Document(x) => v.push(El::Account(x.account())),
            DirectiveVariant::Note(x) => v.push(El::Account(x.account())),
            _ => {}
        }
    }
    v
}

/// a ledger on disk or inline, free of what ariadne takes for line ends
fn ledger(ctx: &mut Ctx, r: &mut Rng, items: Vec<Item>) -> Option<(BeancountSources, Vec<(String, String)>)> {
    let style = if r.pct(50) { Style::canonical() } else { Style::random(r) };
    let split = r.pct(50);
    let mut model = if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let tidy = |t: &str| -> String {
        let t: String = t.chars().map(|c| if "\u{85}\u{2028}\u{2029}\u{b}\u{c}\u{1b}".contains(c) { 'x' } else { c }).collect();
        t.replace("\r\n", "\u{b}").replace('\r', "x").replace('\u{b}', "\r\n")
    };
    if split && r.pct(50) {
        // the same text in several files, so that only the file tells them apart
        let n = model.files.len();
        if n > 1 {
            let f = r.range(1, n - 1);
            if let Some(x) = model.files[f].items.iter().find(|x| matches!(x, Item::Dir(_))).cloned() {
                for fm in model.files.iter_mut() {
                    fm.items.insert(0, x.clone());
                }
            }
        }
    }
    let files: Vec<EFile> = model.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    let mut files: Vec<EFile> = files.into_iter().map(|f| EFile { text: tidy(&f.text), ..f }).collect();
    for f in files.iter_mut() {
        if r.pct(20) {
            f.text = format!("; é 银行 😀\n{}", f.text);
        }
        ctx.input(&f.path, &f.text);
    }
    if split || r.pct(30) {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        let s = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))).ok()?;
        let v = files.iter().map(|f| (std::fs::canonicalize(format!("{}/{}", d, f.path)).unwrap().to_string_lossy().to_string(), f.text.clone())).collect();
        Some((s, v))
    } else {
        Some((BeancountSources::from(files[0].text.as_str()), vec![(String::new(), files[0].text.clone())]))
    }
}

/// the place of a span of the real sources
fn place<'t>(s: &BeancountSources, files: &'t [(String, String)], span: &Span) -> Option<Place<'t>> {
    let rs = s.resolve_span(span);
    match rs.file_name {
        None => Place::new("inline", true, &files[0].1, span),
        Some(n) => {
            let c = std::fs::canonicalize(n).ok()?;
            let f = files.iter().find(|f| std::path::Path::new(&f.0) == c)?;
            Place::new(n, false, &f.1, span)
        }
    }
}

const REASONS: &[&str] = &["unbalanced by 1 USD", "nicht gültig", "余额不符", "no such thing: {}", "😀", "duplicate", "x"];

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = Gen { unicode: r.pct(80), expr_depth: 1, max_items: *r.pick(&[2, 5, 10]), pragmas: false, dates: 0, long_strings: r.pct(30), kinds: vec![] };
    let faulty = r.pct(40);
    let mut items = g.items(r);
    if faulty {
        for _ in 0..r.range(1, 3) {
            let (t, _) = crate::p_errors::malformed(r, &g);
            let at = r.below(items.len() + 1);
            if !t.is_empty() {
                items.insert(at, Item::Raw(t));
            }
        }
    }
    let long = r.pct(20);
    if long {
        items.push(Item::Dir(Dir {
            date: g.date(r),
            kind: Kind::Note(g.acc(r), Lit::plain(&"é\n".repeat(r.range(60, 80)))),
            inline: vec![],
            meta: vec![],
        }));
        if r.pct(50) {
            items.insert(0, Item::Opt(Lit::plain("long_string_maxlines"), Lit::plain(*r.pick(&["1", "20", "63"]))));
        }
    }
    let Some((s, files)) = ledger(ctx, r, items) else {
        ctx.count("not loaded (decided elsewhere)");
        return Ok(());
    };
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Err(e) => {
            for x in &e.errors {
                own_report(ctx, &s, &files, x, "Error")?;
            }
            for x in &e.warnings {
                own_report(ctx, &s, &files, x, "Warning")?;
            }
            ctx.nontrivial(&files.iter().map(|f| f.1.as_str()).collect::<String>());
            together(ctx, &s, e.errors)
        }
        Ok(ok) => {
            for x in &ok.warnings {
                own_report(ctx, &s, &files, x, "Warning")?;
            }
            let els = elements(&ok);
            if els.is_empty() {
                return Ok(());
            }
            for _ in 0..r.range(1, 4) {
                let el = r.pick(&els);
                let reason = *r.pick(REASONS);
                if r.pct(60) {
                    built(ctx, r, &s, &files, &els, el, el.error(reason), reason, "Error", "invalid", None)?;
                } else {
                    built(ctx, r, &s, &files, &els, el, el.warning(reason), reason, "Warning", "questionable", None)?;
                }
            }
            ctx.nontrivial(&files.iter().map(|f| f.1.as_str()).collect::<String>());
            ctx.sample(&files[0].1);
            Ok(())
        }
    }
}

/// an error or warning of the parser itself
fn own_report<K: ErrorOrWarningKind + Clone>(ctx: &mut Ctx, s: &BeancountSources, files: &[(String, String)], x: &ErrorOrWarning<K>, kind: &str) -> R {
    let Some(p) = place(s, files, &x.span()) else {
        ctx.count("span not in its file (decided elsewhere)");
        return Ok(());
    };
    let mut labels = vec![];
    for (l, sp) in x.contexts() {
        match place(s, files, &sp) {
            Some(p) => labels.push((format!("in this {}", l), p)),
            None => ctx.count("span not in its file (decided elsewhere)"),
        }
    }
    for (l, sp) in x.related() {
        match place(s, files, &sp) {
            Some(p) => labels.push((l.to_string(), p)),
            None => ctx.count("span not in its file (decided elsewhere)"),
        }
    }
    let n = labels.len() as u64;
    let mut out = vec![];
    s.write_errors_or_warnings(&mut out, vec![x.clone()]).map_err(|e| format!("writing failed: {}", e))?;
    let out = String::from_utf8_lossy(&out).to_string();
    let e = Expect { kind, message: x.message().to_string(), reason: x.reason().to_string(), place: p, labels, annotation: None };
    compare(ctx, &out, &e)?;
    // the same by itself
    let mut one = vec![];
    s.write_report::<_, K, _>(&mut one, x).map_err(|e| format!("writing failed: {}", e))?;
    if String::from_utf8_lossy(&one) != out {
        return Err(format!("written differently by itself:\n{}", strip_ansi(&String::from_utf8_lossy(&one))));
    }
    ctx.count(if kind == "Error" { "parser errors rendered" } else { "parser warnings rendered" });
    ctx.add("attachments of parser errors", n);
    Ok(())
}

/// several reports are written one after another, none left out
fn together(ctx: &mut Ctx, s: &BeancountSources, errors: Vec<lima::Error>) -> R {
    let mut want = vec![];
    for e in &errors {
        s.write_report::<_, lima::ErrorKind, _>(&mut want, e).map_err(|e| format!("writing failed: {}", e))?;
    }
    let mut got = vec![];
    let n = errors.len();
    s.write_errors_or_warnings(&mut got, errors).map_err(|e| format!("writing failed: {}", e))?;
    if got != want {
        return Err(format!("{} errors written together differ from each written by itself", n));
    }
    ctx.add("reports written together", n as u64);
    Ok(())
}

/// an application's error, with attachments
#[allow(clippy::too_many_arguments)]
fn built<K: ErrorOrWarningKind + Clone>(
    ctx: &mut Ctx,
    r: &mut Rng,
    s: &BeancountSources,
    files: &[(String, String)],
    els: &[El],
    el: &El,
    e: ErrorOrWarning<K>,
    reason: &str,
    kind: &str,
    verb: &str,
    syn: Option<&Syn>,
) -> R {
    let message = format!("{} {}", verb, el.label());
    let span = el.span();
    let find = |sp: &Span| match syn {
        Some(y) => y.place(sp).or_else(|| place(s, files, sp)),
        None => place(s, files, sp),
    };
    let mut e = e;
    let mut contexts: Vec<(String, Span)> = vec![];
    let mut related: Vec<(String, Span)> = vec![];
    let n = if r.pct(30) { 0 } else { r.range(1, 5) };
    for _ in 0..n {
        let x = r.pick(els);
        match r.below(6) {
            0 | 1 => {
                e = x.context(e);
                contexts.push((x.label().to_string(), x.span()));
            }
            2 | 3 => {
                e = x.related(e);
                related.push((x.label().to_string(), x.span()));
            }
            k => {
                // several at once, of one type, possibly none
                let all: Vec<&Spanned<lima::Account>> = els.iter().filter_map(|x| if let El::Account(a) = x { Some(*a) } else { None }).collect();
                let m = r.below(4).min(all.len());
                let from = r.below(all.len() - m + 1);
                let mut some = all[from..from + m].to_vec();
                if m > 0 && r.pct(15) {
                    // the same once more
                    some.push(*r.pick(&some));
                }
                let add = some.iter().map(|a| ("account".to_string(), *a.span()));
                if k == 4 {
                    contexts.extend(add);
                    e = e.in_contexts(some.iter().copied());
                } else {
                    related.extend(add);
                    e = e.related_to_all(some.iter().copied());
                }
            }
        }
        if e.message() != message || e.reason() != reason || e.span() != span {
            return Err(format!("attaching changed the error itself: {:?} {:?} {:?}", e.message(), e.reason(), e.span()));
        }
    }
    let got: Vec<(String, Span)> = e.contexts().map(|(l, s)| (l.to_string(), s)).collect();
    if got != contexts {
        return Err(format!("contexts {:?}, attached were {:?}", got, contexts));
    }
    let got: Vec<(String, Span)> = e.related().map(|(l, s)| (l.to_string(), s)).collect();
    if got != related {
        return Err(format!("related {:?}, attached were {:?}", got, related));
    }
    if e.message() != message || e.reason() != reason || e.span() != span {
        return Err(format!("made from {:?} {:?} {:?}, but says {:?} {:?} {:?}", message, reason, span, e.message(), e.reason(), e.span()));
    }
    let Some(p) = find(&span) else {
        ctx.count("span not in its file (decided elsewhere)");
        return Ok(());
    };
    // the text of the error
    let text = match syn {
        Some(y) => y.s.error_source_text(&e).to_string(),
        None => s.error_source_text(&e).to_string(),
    };
    if if p.blank() { !text.trim().is_empty() } else { text != p.text[p.a..p.b] } {
        return Err(format!("text of the error is {:?}, expected {:?}", text, &p.text[p.a..p.b]));
    }
    let mut labels = vec![];
    for (l, sp) in contexts.iter().map(|(l, s)| (format!("in this {}", l), s)).chain(related.iter().map(|(l, s)| (l.clone(), s))) {
        match find(sp) {
            Some(p) => labels.push((l, p)),
            None => ctx.count("span not in its file (decided elsewhere)"),
        }
    }
    ctx.add("attachments rendered", labels.len() as u64);
    let several = labels.iter().any(|(_, q)| q.name != p.name);
    let annotation = if r.pct(30) { Some(r.pick(&["see above", "é\n银行\n", "", "2 accounts"]).to_string()) } else { None };
    let mut out = vec![];
    let a: AnnotatedErrorOrWarning<K> = match &annotation {
        Some(t) => e.clone().with_annotation(t.as_str()),
        None => e.clone().into(),
    };
    if a.annotation() != annotation.as_deref() || a.span() != span || a.message() != message || a.reason() != reason {
        return Err("annotating changed the error".into());
    }
    match syn {
        Some(y) => y.s.write_errors_or_warnings(&mut out, vec![a]),
        None => s.write_errors_or_warnings(&mut out, vec![a]),
    }
    .map_err(|e| format!("writing failed: {}", e))?;
    let out = String::from_utf8_lossy(&out).to_string();
    let ex = Expect { kind, message, reason: reason.to_string(), place: p, labels, annotation };
    compare(ctx, &out, &ex)?;
    ctx.count(if kind == "Error" { "application errors rendered" } else { "application warnings rendered" });
    if several {
        ctx.count("reports over several files");
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

struct Frag {
    name: String,
    start: usize,
    text: String,
    span: Span,
}

pub struct Syn<'a> {
    s: SyntheticSources<'a>,
    /// everything created under a name, in order
    all: Vec<(String, String)>,
    frags: Vec<Frag>,
}

impl Syn<'_> {
    fn create(&mut self, name: &str, text: &str) {
        let span = self.s.create_synthetic_span(name, text);
        let i = match self.all.iter().position(|x| x.0 == name) {
            Some(i) => i,
            None => {
                self.all.push((name.to_string(), String::new()));
                self.all.len() - 1
            }
        };
        let start = self.all[i].1.len();
        self.all[i].1.push_str(text);
        self.frags.push(Frag { name: name.to_string(), start, text: text.to_string(), span });
    }
    fn place(&self, span: &Span) -> Option<Place<'_>> {
        let f = self.frags.iter().find(|f| f.span == *span)?;
        let t = &self.all.iter().find(|x| x.0 == f.name)?.1;
        Some(Place { name: f.name.clone(), any_name: false, text: t, a: f.start, b: f.start + f.text.trim_end().len() })
    }
    fn check(&self, ctx: &mut Ctx, f: &Frag) -> R {
        let rs = self.s.resolve_span(&f.span);
        let want = f.text.trim_end();
        if if want.is_empty() { !rs.content.trim().is_empty() } else { rs.content != want } {
            return Err(format!("fragment {:?} of {:?} resolves to {:?}", f.text, f.name, rs.content));
        }
        if rs.file_name != Some(f.name.as_str()) {
            return Err(format!("fragment {:?} of {:?} resolves to source {:?}", f.text, f.name, rs.file_name));
        }
        let all = &self.all.iter().find(|x| x.0 == f.name).unwrap().1;
        let first = line_of(all, f.start);
        let last = line_of(all, f.start + want.len());
        if want.is_empty() {
            if rs.start_line != first {
                return Err(format!("blank fragment {:?} of {:?} resolves to line {}, expected {}", f.text, f.name, rs.start_line, first));
            }
            ctx.count("blank fragments resolved");
        } else if (rs.start_line, rs.end_line) != (first, last) {
            return Err(format!("fragment {:?} of {:?} resolves to lines {}-{}, expected {}-{}", f.text, f.name, rs.start_line, rs.end_line, first, last));
        }
        ctx.count("fragments resolved");
        if all[..f.start].len() != all[..f.start].chars().count() {
            ctx.count("fragments after multi-byte text");
        }
        Ok(())
    }
}

const NAMES: &[&str] = &["<synthetic>", "plugin", "plugin2", "é 银行", "a:1:2", "gen.beancount", "", " ", "/tmp/x", "Inline"];

pub fn c15(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = Gen { unicode: r.pct(70), expr_depth: 0, max_items: 4, pragmas: false, dates: 0, long_strings: false, kinds: vec![] };
    let items = g.items(r);
    let Some((s, files)) = ledger(ctx, r, items) else {
        ctx.count("not loaded (decided elsewhere)");
        return Ok(());
    };
    let parser = BeancountParser::new(&s);
    let Ok(ok) = parser.parse() else {
        ctx.count("rejected (decided elsewhere)");
        return Ok(());
    };
    let els = elements(&ok);
    let mut y = Syn { s: SyntheticSources::new(&s), all: vec![], frags: vec![] };
    // now and then far more, or far larger ones, than a plugin has of late
    let crowd = r.below(400) == 0;
    let large = r.below(150) == 0;
    let n = if crowd { r.range(270, 700) } else { *r.pick(&[1, 2, 4, 8, 20]) };
    let crowds: Vec<String> = (0..n).map(|i| format!("plugin {}", i)).collect();
    let names: Vec<&str> = if crowd { crowds.iter().map(|s| s.as_str()).collect() } else { (0..r.range(1, 5)).map(|_| *r.pick(NAMES)).collect() };
    let mut log = String::new();
    let mut real = 0;
    for k in 0..n {
        let name = if crowd && r.pct(90) { names[k] } else { *r.pick(&names) };
        let text = match r.below(6) {
            _ if large && r.pct(50) => {
                let w = *r.pick(UWORDS);
                let len = *r.pick(&[200, 5000, 20000, 70000]);
                let mut t = String::new();
                while t.len() < len {
                    t.push_str(w);
                    t.push_str(if r.pct(20) { "\n" } else { " " });
                }
                t
            }
            0 => (*r.pick(&["", " ", "\n", "\n\n", "  \n", "é ", "银行\n ", "\t"])).to_string(),
            1 => format!("{}\n", r.pick(UWORDS)),
            2 => format!("2024-01-01 open Assets:A\n  key: \"{}\"\n", r.pick(UWORDS)),
            3 => (0..r.range(1, 8)).map(|_| *r.pick(&["a", "é", "银", "😀", "\n", " ", "e\u{301}", "x"])).collect(),
            4 => (*r.pick(UWORDS)).to_string(),
            _ => (*r.pick(WORDS)).to_string(),
        };
        let text: String = text.chars().map(|c| if "\u{85}\u{2028}\u{2029}".contains(c) { 'x' } else { c }).collect();
        log.push_str(&format!("{:?} {:?}\n", name, text));
        ctx.input("fragments", &log);
        y.create(name, &text);
        // now and then look back at all of them, and at the real ones
        if k + 1 == n || (if crowd { r.below(100) == 0 } else { r.pct(30) }) {
            for f in &y.frags {
                y.check(ctx, f)?;
            }
            for el in els.iter().take(40) {
                let sp = el.span();
                let (a, b) = (s.resolve_span(&sp), y.s.resolve_span(&sp));
                if (a.file_name, a.start_line, a.end_line, a.content) != (b.file_name, b.start_line, b.end_line, b.content) {
                    return Err(format!("span of the real sources resolves to {:?} {}-{} {:?} through synthetic ones", b.file_name, b.start_line, b.end_line, b.content));
                }
                real += 1;
            }
        }
        if if crowd { r.below(200) == 0 } else { r.pct(10) } {
            // a copy goes its own way
            let mut c = Syn {
                s: y.s.clone(),
                all: y.all.clone(),
                frags: y.frags.iter().map(|f| Frag { name: f.name.clone(), start: f.start, text: f.text.clone(), span: f.span }).collect(),
            };
            c.create(name, "in the copy é\n");
            c.create("only in the copy", "银行");
            for f in &c.frags {
                c.check(ctx, f)?;
            }
        }
    }
    if crowd {
        ctx.count("hundreds of names");
    }
    if large {
        ctx.count("large fragments");
    }
    ctx.add("real spans resolved through synthetic sources", real);
    // reports on either, and on both
    let syn: Vec<El> = y.frags.iter().map(|f| El::Named(lima::spanned(Named(*pick_label(f.start)), f.span))).collect();
    let mut mixed: Vec<El> = syn;
    let nsyn = mixed.len();
    mixed.extend(els);
    for _ in 0..r.range(1, 4) {
        let i = if r.pct(60) { r.below(nsyn) } else { r.below(mixed.len()) };
        let reason = *r.pick(REASONS);
        built(ctx, r, &s, &files, &mixed, &mixed[i], mixed[i].error(reason), reason, "Error", "invalid", Some(&y))?;
        ctx.count(if i < nsyn { "reports on fragments" } else { "reports on real elements" });
    }
    // a real report is rendered alike
    if mixed.len() > nsyn {
        let i = r.range(nsyn, mixed.len() - 1);
        let j = r.range(nsyn, mixed.len() - 1);
        let e = mixed[j].related(mixed[i].error("x"));
        let (mut a, mut b) = (vec![], vec![]);
        s.write_report::<_, lima::ErrorKind, _>(&mut a, &e).map_err(|e| e.to_string())?;
        y.s.write_report::<_, lima::ErrorKind, _>(&mut b, &e).map_err(|e| e.to_string())?;
        if a != b {
            return Err(format!(
                "report on the real sources is rendered differently through synthetic ones:\n{}\n{}",
                strip_ansi(&String::from_utf8_lossy(&a)),
                strip_ansi(&String::from_utf8_lossy(&b))
            ));
        }
        ctx.count("real reports rendered alike");
    }
    ctx.nontrivial(&log);
    ctx.sample(&log);
    Ok(())
}

fn pick_label(n: usize) -> &'static &'static str {
    &["fragment", "generated posting", "note", "元素"][n % 4]
}
