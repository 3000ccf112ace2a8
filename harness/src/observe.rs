//! Observes results of the library through its public interface, as facts comparable with the model's.
use crate::emit::{EDir, EFile, Fact, Sp};
use crate::model::dec_str;
use beancount_parser_lima as lima;
use lima::{BeancountSources, DirectiveVariant, Expr, ExprValue, Flag, MetaValue, Metadata, ParseSuccess, SimpleValue, Span, Spanned};
use rust_decimal::Decimal;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct OFact {
    pub path: String,
    pub val: String,
    pub span: Option<Span>,
}

#[derive(Clone, Debug)]
pub struct ODir {
    pub span: Span,
    pub facts: Vec<OFact>,
}

impl ODir {
    pub fn get(&self, path: &str) -> Option<&OFact> {
        self.facts.iter().find(|f| f.path == path)
    }
    /// all values, without positions, in a canonical order
    pub fn values(&self) -> Vec<String> {
        let mut v: Vec<String> = self.facts.iter().map(|f| format!("{} = {}", f.path, f.val)).collect();
        v.sort();
        v
    }
}

pub fn sexpr(e: &Expr) -> String {
    match e {
        Expr::Value(d) => dec_str(d.mantissa(), d.scale()),
        Expr::Add(a, b) => format!("(+ {} {})", sexpr(a), sexpr(b)),
        Expr::Sub(a, b) => format!("(- {} {})", sexpr(a), sexpr(b)),
        Expr::Mul(a, b) => format!("(* {} {})", sexpr(a), sexpr(b)),
        Expr::Div(a, b) => format!("(/ {} {})", sexpr(a), sexpr(b)),
        Expr::Neg(a) => format!("(neg {})", sexpr(a)),
        Expr::Paren(a) => format!("[{}]", sexpr(a)),
    }
}

pub fn num(e: &ExprValue) -> String {
    let v = e.value();
    format!("={}e-{} {}", v.mantissa(), v.scale(), sexpr(e.expr()))
}

pub fn dec(v: &Decimal) -> String {
    format!("={}e-{} {}", v.mantissa(), v.scale(), dec_str(v.mantissa(), v.scale()))
}

pub fn flag(f: &Flag) -> String {
    match f {
        Flag::Asterisk => "!*".to_string(),
        Flag::Exclamation => "!!".to_string(),
        Flag::Ampersand => "!&".to_string(),
        Flag::Hash => "!#".to_string(),
        Flag::Question => "!?".to_string(),
        Flag::Percent => "!%".to_string(),
        Flag::Letter(l) => format!("!'{}", l.char()),
    }
}

pub fn account(a: &lima::Account) -> String {
    let name: &str = a.as_ref();
    let ty: &str = match a.account_type() {
        lima::AccountType::Assets => "Assets",
        lima::AccountType::Liabilities => "Liabilities",
        lima::AccountType::Equity => "Equity",
        lima::AccountType::Income => "Income",
        lima::AccountType::Expenses => "Expenses",
    };
    format!("@{}|{}", name, ty)
}

pub fn date(d: &time::Date) -> String {
    format!("d{:04}-{:02}-{:02}", d.year(), u8::from(d.month()), d.day())
}

struct Ob {
    v: Vec<OFact>,
}

impl Ob {
    fn add(&mut self, path: String, val: String, span: Option<&Span>) {
        self.v.push(OFact { path, val, span: span.copied() });
    }
    fn amount(&mut self, path: &str, a: &lima::Amount) {
        self.add(format!("{}.num", path), num(a.number().item()), Some(a.number().span()));
        self.add(format!("{}.cur", path), format!("${}", a.currency().item().as_ref()), Some(a.currency().span()));
    }
    fn mv(&mut self, path: &str, v: &Spanned<MetaValue>) {
        let sp = Some(v.span());
        let p = path.to_string();
        match v.item() {
            MetaValue::Amount(a) => {
                self.add(p, "amount".to_string(), sp);
                self.amount(path, a);
            }
            MetaValue::Simple(s) => {
                let val = simple(s);
                self.add(p, val, sp);
            }
        }
    }
    fn metadata(&mut self, prefix: &str, m: &Metadata) {
        let mut n = 0;
        for (k, v) in m.key_values() {
            let ks: &str = k.item().as_ref();
            self.add(format!("{}key[{}]", prefix, ks), ks.to_string(), Some(k.span()));
            self.mv(&format!("{}meta[{}]", prefix, ks), v);
            // lookup by key agrees with iteration
            match m.key_value(*k.item()) {
                Some(w) if w.item() == v.item() && w.span() == v.span() => {}
                _ => self.add(format!("{}lookup[{}]", prefix, ks), "differs from iteration".to_string(), None),
            }
            n += 1;
        }
        for t in m.tags() {
            let ts: &str = t.item().as_ref();
            self.add(format!("{}tag[{}]", prefix, ts), format!("#{}", ts), Some(t.span()));
            n += 1;
        }
        for t in m.links() {
            let ts: &str = t.item().as_ref();
            self.add(format!("{}link[{}]", prefix, ts), format!("^{}", ts), Some(t.span()));
            n += 1;
        }
        if m.is_empty() != (n == 0) {
            self.add(format!("{}is_empty", prefix), "wrong".to_string(), None);
        }
        let absent = lima::Key::try_from("zz-not-there").unwrap();
        if m.key_value(absent).is_some() {
            self.add(format!("{}lookup[absent]", prefix), "found".to_string(), None);
        }
    }
    fn posting(&mut self, i: usize, p: &Spanned<lima::Posting>) {
        let pre = format!("posting[{}]", i);
        self.add(pre.clone(), "posting".to_string(), Some(p.span()));
        if let Some(f) = p.flag() {
            self.add(format!("{}.flag", pre), flag(f.item()), Some(f.span()));
        }
        self.add(format!("{}.account", pre), account(p.account().item()), Some(p.account().span()));
        if let Some(a) = p.amount() {
            self.add(format!("{}.amount", pre), num(a.item()), Some(a.span()));
        }
        if let Some(c) = p.currency() {
            self.add(format!("{}.currency", pre), format!("${}", c.item().as_ref()), Some(c.span()));
        }
        if let Some(c) = p.cost_spec() {
            let cp = format!("{}.cost", pre);
            self.add(cp.clone(), "cost".to_string(), Some(c.span()));
            if let Some(x) = c.per_unit() {
                self.add(format!("{}.per_unit", cp), num(x.item()), Some(x.span()));
            }
            if let Some(x) = c.total() {
                self.add(format!("{}.total", cp), num(x.item()), Some(x.span()));
            }
            if let Some(x) = c.currency() {
                self.add(format!("{}.currency", cp), format!("${}", x.item().as_ref()), Some(x.span()));
            }
            if let Some(x) = c.date() {
                self.add(format!("{}.date", cp), date(x.item()), Some(x.span()));
            }
            if let Some(x) = c.label() {
                self.add(format!("{}.label", cp), format!("\"{}", x.item()), Some(x.span()));
            }
            self.add(format!("{}.merge", cp), c.merge().to_string(), None);
        }
        if let Some(pr) = p.price_annotation() {
            let pp = format!("{}.price", pre);
            self.add(pp.clone(), "price".to_string(), Some(pr.span()));
            use lima::PriceSpec::*;
            use lima::ScopedExprValue::*;
            let (n, c) = match pr.item() {
                Unspecified => (None, None),
                BareCurrency(c) => (None, Some(c)),
                BareAmount(n) => (Some(n), None),
                CurrencyAmount(n, c) => (Some(n), Some(c)),
            };
            if let Some(n) = n {
                let (e, scope) = match n {
                    PerUnit(e) => (e, "per-unit"),
                    Total(e) => (e, "total"),
                };
                self.add(format!("{}.num", pp), num(e), None);
                self.add(format!("{}.scope", pp), scope.to_string(), None);
            }
            if let Some(c) = c {
                self.add(format!("{}.cur", pp), format!("${}", c.as_ref()), None);
            }
        }
        self.metadata(&format!("{}.", pre), p.metadata());
    }
}

pub fn simple(s: &SimpleValue) -> String {
    match s {
        SimpleValue::String(x) => format!("\"{}", x),
        SimpleValue::Currency(c) => format!("${}", c.as_ref()),
        SimpleValue::Account(a) => account(a),
        SimpleValue::Tag(t) => format!("#{}", t.as_ref()),
        SimpleValue::Link(t) => format!("^{}", t.as_ref()),
        SimpleValue::Date(d) => date(d),
        SimpleValue::Bool(b) => format!("bool {}", b),
        SimpleValue::Null => "null".to_string(),
        SimpleValue::Expr(e) => num(e),
    }
}

pub fn directive(d: &Spanned<lima::Directive>) -> ODir {
    let mut o = Ob { v: vec![] };
    o.add("date".to_string(), date(d.date().item()), Some(d.date().span()));
    let kind;
    fn st(o: &mut Ob, p: &str, s: &Spanned<&str>) {
        o.add(p.to_string(), format!("\"{}", s.item()), Some(s.span()))
    }
    fn ac(o: &mut Ob, p: &str, a: &Spanned<lima::Account>) {
        o.add(p.to_string(), account(a.item()), Some(a.span()))
    }
    fn cu(o: &mut Ob, p: &str, c: &Spanned<lima::Currency>) {
        o.add(p.to_string(), format!("${}", c.item().as_ref()), Some(c.span()))
    }
    match d.variant() {
        DirectiveVariant::Transaction(t) => {
            kind = "transaction";
            o.add("flag".to_string(), flag(t.flag().item()), Some(t.flag().span()));
            if let Some(s) = t.payee() {
                st(&mut o, "payee", s);
            }
            if let Some(s) = t.narration() {
                st(&mut o, "narration", s);
            }
            o.add("postings".to_string(), t.postings().len().to_string(), None);
            for (i, p) in t.postings().enumerate() {
                o.posting(i, p);
            }
        }
        DirectiveVariant::Price(p) => {
            kind = "price";
            cu(&mut o, "currency", p.currency());
            o.add("amount".to_string(), "amount".to_string(), Some(p.amount().span()));
            o.amount("amount", p.amount());
        }
        DirectiveVariant::Balance(b) => {
            kind = "balance";
            ac(&mut o, "account", b.account());
            o.add("atol".to_string(), "atol".to_string(), Some(b.atol().span()));
            let a = b.atol().amount();
            o.add("amount".to_string(), "amount".to_string(), Some(a.span()));
            o.amount("amount", a);
            if let Some(t) = b.atol().tolerance() {
                o.add("tolerance".to_string(), dec(t.item()), Some(t.span()));
            }
        }
        DirectiveVariant::Open(x) => {
            kind = "open";
            ac(&mut o, "account", x.account());
            for c in x.currencies() {
                let cs: &str = c.item().as_ref();
                o.add(format!("currency[{}]", cs), format!("${}", cs), Some(c.span()));
            }
            if let Some(b) = x.booking() {
                o.add("booking".to_string(), format!("booking {}", booking(b.item())), Some(b.span()));
            }
        }
        DirectiveVariant::Close(x) => {
            kind = "close";
            ac(&mut o, "account", x.account());
        }
        DirectiveVariant::Commodity(x) => {
            kind = "commodity";
            cu(&mut o, "currency", x.currency());
        }
        DirectiveVariant::Pad(x) => {
            kind = "pad";
            ac(&mut o, "account", x.account());
            ac(&mut o, "source", x.source());
        }
        DirectiveVariant::Document(x) => {
            kind = "document";
            ac(&mut o, "account", x.account());
            st(&mut o, "path", x.path());
        }
        DirectiveVariant::Note(x) => {
            kind = "note";
            ac(&mut o, "account", x.account());
            st(&mut o, "comment", x.comment());
        }
        DirectiveVariant::Event(x) => {
            kind = "event";
            st(&mut o, "event_type", x.event_type());
            st(&mut o, "description", x.description());
        }
        DirectiveVariant::Query(x) => {
            kind = "query";
            st(&mut o, "name", x.name());
            st(&mut o, "content", x.content());
        }
        DirectiveVariant::Custom(x) => {
            kind = "custom";
            st(&mut o, "type", x.type_());
            o.add("values".to_string(), x.values().len().to_string(), None);
            for (i, v) in x.values().enumerate() {
                o.mv(&format!("value[{}]", i), v);
            }
        }
    }
    o.add("kind".to_string(), kind.to_string(), None);
    o.metadata("", d.metadata());
    ODir { span: *d.span(), facts: o.v }
}

pub fn booking(b: &lima::Booking) -> String {
    use lima::Booking::*;
    match b {
        Strict => "STRICT",
        StrictWithSize => "STRICT_WITH_SIZE",
        None => "NONE",
        Average => "AVERAGE",
        Fifo => "FIFO",
        Lifo => "LIFO",
        Hifo => "HIFO",
    }
    .to_string()
}

pub fn directives(s: &ParseSuccess) -> Vec<ODir> {
    s.directives.iter().map(directive).collect()
}

pub fn plugin(p: &lima::Plugin) -> Vec<OFact> {
    let mut v = vec![OFact { path: "module".into(), val: format!("\"{}", p.module_name().item()), span: Some(*p.module_name().span()) }];
    if let Some(c) = p.config() {
        v.push(OFact { path: "config".into(), val: format!("\"{}", c.item()), span: Some(*c.span()) });
    }
    v
}

// ---------------------------------------------------------------- comparison

/// Compare values; `only` selects the paths that count.
pub fn diff_facts(exp: &[Fact], obs: &[OFact], only: &dyn Fn(&str) -> bool) -> Option<String> {
    let mut seen: HashMap<&str, &OFact> = HashMap::new();
    for o in obs.iter().filter(|o| only(&o.path)) {
        if seen.insert(&o.path, o).is_some() {
            return Some(format!("{} occurs twice in the result", o.path));
        }
    }
    for f in exp.iter().filter(|f| only(&f.path)) {
        match seen.remove(f.path.as_str()) {
            None => return Some(format!("{}: expected {:?}, but it is absent", f.path, f.vals)),
            Some(o) => {
                if !f.vals.contains(&o.val) {
                    return Some(format!("{}: expected {:?}, found {:?}", f.path, f.vals, o.val));
                }
            }
        }
    }
    if let Some((p, o)) = seen.into_iter().min_by_key(|(p, _)| p.to_string()) {
        return Some(format!("{}: found {:?}, but nothing was written", p, o.val));
    }
    None
}

pub fn diff_dir(e: &EDir, o: &ODir) -> Option<String> {
    diff_facts(&e.facts, &o.facts, &|_| true)
}

/// 1-based line of a byte offset
pub fn line_of(text: &str, pos: usize) -> usize {
    1 + text.as_bytes()[..pos].iter().filter(|b| **b == b'\n').count()
}

pub struct Files<'a> {
    /// as it was loaded: path (None if inline) and text
    pub files: Vec<(Option<String>, &'a str)>,
}

impl<'a> Files<'a> {
    pub fn inline(text: &'a str) -> Self {
        Files { files: vec![(None, text)] }
    }
    pub fn on_disk(dir: &str, files: &'a [EFile]) -> Self {
        Files { files: files.iter().map(|f| (Some(format!("{}/{}", dir, f.path)), f.text.as_str())).collect() }
    }
    pub fn same_file(&self, idx: usize, name: Option<&str>) -> bool {
        match (&self.files[idx].0, name) {
            (None, None) => true,
            (Some(p), Some(n)) => {
                p == n
                    || match (std::fs::canonicalize(p), std::fs::canonicalize(n)) {
                        (Ok(a), Ok(b)) => a == b,
                        _ => false,
                    }
            }
            _ => false,
        }
    }

    /// what resolving a span has to yield for the bytes a..b of file idx (trailing blank space excluded)
    pub fn check(&self, s: &BeancountSources, span: &Span, idx: usize, a: usize, b: usize) -> Option<String> {
        let rs = s.resolve_span(span);
        self.check_resolved(rs.file_name, rs.start_line, rs.end_line, rs.content, idx, a, b)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn check_resolved(
        &self,
        file_name: Option<&str>,
        start_line: usize,
        end_line: usize,
        content: &str,
        idx: usize,
        a: usize,
        b: usize,
    ) -> Option<String> {
        if !self.same_file(idx, file_name) {
            return Some(format!("resolves to file {:?}, expected {:?}", file_name, self.files[idx].0));
        }
        let text = self.files[idx].1;
        let full = text.get(a..b).expect("model span on char boundaries");
        // a token never ends in blank space, except by what its quotes hold, so there is nothing to trim
        if content != full {
            return Some(format!("resolves to {:?}, expected {:?}", content, full));
        }
        let (l1, l2) = (line_of(text, a), line_of(text, b));
        if (start_line, end_line) != (l1, l2) {
            return Some(format!("{:?} resolves to lines {}-{}, expected {}-{}", full, start_line, end_line, l1, l2));
        }
        None
    }
}

/// Check the span of one fact
pub fn check_span(files: &Files, s: &BeancountSources, e: &Fact, o: &OFact) -> Option<String> {
    let alts: Vec<(usize, usize)> = match &e.sp {
        Sp::Any => return None,
        Sp::At(a, b) => vec![(*a, *b)],
        Sp::Alt(v) => v.clone(),
    };
    let span = match &o.span {
        None => return None,
        Some(s) => s,
    };
    let mut first = None;
    for (a, b) in alts {
        match files.check(s, span, e.file, a, b) {
            None => {
                // the position too, not just equal text elsewhere
                if (span.start, span.end) == (a, b) {
                    return None;
                }
                first.get_or_insert(format!("span {}..{}, expected {}..{}", span.start, span.end, a, b));
            }
            Some(m) => {
                first.get_or_insert(m);
            }
        }
    }
    Some(format!("{}: {}", e.path, first.unwrap_or_default()))
}
