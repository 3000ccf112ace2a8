//! Prints a model ledger in some layout, recording what every element is expected to read as and where it stands.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Sp {
    /// not checked
    Any,
    /// exactly these bytes
    At(usize, usize),
    /// one of these
    Alt(Vec<(usize, usize)>),
}

/// An expected value at some path of a directive.
#[derive(Clone, Debug)]
pub struct Fact {
    pub path: String,
    pub vals: Vec<String>,
    pub file: usize,
    pub sp: Sp,
}

#[derive(Clone, Debug)]
pub struct EDir {
    pub date: D,
    pub class: u8,
    pub kind: &'static str,
    pub file: usize,
    pub start: usize,
    pub end: usize,
    /// where the next item begins
    pub limit: usize,
    pub facts: Vec<Fact>,
}

#[derive(Clone, Debug)]
pub enum EKind {
    Dir(EDir),
    Plugin(Vec<Fact>),
    PushTag(String, Fact),
    PopTag(String),
    PushMeta(String, Vec<Fact>),
    PopMeta(String),
    Opt { name: (usize, usize), value: (usize, usize), n: Lit, v: Lit },
    Include { lit: (usize, usize), files: Vec<usize> },
    Raw,
}

#[derive(Clone, Debug)]
pub struct EItem {
    pub start: usize,
    pub end: usize,
    pub limit: usize,
    pub kind: EKind,
}

#[derive(Clone, Debug)]
pub struct EFile {
    pub path: String,
    pub text: String,
    pub items: Vec<EItem>,
}

#[derive(Clone, Debug)]
pub struct Style {
    pub eol: u8,
    pub indent: u8,
    pub comments: usize,
    pub blanks: usize,
    pub headings: usize,
    pub gaps: usize,
    pub tight: usize,
    pub trail: usize,
    pub final_nl: bool,
    pub slash: usize,
    pub unicode: bool,
    /// blank and comment lines inside directives as well
    pub inner: bool,
    pub head: usize,
}

impl Style {
    pub fn canonical() -> Style {
        Style {
            eol: 0,
            indent: 0,
            comments: 0,
            blanks: 0,
            headings: 0,
            gaps: 0,
            tight: 0,
            trail: 0,
            final_nl: true,
            slash: 0,
            unicode: false,
            inner: false,
            head: 0,
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        let lvl = |r: &mut Rng| *r.pick(&[0, 0, 5, 15, 40]);
        Style {
            eol: *r.pick(&[0, 0, 0, 1, 1, 2]),
            indent: r.below(4) as u8,
            comments: lvl(r),
            blanks: lvl(r),
            headings: lvl(r),
            gaps: lvl(r),
            tight: lvl(r),
            trail: lvl(r),
            final_nl: r.pct(75),
            slash: lvl(r),
            unicode: r.pct(60),
            inner: r.pct(60),
            head: lvl(r),
        }
    }
}

const COMMENTS: &[&str] = &[
    ";", "; a comment", ";; two", "; \"unbalanced", "; 2024-01-01 open Assets:X", "; {{ (", ";\ttab", "; trailing  ", "; ; ;", ";'",
    "; include \"nope\"",
];
const UCOMMENTS: &[&str] = &["; café 😀", "; 银行", "; \u{a0}", "; e\u{301} Ж", ";😱"];
/// what an indented line may hold which is ignored for its colon
const COLON: &[&str] = &[":", ":PROPERTIES:", ":ID: 4-5", ": 2024-01-01 open Assets:A", ":size: 5\" pipe", ":a \"b\" c", ":x \\\"", ":y ; \"", ":: *", ":END: "];
const HEADINGS: &[&str] = &[
    "* Heading", "** Sub", "! warn", "& amp", "# hash", "#tag", "? what", "% percent", ":PROPERTIES:", ": colon", "*", "#", "* 5\" pipe", "# \\\"", ":LOG \"a",
    "* \"unbalanced", "*** 2024-01-01 * \"x\"", "%include \"nope\"", "# pushtag #x", "!", "* trailing ; comment",
];
const UHEADINGS: &[&str] = &["* Überschrift 😀", "# 银行", "%\u{a0}"];
const INDENTS: &[&str] = &["  ", "    ", " ", "\t", "   ", "\t\t", " \t", "        ", "\t  "];

pub struct Out<'a> {
    pub s: String,
    pub st: &'a Style,
    pub r: &'a mut Rng,
    pub file: usize,
}

impl<'a> Out<'a> {
    pub fn new(st: &'a Style, r: &'a mut Rng, file: usize) -> Self {
        Out { s: String::new(), st, r, file }
    }
    pub fn tok(&mut self, t: &str) -> (usize, usize) {
        let a = self.s.len();
        self.s.push_str(t);
        (a, self.s.len())
    }
    /// required space between two tokens
    pub fn gap(&mut self) {
        if self.r.pct(self.st.gaps) {
            let g = *self.r.pick(&["  ", "\t", "   ", " \t ", "          "]);
            self.s.push_str(g);
        } else {
            self.s.push(' ');
        }
    }
    /// space between two tokens that may be absent
    pub fn ogap(&mut self) {
        if !self.r.pct(self.st.tight) {
            self.gap();
        }
    }
    /// no space in the plain style, at times some
    pub fn ngap(&mut self) {
        if self.r.pct(self.st.gaps / 2) {
            self.gap();
        }
    }
    pub fn lit(&mut self, l: &Lit) -> (usize, usize) {
        let a = self.s.len();
        self.s.push('"');
        self.s.push_str(&l.src);
        self.s.push('"');
        (a, self.s.len())
    }
    fn nl(&mut self) {
        let crlf = match self.st.eol {
            0 => false,
            1 => true,
            _ => self.r.pct(50),
        };
        self.s.push_str(if crlf { "\r\n" } else { "\n" });
    }
    fn comment(&mut self) {
        let c = if self.st.unicode && self.r.pct(30) { *self.r.pick(UCOMMENTS) } else { *self.r.pick(COMMENTS) };
        self.s.push_str(c);
    }
    fn trail(&mut self) {
        if self.r.pct(self.st.trail) {
            let t = *self.r.pick(&[" ", "   ", "\t", " \t"]);
            self.s.push_str(t);
        }
    }
    /// finish a line, with whatever may follow it
    pub fn end_line(&mut self, inside: bool) {
        self.trail();
        if self.r.pct(self.st.comments) {
            if !self.r.pct(self.st.tight) {
                self.s.push(' ');
            }
            self.comment();
        }
        self.nl();
        if !inside || self.st.inner {
            self.filler(inside);
        }
    }
    /// ignorable lines at the start of a line
    pub fn filler(&mut self, inside: bool) {
        loop {
            if self.r.pct(self.st.blanks) {
                self.trail();
                self.nl();
            } else if self.r.pct(self.st.comments / 2) {
                if self.r.pct(40) {
                    let i = *self.r.pick(INDENTS);
                    self.s.push_str(i);
                }
                self.comment();
                self.nl();
            } else if self.r.pct(self.st.headings) && (self.s.is_empty() || self.s.ends_with('\n')) && (!inside || self.r.pct(20)) {
                let h = if self.st.unicode && self.r.pct(30) { *self.r.pick(UHEADINGS) } else { *self.r.pick(HEADINGS) };
                if self.r.pct(20) {
                    // an indented line starting with a colon
                    let i = *self.r.pick(INDENTS);
                    self.s.push_str(i);
                    let c = *self.r.pick(COLON);
                    self.s.push_str(c);
                } else {
                    self.s.push_str(h);
                }
                self.nl();
            } else {
                break;
            }
        }
    }
    pub fn indent(&mut self) {
        let i = match self.st.indent {
            0 => "  ",
            1 => "\t",
            2 => "    ",
            _ => *self.r.pick(INDENTS),
        };
        self.s.push_str(i);
    }
    pub fn date(&mut self, d: &D) -> (usize, usize) {
        let sep = |o: &mut Out| if o.r.pct(o.st.slash) { '/' } else { '-' };
        let (a, b) = (sep(self), sep(self));
        let t = format!("{:04}{}{:02}{}{:02}", d.y, a, d.m, b, d.d);
        self.tok(&t)
    }
    pub fn expr(&mut self, e: &E) -> (usize, usize) {
        let a = self.s.len();
        self.expr_(e, true);
        if looks_like_date(&self.s[a..]) || (self.s[a..].contains('/') && self.s[a..].contains(',')) {
            self.s.truncate(a);
            self.expr_(e, false);
        }
        (a, self.s.len())
    }
    fn expr_(&mut self, e: &E, tight: bool) {
        let sp = |o: &mut Out| {
            if tight {
                o.ogap()
            } else {
                o.gap()
            }
        };
        match e {
            E::N { txt, .. } => {
                self.tok(txt);
            }
            E::Neg(e) => {
                self.tok("-");
                self.ngap();
                self.expr_(e, tight);
            }
            E::Pos(e) => {
                self.tok("+");
                self.ngap();
                self.expr_(e, tight);
            }
            E::Par(e) => {
                self.tok("(");
                self.ngap();
                self.expr_(e, tight);
                self.ngap();
                self.tok(")");
            }
            E::Bin(op, a, b) => {
                self.expr_(a, tight);
                sp(self);
                self.tok(&op.to_string());
                sp(self);
                self.expr_(b, tight);
            }
        }
    }
}

pub fn looks_like_date(s: &str) -> bool {
    let b = s.as_bytes();
    for w in b.windows(10) {
        let d = |i: usize| w[i].is_ascii_digit();
        let s = |i: usize| w[i] == b'-' || w[i] == b'/';
        if d(0) && d(1) && d(2) && d(3) && s(4) && d(5) && d(6) && s(7) && d(8) && d(9) {
            return true;
        }
    }
    false
}

pub fn acc_name(a: &Acc, types: &[String; 5]) -> String {
    format!("{}:{}", types[a.ty], a.sub)
}

pub fn num_vals(e: &E) -> Vec<String> {
    e.value()
        .unwrap_or_default()
        .iter()
        .map(|(m, s)| format!("={}e-{} {}", m, s, e.sexpr()))
        .collect()
}

pub struct Printer<'a> {
    pub types: [String; 5],
    pub style: &'a Style,
}

pub fn std_types() -> [String; 5] {
    TYPES.map(|t| t.to_string())
}

struct Facts {
    v: Vec<Fact>,
    file: usize,
}

impl Facts {
    fn add(&mut self, path: &str, val: String, sp: (usize, usize)) {
        self.v.push(Fact { path: path.to_string(), vals: vec![val], file: self.file, sp: Sp::At(sp.0, sp.1) });
    }
    fn add_any(&mut self, path: &str, val: String) {
        self.v.push(Fact { path: path.to_string(), vals: vec![val], file: self.file, sp: Sp::Any });
    }
    fn num(&mut self, path: &str, e: &E, sp: Option<(usize, usize)>) {
        self.v.push(Fact {
            path: path.to_string(),
            vals: num_vals(e),
            file: self.file,
            sp: sp.map_or(Sp::Any, |s| Sp::At(s.0, s.1)),
        });
    }
}

impl<'a> Printer<'a> {
    pub fn new(style: &'a Style) -> Self {
        Printer { types: std_types(), style }
    }

    fn acc(&self, o: &mut Out, f: &mut Facts, path: &str, a: &Acc) -> (usize, usize) {
        let n = acc_name(a, &self.types);
        let sp = o.tok(&n);
        f.add(path, format!("@{}|{}", n, TYPES[a.ty]), sp);
        sp
    }

    /// emits the value, and its facts at `path`
    fn mv(&self, o: &mut Out, f: &mut Facts, path: &str, v: &MV) {
        match v {
            MV::Str(l) => {
                let sp = o.lit(l);
                f.add(path, format!("\"{}", l.val), sp);
            }
            MV::Cur(c) => {
                let sp = o.tok(c);
                f.add(path, format!("${}", c), sp);
            }
            MV::Acc(a) => {
                self.acc(o, f, path, a);
            }
            MV::Tag(t) => {
                let sp = o.tok(&format!("#{}", t));
                f.add(path, format!("#{}", t), sp);
            }
            MV::Link(t) => {
                let sp = o.tok(&format!("^{}", t));
                f.add(path, format!("^{}", t), sp);
            }
            MV::Date(d) => {
                let sp = o.date(d);
                f.add(path, format!("d{}", d.iso()), sp);
            }
            MV::Bool(b) => {
                let sp = o.tok(if *b { "TRUE" } else { "FALSE" });
                f.add(path, format!("bool {}", b), sp);
            }
            MV::Null => {
                let sp = o.tok("NULL");
                f.add(path, "null".to_string(), sp);
            }
            MV::Absent => f.add_any(path, "null".to_string()),
            MV::Num(e) => {
                let sp = o.expr(e);
                f.num(path, e, Some(sp));
            }
            MV::Amt(e, c) => {
                let n = o.expr(e);
                o.gap();
                let cs = o.tok(c);
                f.add(path, "amount".to_string(), (n.0, cs.1));
                f.num(&format!("{}.num", path), e, Some(n));
                f.add(&format!("{}.cur", path), format!("${}", c), cs);
            }
        }
    }

    fn kv(&self, o: &mut Out, f: &mut Facts, prefix: &str, k: &str, v: &MV) {
        let sp = o.tok(k);
        f.add(&format!("{}key[{}]", prefix, k), k.to_string(), sp);
        o.ngap();
        o.tok(":");
        if !matches!(v, MV::Absent) {
            // a tight colon before an account or currency is left out: it reads differently
            if matches!(v, MV::Str(_)) {
                o.ogap();
            } else {
                o.gap();
            }
        }
        self.mv(o, f, &format!("{}meta[{}]", prefix, k), v);
    }

    fn meta_items(&self, o: &mut Out, f: &mut Facts, prefix: &str, items: &[MetaItem], end: &mut usize) {
        for it in items {
            o.end_line(true);
            o.indent();
            match it {
                MetaItem::KV(k, v) => self.kv(o, f, prefix, k, v),
                MetaItem::Tag(t) => {
                    let sp = o.tok(&format!("#{}", t));
                    f.add(&format!("{}tag[{}]", prefix, t), format!("#{}", t), sp);
                }
                MetaItem::Link(t) => {
                    let sp = o.tok(&format!("^{}", t));
                    f.add(&format!("{}link[{}]", prefix, t), format!("^{}", t), sp);
                }
            }
            *end = o.s.len();
        }
    }

    fn cost(&self, o: &mut Out, f: &mut Facts, p: &str, comps: &[CC]) {
        let a = o.s.len();
        o.tok("{");
        o.ngap();
        let mut merge = false;
        for (i, c) in comps.iter().enumerate() {
            if i > 0 {
                o.ngap();
                o.tok(",");
                o.gap();
            }
            let start = o.s.len();
            match c {
                CC::Amt(pu, hash, tot, cur) => {
                    if let Some(e) = pu {
                        o.expr(e);
                    }
                    if *hash {
                        if pu.is_some() {
                            o.ogap();
                        }
                        o.tok("#");
                        if tot.is_some() || cur.is_some() {
                            o.gap();
                        }
                    }
                    if let Some(e) = tot {
                        o.expr(e);
                    }
                    if let Some(c) = cur {
                        if (pu.is_some() && !*hash) || tot.is_some() {
                            o.gap();
                        }
                        o.tok(c);
                    }
                    let sp = (start, o.s.len());
                    if let Some(e) = pu {
                        f.num(&format!("{}.per_unit", p), e, Some(sp));
                    }
                    if let Some(e) = tot {
                        f.num(&format!("{}.total", p), e, Some(sp));
                    }
                    if let Some(c) = cur {
                        f.add(&format!("{}.currency", p), format!("${}", c), sp);
                    }
                }
                CC::Date(d) => {
                    let sp = o.date(d);
                    f.add(&format!("{}.date", p), format!("d{}", d.iso()), sp);
                }
                CC::Label(l) => {
                    let sp = o.lit(l);
                    f.add(&format!("{}.label", p), format!("\"{}", l.val), sp);
                }
                CC::Merge => {
                    o.tok("*");
                    merge = true;
                }
            }
        }
        o.ngap();
        o.tok("}");
        f.add(p, "cost".to_string(), (a, o.s.len()));
        f.add_any(&format!("{}.merge", p), merge.to_string());
    }

    fn posting(&self, o: &mut Out, f: &mut Facts, i: usize, p: &Posting, end: &mut usize) {
        o.end_line(true);
        o.indent();
        let pre = format!("posting[{}]", i);
        let start = o.s.len();
        if let Some(fl) = &p.flag {
            let sp = o.tok(fl);
            f.add(&format!("{}.flag", pre), format!("!{}", fl), sp);
            o.gap();
        }
        self.acc(o, f, &format!("{}.account", pre), &p.acc);
        if let Some(e) = &p.amt {
            o.gap();
            let sp = o.expr(e);
            f.num(&format!("{}.amount", pre), e, Some(sp));
        }
        if let Some(c) = &p.cur {
            o.gap();
            let sp = o.tok(c);
            f.add(&format!("{}.currency", pre), format!("${}", c), sp);
        }
        if let Some(comps) = &p.cost {
            o.ogap();
            self.cost(o, f, &format!("{}.cost", pre), comps);
        }
        if let Some(pr) = &p.price {
            o.ogap();
            let a = o.s.len();
            o.tok(if pr.total { "@@" } else { "@" });
            let path = format!("{}.price", pre);
            if let Some(e) = &pr.n {
                o.ogap();
                o.expr(e);
                f.num(&format!("{}.num", path), e, None);
                f.add_any(&format!("{}.scope", path), if pr.total { "total" } else { "per-unit" }.to_string());
            }
            if let Some(c) = &pr.c {
                o.gap();
                o.tok(c);
                f.add_any(&format!("{}.cur", path), format!("${}", c));
            }
            f.add(&path, "price".to_string(), (a, o.s.len()));
        }
        *end = o.s.len();
        f.add(&pre, "posting".to_string(), (start, *end));
        self.meta_items(o, f, &format!("{}.", pre), &p.meta, end);
    }

    pub fn dir(&self, o: &mut Out, d: &Dir) -> EDir {
        let mut f = Facts { v: vec![], file: o.file };
        let start = o.s.len();
        let sp = o.date(&d.date);
        f.add("date", format!("d{}", d.date.iso()), sp);
        f.add_any("kind", d.kind.name().to_string());
        o.gap();
        if !matches!(d.kind, Kind::Txn { .. }) {
            o.tok(d.kind.name());
        }
        let strf = |o: &mut Out, f: &mut Facts, p: &str, l: &Lit| {
            o.ogap();
            let sp = o.lit(l);
            f.add(p, format!("\"{}", l.val), sp);
        };
        match &d.kind {
            Kind::Txn { flag, strings, .. } => {
                let sp = o.tok(flag);
                f.add("flag", format!("!{}", if flag == "txn" { "*" } else { flag }), sp);
                let names: &[&str] = if strings.len() == 2 { &["payee", "narration"] } else { &["narration"] };
                for (n, l) in names.iter().zip(strings) {
                    o.ogap();
                    let sp = o.lit(l);
                    if !l.val.is_empty() {
                        f.add(n, format!("\"{}", l.val), sp);
                    }
                }
            }
            Kind::Price(c, e, c2) => {
                o.gap();
                let sp = o.tok(c);
                f.add("currency", format!("${}", c), sp);
                o.gap();
                let n = o.expr(e);
                o.gap();
                let cs = o.tok(c2);
                f.add("amount", "amount".to_string(), (n.0, cs.1));
                f.num("amount.num", e, Some(n));
                f.add("amount.cur", format!("${}", c2), cs);
            }
            Kind::Balance(a, e, tol, c) => {
                o.gap();
                self.acc(o, &mut f, "account", a);
                o.gap();
                let n = o.expr(e);
                if let Some((t, m, s)) = tol {
                    o.ogap();
                    o.tok("~");
                    o.ogap();
                    let ts = o.tok(t);
                    f.add("tolerance", format!("={}e-{} {}", m, s, dec_str(*m, *s)), ts);
                }
                o.gap();
                let cs = o.tok(c);
                f.add("atol", "atol".to_string(), (n.0, cs.1));
                f.add("amount", "amount".to_string(), (n.0, cs.1));
                f.num("amount.num", e, Some(n));
                f.add("amount.cur", format!("${}", c), cs);
            }
            Kind::Open(a, curs, b) => {
                o.gap();
                self.acc(o, &mut f, "account", a);
                for (i, c) in curs.iter().enumerate() {
                    if i > 0 {
                        o.ngap();
                        o.tok(",");
                        o.ogap();
                    } else {
                        o.gap();
                    }
                    let sp = o.tok(c);
                    f.add(&format!("currency[{}]", c), format!("${}", c), sp);
                }
                if let Some(b) = b {
                    o.ogap();
                    let sp = o.lit(&Lit::plain(b));
                    f.add("booking", format!("booking {}", b), sp);
                }
            }
            Kind::Close(a) => {
                o.gap();
                self.acc(o, &mut f, "account", a);
            }
            Kind::Commodity(c) => {
                o.gap();
                let sp = o.tok(c);
                f.add("currency", format!("${}", c), sp);
            }
            Kind::Pad(a, b) => {
                o.gap();
                self.acc(o, &mut f, "account", a);
                o.gap();
                self.acc(o, &mut f, "source", b);
            }
            Kind::Document(a, l) => {
                o.gap();
                self.acc(o, &mut f, "account", a);
                strf(o, &mut f, "path", l);
            }
            Kind::Note(a, l) => {
                o.gap();
                self.acc(o, &mut f, "account", a);
                strf(o, &mut f, "comment", l);
            }
            Kind::Event(a, b) => {
                strf(o, &mut f, "event_type", a);
                strf(o, &mut f, "description", b);
            }
            Kind::Query(a, b) => {
                strf(o, &mut f, "name", a);
                strf(o, &mut f, "content", b);
            }
            Kind::Custom(l, vs) => {
                strf(o, &mut f, "type", l);
                f.add_any("values", vs.len().to_string());
                for (i, v) in vs.iter().enumerate() {
                    o.gap();
                    self.mv(o, &mut f, &format!("value[{}]", i), v);
                }
            }
        }
        for t in &d.inline {
            o.gap();
            let sp = o.tok(t);
            let (p, n) = if let Some(n) = t.strip_prefix('#') { ("tag", n) } else { ("link", &t[1..]) };
            f.add(&format!("{}[{}]", p, n), t.clone(), sp);
        }
        let mut end = o.s.len();
        self.meta_items(o, &mut f, "", &d.meta, &mut end);
        if let Kind::Txn { postings, .. } = &d.kind {
            f.add_any("postings", postings.len().to_string());
            for (i, p) in postings.iter().enumerate() {
                self.posting(o, &mut f, i, p, &mut end);
            }
        }
        EDir {
            date: d.date,
            class: d.kind.class(),
            kind: d.kind.name(),
            file: o.file,
            start,
            end,
            limit: end,
            facts: f.v,
        }
    }

    pub fn item(&self, o: &mut Out, it: &Item) -> EItem {
        let start = o.s.len();
        let mut f = Facts { v: vec![], file: o.file };
        let kind = match it {
            Item::Dir(d) => EKind::Dir(self.dir(o, d)),
            Item::Plugin(n, c) => {
                o.tok("plugin");
                o.ogap();
                let sp = o.lit(n);
                f.add("module", format!("\"{}", n.val), sp);
                if let Some(c) = c {
                    o.ogap();
                    let sp = o.lit(c);
                    f.add("config", format!("\"{}", c.val), sp);
                }
                EKind::Plugin(f.v)
            }
            Item::PushTag(t) => {
                o.tok("pushtag");
                o.gap();
                let sp = o.tok(&format!("#{}", t));
                let fact = Fact {
                    path: format!("tag[{}]", t),
                    vals: vec![format!("#{}", t)],
                    file: o.file,
                    sp: Sp::Alt(vec![sp, (start, sp.1)]),
                };
                EKind::PushTag(t.clone(), fact)
            }
            Item::PopTag(t) => {
                o.tok("poptag");
                o.gap();
                o.tok(&format!("#{}", t));
                EKind::PopTag(t.clone())
            }
            Item::PushMeta(k, v) => {
                o.tok("pushmeta");
                o.gap();
                self.kv(o, &mut f, "", k, v);
                EKind::PushMeta(k.clone(), f.v)
            }
            Item::PopMeta(k) => {
                o.tok("popmeta");
                o.gap();
                o.tok(k);
                o.ngap();
                o.tok(":");
                EKind::PopMeta(k.clone())
            }
            Item::Opt(n, v) => {
                o.tok("option");
                o.ogap();
                let name = o.lit(n);
                o.ogap();
                let value = o.lit(v);
                EKind::Opt { name, value, n: n.clone(), v: v.clone() }
            }
            Item::Include(p, files) => {
                o.tok("include");
                o.ogap();
                let lit = o.lit(p);
                EKind::Include { lit, files: files.clone() }
            }
            Item::Raw(t) => {
                o.tok(t);
                EKind::Raw
            }
        };
        let end = match &kind {
            EKind::Dir(d) => d.end,
            _ => o.s.len(),
        };
        EItem { start, end, limit: end, kind }
    }

    pub fn file(&self, r: &mut Rng, idx: usize, fm: &FileM) -> EFile {
        let mut o = Out::new(self.style, r, idx);
        if o.r.pct(self.style.head) {
            // ignorable lines at the very start
            o.filler(false);
        }
        let mut items: Vec<EItem> = vec![];
        let n = fm.items.len();
        for (i, it) in fm.items.iter().enumerate() {
            let e = self.item(&mut o, it);
            items.push(e);
            if i + 1 < n || self.style.final_nl {
                o.end_line(false);
            } else {
                o.trail();
                if o.r.pct(self.style.comments) {
                    o.s.push(' ');
                    o.comment();
                }
            }
        }
        let total = o.s.len();
        let text = o.s;
        for i in 0..items.len() {
            let limit = if i + 1 < items.len() { items[i + 1].start } else { total };
            items[i].limit = limit;
            if let EKind::Dir(d) = &mut items[i].kind {
                d.limit = limit;
            }
        }
        EFile { path: fm.path.clone(), text, items }
    }
}

// ---------------------------------------------------------------- what the ledger means

#[derive(Default, Clone)]
pub struct Scope {
    pub tags: Vec<(String, Fact)>,
    pub metas: Vec<(String, Vec<Fact>)>,
}

impl Scope {
    pub fn sig(&self) -> String {
        let mut t: Vec<_> = self.tags.iter().map(|(t, _)| t.clone()).collect();
        t.sort();
        let mut m: Vec<_> = self.metas.iter().map(|(k, f)| format!("{}={:?}", k, f.iter().map(|f| &f.vals).collect::<Vec<_>>())).collect();
        m.sort();
        format!("{:?}{:?}", t, m)
    }
}

#[derive(Default)]
pub struct Meaning {
    pub dirs: Vec<EDir>,
    pub plugins: Vec<Vec<Fact>>,
    pub seen: Vec<usize>,
    pub opts: Vec<(usize, (usize, usize), (usize, usize), Lit, Lit)>,
}

/// Expand includes and apply pushed tags and metadata; directives in order of declaration.
pub fn meaning(files: &[EFile]) -> Meaning {
    let mut m = Meaning::default();
    let mut scope = Scope::default();
    walk(files, 0, &mut m, &mut scope);
    m
}

fn walk(files: &[EFile], i: usize, m: &mut Meaning, scope: &mut Scope) {
    if m.seen.contains(&i) {
        return;
    }
    m.seen.push(i);
    for it in &files[i].items {
        match &it.kind {
            EKind::Dir(d) => {
                let mut d = d.clone();
                apply(&mut d, scope);
                m.dirs.push(d);
            }
            EKind::Plugin(f) => m.plugins.push(f.clone()),
            EKind::PushTag(t, f) => scope.tags.push((t.clone(), f.clone())),
            EKind::PopTag(t) => {
                if let Some(p) = scope.tags.iter().rposition(|(x, _)| x == t) {
                    scope.tags.remove(p);
                }
            }
            EKind::PushMeta(k, f) => scope.metas.push((k.clone(), f.clone())),
            EKind::PopMeta(k) => {
                if let Some(p) = scope.metas.iter().rposition(|(x, _)| x == k) {
                    scope.metas.remove(p);
                }
            }
            EKind::Opt { name, value, n, v } => m.opts.push((i, *name, *value, n.clone(), v.clone())),
            EKind::Include { files: fs, .. } => {
                for f in fs {
                    walk(files, *f, m, scope);
                }
            }
            EKind::Raw => {}
        }
    }
}

fn apply(d: &mut EDir, scope: &Scope) {
    let has = |d: &EDir, p: &str| d.facts.iter().any(|f| f.path == p);
    let mut done: Vec<String> = vec![];
    for (t, f) in scope.tags.iter().rev() {
        let p = format!("tag[{}]", t);
        if done.contains(&p) {
            continue;
        }
        if !has(d, &p) {
            // any push of it that is still in force
            let alts: Vec<_> = scope
                .tags
                .iter()
                .filter(|(x, g)| x == t && g.file == f.file)
                .flat_map(|(_, g)| match &g.sp {
                    Sp::Alt(v) => v.clone(),
                    _ => vec![],
                })
                .collect();
            let one_file = scope.tags.iter().filter(|(x, _)| x == t).all(|(_, g)| g.file == f.file);
            d.facts.push(Fact { sp: if one_file { Sp::Alt(alts) } else { Sp::Any }, ..f.clone() });
        }
        done.push(p);
    }
    for (k, fs) in scope.metas.iter().rev() {
        let p = format!("key[{}]", k);
        if done.contains(&p) {
            continue;
        }
        if !has(d, &p) {
            d.facts.extend(fs.iter().cloned());
        }
        done.push(p);
    }
}

/// the order the library has to return them in
pub fn sorted(mut dirs: Vec<EDir>) -> Vec<EDir> {
    dirs.sort_by_key(|d| (d.date, d.class));
    dirs
}
