//! An independent model of a ledger, its random generator, and the exact-arithmetic oracle.
use crate::rng::Rng;

pub const TYPES: [&str; 5] = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];

/// A string literal: the source text between the quotes, and the text it denotes.
#[derive(Clone, Debug)]
pub struct Lit {
    pub src: String,
    pub val: String,
}

impl Lit {
    pub fn plain(s: &str) -> Lit {
        Lit { src: s.to_string(), val: s.to_string() }
    }
    pub fn escaped(s: &str) -> Lit {
        Lit { src: s.replace('\\', "\\\\").replace('"', "\\\""), val: s.to_string() }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    N { txt: String, m: i128, s: u32 },
    Neg(Box<E>),
    Pos(Box<E>),
    Par(Box<E>),
    Bin(char, Box<E>, Box<E>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct D {
    pub y: i32,
    pub m: u8,
    pub d: u8,
}

impl D {
    pub fn iso(&self) -> String {
        format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }
}

#[derive(Clone, Debug)]
pub struct Acc {
    pub ty: usize,
    pub sub: String,
}

#[derive(Clone, Debug)]
pub enum MV {
    Str(Lit),
    Cur(String),
    Acc(Acc),
    Tag(String),
    Link(String),
    Date(D),
    Bool(bool),
    Null,
    Absent,
    Num(E),
    Amt(E, String),
}

#[derive(Clone, Debug)]
pub enum MetaItem {
    KV(String, MV),
    Tag(String),
    Link(String),
}

#[derive(Clone, Debug)]
pub enum CC {
    /// per-unit, whether a hash is written, total, currency
    Amt(Option<E>, bool, Option<E>, Option<String>),
    Date(D),
    Label(Lit),
    Merge,
}

#[derive(Clone, Debug)]
pub struct Price {
    pub total: bool,
    pub n: Option<E>,
    pub c: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Posting {
    pub flag: Option<String>,
    pub acc: Acc,
    pub amt: Option<E>,
    pub cur: Option<String>,
    pub cost: Option<Vec<CC>>,
    pub price: Option<Price>,
    pub meta: Vec<MetaItem>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Txn { flag: String, strings: Vec<Lit>, postings: Vec<Posting> },
    Price(String, E, String),
    Balance(Acc, E, Option<(String, i128, u32)>, String),
    Open(Acc, Vec<String>, Option<String>),
    Close(Acc),
    Commodity(String),
    Pad(Acc, Acc),
    Document(Acc, Lit),
    Note(Acc, Lit),
    Event(Lit, Lit),
    Query(Lit, Lit),
    Custom(Lit, Vec<MV>),
}

impl Kind {
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Txn { .. } => "transaction",
            Kind::Price(..) => "price",
            Kind::Balance(..) => "balance",
            Kind::Open(..) => "open",
            Kind::Close(..) => "close",
            Kind::Commodity(..) => "commodity",
            Kind::Pad(..) => "pad",
            Kind::Document(..) => "document",
            Kind::Note(..) => "note",
            Kind::Event(..) => "event",
            Kind::Query(..) => "query",
            Kind::Custom(..) => "custom",
        }
    }
    pub fn class(&self) -> u8 {
        match self {
            Kind::Open(..) => 0,
            Kind::Balance(..) => 1,
            _ => 2,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub date: D,
    pub kind: Kind,
    /// inline tags (`#x`) and links (`^x`), with their sigil
    pub inline: Vec<String>,
    pub meta: Vec<MetaItem>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Dir(Dir),
    Plugin(Lit, Option<Lit>),
    PushTag(String),
    PopTag(String),
    PushMeta(String, MV),
    PopMeta(String),
    Opt(Lit, Lit),
    /// the pattern written, and the files it stands for, in the order they are to be expanded
    Include(Lit, Vec<usize>),
    /// literal text line(s), for malformed input
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct FileM {
    /// path relative to the ledger's directory
    pub path: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Ledger {
    pub files: Vec<FileM>,
}

// ---------------------------------------------------------------- exact arithmetic

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    if a == 0 {
        1
    } else {
        a as i128
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

impl Q {
    pub fn new(n: i128, d: i128) -> Option<Q> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d);
        let (n, d) = (n / g, d / g);
        Some(if d < 0 { Q { n: -n, d: -d } } else { Q { n, d } })
    }
    pub fn add(self, o: Q) -> Option<Q> {
        let g = gcd(self.d, o.d);
        let l = self.d.checked_mul(o.d / g)?;
        let a = self.n.checked_mul(l / self.d)?;
        let b = o.n.checked_mul(l / o.d)?;
        Q::new(a.checked_add(b)?, l)
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn mul(self, o: Q) -> Option<Q> {
        let g1 = gcd(self.n, o.d);
        let g2 = gcd(o.n, self.d);
        Q::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    pub fn inv(self) -> Option<Q> {
        Q::new(self.d, self.n)
    }
    pub fn abs_gt(self, k: i128) -> bool {
        self.n.abs() / self.d >= k
    }
}

pub fn pow10(s: u32) -> i128 {
    10i128.pow(s)
}

pub struct Eval {
    pub q: Q,
    pub scale: u32,
    pub inexact: bool,
    pub peak_ok: bool,
}

const LIMIT: i128 = 1_000_000_000_000_000; // 1e15

impl E {
    pub fn num(txt: &str, m: i128, s: u32) -> E {
        E::N { txt: txt.to_string(), m, s }
    }

    /// None if it has no value here (division by zero, or beyond this oracle)
    pub fn eval(&self) -> Option<Eval> {
        match self {
            E::N { m, s, .. } => {
                let q = Q::new(*m, pow10(*s))?;
                Some(Eval { q, scale: *s, inexact: false, peak_ok: !q.abs_gt(LIMIT) })
            }
            E::Neg(e) => e.eval().map(|v| Eval { q: v.q.neg(), ..v }),
            E::Pos(e) | E::Par(e) => e.eval(),
            E::Bin(op, a, b) => {
                let (a, b) = (a.eval()?, b.eval()?);
                let q = match op {
                    '+' => a.q.add(b.q)?,
                    '-' => a.q.add(b.q.neg())?,
                    '*' => a.q.mul(b.q)?,
                    _ => a.q.mul(b.q.inv()?)?,
                };
                // a divisor below 1e-3 would magnify the rounding of earlier divisions
                let div_ok = *op != '/' || b.q.n.abs().checked_mul(1000)? >= b.q.d;
                Some(Eval {
                    q,
                    scale: a.scale.max(b.scale),
                    inexact: a.inexact || b.inexact || *op == '/',
                    peak_ok: a.peak_ok && b.peak_ok && div_ok && !q.abs_gt(LIMIT),
                })
            }
        }
    }

    /// acceptable (mantissa, scale): one, or two when within rounding noise of a midpoint
    pub fn value(&self) -> Option<Vec<(i128, u32)>> {
        let v = self.eval()?;
        if !v.peak_ok {
            return None;
        }
        let p = pow10(v.scale);
        // q * p = whole + rem/d
        let n = v.q.n.checked_mul(p)?;
        let d = v.q.d;
        let (w, r) = (n / d, (n % d).abs());
        let sign = if n < 0 { -1 } else { 1 };
        let twice = r.checked_mul(2)?;
        let rounded = if twice >= d { w + sign } else { w };
        let mut out = vec![(rounded, v.scale)];
        if v.inexact && r != 0 {
            // within 1e-9 of the midpoint
            let dist = (twice - d).abs();
            if dist.checked_mul(1_000_000_000).is_none_or(|x| x < d) {
                let other = if rounded == w { w + sign } else { w };
                out.push((other, v.scale));
            }
        }
        Some(out)
    }

    pub fn sexpr(&self) -> String {
        match self {
            E::N { m, s, .. } => dec_str(*m, *s),
            E::Neg(e) => format!("(neg {})", e.sexpr()),
            E::Pos(e) => e.sexpr(),
            E::Par(e) => format!("[{}]", e.sexpr()),
            E::Bin(op, a, b) => format!("({} {} {})", op, a.sexpr(), b.sexpr()),
        }
    }

    pub fn nodes(&self) -> usize {
        match self {
            E::N { .. } => 1,
            E::Neg(e) | E::Pos(e) | E::Par(e) => 1 + e.nodes(),
            E::Bin(_, a, b) => 1 + a.nodes() + b.nodes(),
        }
    }
}

/// decimal text of m * 10^-s, without sign for zero
pub fn dec_str(m: i128, s: u32) -> String {
    let neg = m < 0;
    let mut digits = m.unsigned_abs().to_string();
    while digits.len() <= s as usize {
        digits.insert(0, '0');
    }
    if s > 0 {
        digits.insert(digits.len() - s as usize, '.');
    }
    if neg {
        format!("-{}", digits)
    } else {
        digits
    }
}

// ---------------------------------------------------------------- generator

/// Knobs of the generator.
#[derive(Clone)]
pub struct Gen {
    pub unicode: bool,
    pub expr_depth: usize,
    pub max_items: usize,
    pub pragmas: bool,
    pub dates: usize, // pool size of distinct dates, 0 for any
    pub long_strings: bool,
    pub kinds: Vec<usize>, // directive kinds allowed; empty for all
}

impl Default for Gen {
    fn default() -> Self {
        Gen {
            unicode: true,
            expr_depth: 3,
            max_items: 12,
            pragmas: false,
            dates: 0,
            long_strings: false,
            kinds: vec![],
        }
    }
}

pub const WORDS: &[&str] = &[
    "a", "Lunch", "x y", "; not a comment", "* heading", "#tag ^link", "{10 USD}", "2024-01-01", "key: 1", "", " ",
    "  lead", "trail  ", "option", "it's", "50%", "a\tb", "tab\t", "(", "@@", "~", "http://example.com/?q=1&r=2#f",
];
pub const UWORDS: &[&str] = &[
    "café", "Ünïcode", "银行", "日本語テキスト", "😀", "👨‍👩‍👧", "e\u{301}", "עברית", "ß", "Ω≈ç√", "\u{a0}", "\u{2003}x\u{2003}",
    "Ж", "\u{feff}", "\u{200b}", "٣", "𝔘𝔫𝔦", "\u{85}", "\u{2028}", "ﬃ",
];
pub const SUBS: &[&str] =
    &["Bank", "Cash", "A", "3M", "US-Bank", "B2", "0", "Checking-Account", "X-", "Abc123", "IRA", "Zzz", "A-b-C"];
pub const USUBS: &[&str] = &["Ünïcode", "银行", "Ж", "Жизнь", "東京支店", "É", "Ñandú", "فلوس", "Ⅷa", "Δx", "Åland-1"];
pub const CURS: &[&str] = &[
    "USD", "EUR", "A", "V", "GBP", "NZD", "VTI", "NT.TO", "TLT_040921C144", "/6J", "/NQH21", "/NQH21_QNEG21C13100",
    "AAPL'X1", "X-1", "HOOL", "IVV", "TRUE1", "NULLX", "B9", "A.B-C_D'E1", "/1A",
];
pub const TAGS: &[&str] = &["trip", "a", "x-y_z", "2024", "berlin/2024", "v1.2", "A", "-", ".", "txn", "0"];
pub const LINKS: &[&str] = &["inv-1", "a", "A/B", "2024.01", "_", "doc_1", "txn", "x"];
pub const KEYS: &[&str] = &[
    "aa", "filename", "lineno", "open", "note", "price", "txn", "option", "x-y_z2", "balance", "custom", "include",
    "plugin", "document", "query", "event", "pad", "commodity", "close", "pushtag", "popmeta", "kEY9", "some-long-key_name",
    "options",
];
pub const FLAGS: &[&str] = &["*", "!", "&", "#", "?", "%", "'A", "'Z", "'M"];
pub const BOOKINGS: &[&str] = &["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"];

impl Gen {
    pub fn date(&self, r: &mut Rng) -> D {
        if self.dates > 0 {
            let k = r.below(self.dates);
            // a few adjacent days across year and month ends
            let pool = [(2023, 12, 31), (2024, 1, 1), (2024, 2, 29), (2024, 3, 1), (2020, 6, 15), (1999, 12, 31), (2024, 1, 2), (2024, 10, 1)];
            let (y, m, d) = pool[k % pool.len()];
            return D { y, m, d };
        }
        let y = match r.below(10) {
            0 => *r.pick(&[0, 1, 1000, 1900, 1970, 2000, 9999]),
            1..=3 => 2024,
            _ => 1990 + r.below(60) as i32,
        };
        let m = r.range(1, 12) as u8;
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let dim = match m {
            2 => {
                if leap {
                    29
                } else {
                    28
                }
            }
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let d = if r.pct(20) { dim } else { r.range(1, dim as usize) as u8 };
        D { y, m, d }
    }

    pub fn acc(&self, r: &mut Rng) -> Acc {
        let ty = r.below(5);
        let n = 1 + r.few(6);
        let mut parts = vec![];
        for _ in 0..n {
            if self.unicode && r.pct(20) {
                parts.push(r.pick(USUBS).to_string());
            } else {
                parts.push(r.pick(SUBS).to_string());
            }
        }
        Acc { ty, sub: parts.join(":") }
    }

    pub fn cur(&self, r: &mut Rng) -> String {
        if r.pct(15) {
            // an arbitrary valid currency
            let mid: Vec<char> = "ABCXYZ0129'._-".chars().collect();
            let mut s = String::new();
            s.push((b'A' + r.below(26) as u8) as char);
            let n = r.few(22);
            for _ in 0..n {
                s.push(*r.pick(&mid));
            }
            if n > 0 {
                s.push(*r.pick(&['A', 'Q', 'Z', '0', '7']));
            }
            if matches!(s.as_str(), "TRUE" | "FALSE" | "NULL") {
                s.push('1');
            }
            s
        } else {
            r.pick(CURS).to_string()
        }
    }

    pub fn lit(&self, r: &mut Rng) -> Lit {
        let mut src = String::new();
        let mut val = String::new();
        let n = match r.below(20) {
            0 => 0,
            1..=14 => 1,
            15..=18 => r.range(2, 4),
            _ => r.range(5, 12),
        };
        for i in 0..n {
            if i > 0 && r.pct(60) {
                src.push(' ');
                val.push(' ');
            }
            match r.below(12) {
                0 => {
                    let (s, v) = *r.pick(&[
                        ("\\\"", "\""),
                        ("\\\\", "\\"),
                        ("\\n", "\n"),
                        ("\\t", "\t"),
                        ("\\r", "\r"),
                        ("\\'", "'"),
                        ("\\u{1F600}", "😀"),
                        ("\\u{e9}", "é"),
                        ("\\x41", "A"),
                        ("\\\\n", "\\n"),
                        ("\\\\\\\"", "\\\""),
                    ]);
                    src.push_str(s);
                    val.push_str(v);
                }
                1 => {
                    let nl = *r.pick(&["\n", "\n\n", "\n  ", "\r\n", "\n* x\n", "\n; c\n", "\n2024-01-01 open Assets:Not\n"]);
                    src.push_str(nl);
                    val.push_str(nl);
                }
                2..=4 if self.unicode => {
                    let w = *r.pick(UWORDS);
                    src.push_str(w);
                    val.push_str(w);
                }
                _ => {
                    let w = *r.pick(WORDS);
                    src.push_str(w);
                    val.push_str(w);
                }
            }
        }
        if self.long_strings && r.pct(4) {
            let lines = r.range(2, 90);
            for i in 0..lines {
                let l = format!("\nline {}", i);
                src.push_str(&l);
                val.push_str(&l);
            }
        }
        Lit { src, val }
    }

    pub fn tag(&self, r: &mut Rng) -> String {
        ident(r, TAGS)
    }
    pub fn link(&self, r: &mut Rng) -> String {
        ident(r, LINKS)
    }

    pub fn key(&self, r: &mut Rng) -> String {
        if r.pct(20) {
            let mut s = String::from((b'a' + r.below(26) as u8) as char);
            for _ in 0..r.range(1, 9) {
                s.push(*r.pick(&['a', 'z', 'A', 'Q', '0', '9', '-', '_']));
            }
            s
        } else {
            r.pick(KEYS).to_string()
        }
    }

    pub fn number(&self, r: &mut Rng) -> E {
        let (txt, m, s) = number_literal(r);
        E::N { txt, m, s }
    }

    pub fn expr(&self, r: &mut Rng) -> E {
        if self.expr_depth == 0 || r.pct(55) {
            let n = self.number(r);
            return match r.below(8) {
                0..=1 => E::Neg(Box::new(n)),
                2 => E::Pos(Box::new(n)),
                _ => n,
            };
        }
        for _ in 0..20 {
            let e = self.sum(r, self.expr_depth);
            if e.value().is_some() && e.nodes() < 60 {
                return e;
            }
        }
        self.number(r)
    }

    fn sum(&self, r: &mut Rng, depth: usize) -> E {
        let mut e = self.product(r, depth);
        for _ in 0..r.few(4) {
            let op = *r.pick(&['+', '-']);
            e = E::Bin(op, Box::new(e), Box::new(self.product(r, depth)));
        }
        e
    }
    fn product(&self, r: &mut Rng, depth: usize) -> E {
        let mut e = self.factor(r, depth);
        for _ in 0..r.few(3) {
            let op = *r.pick(&['*', '/']);
            e = E::Bin(op, Box::new(e), Box::new(self.factor(r, depth)));
        }
        e
    }
    fn factor(&self, r: &mut Rng, depth: usize) -> E {
        let inner = if depth > 1 && r.pct(30) {
            E::Par(Box::new(self.sum(r, depth - 1)))
        } else {
            self.number(r)
        };
        match r.below(10) {
            0..=1 => E::Neg(Box::new(inner)),
            2 => E::Pos(Box::new(inner)),
            _ => inner,
        }
    }

    pub fn mv(&self, r: &mut Rng) -> MV {
        match r.below(13) {
            0..=2 => MV::Str(self.lit(r)),
            3 => MV::Cur(self.cur(r)),
            4 => MV::Acc(self.acc(r)),
            5 => MV::Tag(self.tag(r)),
            6 => MV::Link(self.link(r)),
            7 => MV::Date(self.date(r)),
            8 => MV::Bool(r.pct(50)),
            9 => MV::Null,
            10 => MV::Absent,
            11 => MV::Num(self.expr(r)),
            _ => MV::Amt(self.expr(r), self.cur(r)),
        }
    }

    pub fn meta(&self, r: &mut Rng, max: usize, taken: &[String]) -> Vec<MetaItem> {
        let mut out = vec![];
        let mut seen: Vec<String> = taken.to_vec();
        for _ in 0..crowd(r, max) {
            let (id, it) = match r.below(6) {
                0 => {
                    let t = self.tag(r);
                    (format!("#{}", t), MetaItem::Tag(t))
                }
                1 => {
                    let t = self.link(r);
                    (format!("^{}", t), MetaItem::Link(t))
                }
                _ => {
                    let k = self.key(r);
                    (k.clone(), MetaItem::KV(k, self.mv(r)))
                }
            };
            if !seen.contains(&id) {
                seen.push(id);
                out.push(it);
            }
        }
        out
    }

    pub fn cost(&self, r: &mut Rng) -> Vec<CC> {
        let mut comps = vec![];
        let mut need_cur = false;
        match r.below(9) {
            0 => {}
            1 => comps.push(CC::Amt(Some(self.expr(r)), false, None, None)),
            2..=3 => comps.push(CC::Amt(Some(self.expr(r)), false, None, Some(self.cur(r)))),
            4 => comps.push(CC::Amt(Some(self.expr(r)), true, Some(self.expr(r)), Some(self.cur(r)))),
            5 => comps.push(CC::Amt(None, true, Some(self.expr(r)), Some(self.cur(r)))),
            6 => {
                comps.push(CC::Amt(Some(self.expr(r)), true, None, if r.pct(50) { Some(self.cur(r)) } else { None }))
            }
            7 => comps.push(CC::Amt(None, r.pct(50), None, Some(self.cur(r)))),
            _ => {
                comps.push(CC::Amt(None, true, Some(self.expr(r)), None));
                need_cur = r.pct(50);
            }
        }
        if need_cur {
            comps.push(CC::Amt(None, false, None, Some(self.cur(r))));
        }
        if r.pct(30) {
            comps.push(CC::Date(self.date(r)));
        }
        if r.pct(30) {
            comps.push(CC::Label(self.lit(r)));
        }
        if r.pct(15) {
            comps.push(CC::Merge);
        }
        r.shuffle(&mut comps);
        comps
    }

    pub fn posting(&self, r: &mut Rng) -> Posting {
        let (mut amt, mut cur) = (None, None);
        match r.below(8) {
            0 => {}
            1 => amt = Some(self.expr(r)),
            2 => cur = Some(self.cur(r)),
            _ => {
                amt = Some(self.expr(r));
                cur = Some(self.cur(r));
            }
        }
        let cost = if r.pct(25) { Some(self.cost(r)) } else { None };
        let price = if r.pct(25) {
            let (n, c) = match r.below(6) {
                0 => (None, None),
                1 => (Some(self.expr(r)), None),
                2 => (None, Some(self.cur(r))),
                _ => (Some(self.expr(r)), Some(self.cur(r))),
            };
            Some(Price { total: r.pct(50), n, c })
        } else {
            None
        };
        Posting {
            flag: if r.pct(15) { Some(r.pick(FLAGS).to_string()) } else { None },
            acc: self.acc(r),
            amt,
            cur,
            cost,
            price,
            meta: self.meta(r, 4, &[]),
        }
    }

    pub fn kind(&self, r: &mut Rng) -> Kind {
        let k = if self.kinds.is_empty() {
            match r.below(18) {
                0..=6 => 0,
                n => n - 6,
            }
        } else {
            *r.pick(&self.kinds)
        };
        match k {
            0 => {
                let strings = match r.below(4) {
                    0 => vec![],
                    1 | 2 => vec![self.lit(r)],
                    _ => vec![self.lit(r), self.lit(r)],
                };
                let n = match r.below(10) {
                    0 => 0,
                    1..=7 => r.range(1, 4),
                    8 => r.range(5, 10),
                    _ if r.pct(5) => r.range(20, 80),
                    _ => 2,
                };
                Kind::Txn {
                    flag: if r.pct(25) { "txn".to_string() } else { r.pick(FLAGS).to_string() },
                    strings,
                    postings: (0..n).map(|_| self.posting(r)).collect(),
                }
            }
            1 => Kind::Price(self.cur(r), self.expr(r), self.cur(r)),
            2 => {
                let tol = if r.pct(40) { Some(number_literal(r)) } else { None };
                Kind::Balance(self.acc(r), self.expr(r), tol, self.cur(r))
            }
            3 => {
                let mut curs: Vec<String> = vec![];
                for _ in 0..crowd(r, 5) {
                    let c = self.cur(r);
                    if !curs.contains(&c) {
                        curs.push(c);
                    }
                }
                let b = if r.pct(30) { Some(r.pick(BOOKINGS).to_string()) } else { None };
                Kind::Open(self.acc(r), curs, b)
            }
            4 => Kind::Close(self.acc(r)),
            5 => Kind::Commodity(self.cur(r)),
            6 => Kind::Pad(self.acc(r), self.acc(r)),
            7 => Kind::Document(self.acc(r), self.lit(r)),
            8 => Kind::Note(self.acc(r), self.lit(r)),
            9 => Kind::Event(self.lit(r), self.lit(r)),
            10 => Kind::Query(self.lit(r), self.lit(r)),
            _ => {
                let mut vs: Vec<MV> = vec![];
                for _ in 0..crowd(r, 5) {
                    let v = self.mv(r);
                    // adjacent values which would read as one are not generated
                    let clash = matches!(v, MV::Absent)
                        || match (vs.last(), &v) {
                            (Some(MV::Num(_)), MV::Cur(_)) => true,
                            (Some(MV::Num(_)), MV::Num(e)) | (Some(MV::Num(_)), MV::Amt(e, _)) => starts_signed(e),
                            _ => false,
                        };
                    if !clash {
                        vs.push(v);
                    }
                }
                Kind::Custom(self.lit(r), vs)
            }
        }
    }

    pub fn dir(&self, r: &mut Rng) -> Dir {
        let kind = self.kind(r);
        let mut inline: Vec<String> = vec![];
        if !matches!(kind, Kind::Custom(..)) {
            for _ in 0..crowd(r, 5) {
                let t = if r.pct(60) { format!("#{}", self.tag(r)) } else { format!("^{}", self.link(r)) };
                if !inline.contains(&t) {
                    inline.push(t);
                }
            }
        }
        let meta = self.meta(r, 6, &inline);
        Dir { date: self.date(r), kind, inline, meta }
    }

    pub fn items(&self, r: &mut Rng) -> Vec<Item> {
        let n = match r.below(20) {
            0 => r.below(2),
            1..=16 => r.range(1, self.max_items),
            _ => r.range(self.max_items, self.max_items * 2),
        };
        self.items_n(r, n)
    }

    pub fn items_n(&self, r: &mut Rng, n: usize) -> Vec<Item> {
        let mut out = vec![];
        let mut tags: Vec<String> = vec![];
        let mut metas: Vec<String> = vec![];
        for _ in 0..n {
            if self.pragmas && r.pct(35) {
                match r.below(5) {
                    0 => {
                        let t = self.tag(r);
                        tags.push(t.clone());
                        out.push(Item::PushTag(t));
                    }
                    1 if !tags.is_empty() => {
                        let t = tags.remove(r.below(tags.len()));
                        out.push(Item::PopTag(t));
                    }
                    2 => {
                        let k = self.key(r);
                        metas.push(k.clone());
                        let v = self.mv(r);
                        out.push(Item::PushMeta(k, v));
                    }
                    3 if !metas.is_empty() => {
                        let k = metas.remove(r.below(metas.len()));
                        out.push(Item::PopMeta(k));
                    }
                    _ => {
                        let c = if r.pct(50) { Some(self.lit(r)) } else { None };
                        out.push(Item::Plugin(self.lit(r), c));
                    }
                }
            } else {
                out.push(Item::Dir(self.dir(r)));
            }
        }
        // close what was pushed
        for t in tags {
            out.push(Item::PopTag(t));
        }
        for k in metas {
            out.push(Item::PopMeta(k));
        }
        out
    }
}

pub fn starts_signed(e: &E) -> bool {
    match e {
        E::Neg(_) | E::Pos(_) => true,
        E::Bin(_, a, _) => starts_signed(a),
        _ => false,
    }
}

fn ident(r: &mut Rng, pool: &[&str]) -> String {
    if r.pct(20) {
        (0..r.range(1, 12)).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '_', '/', '.', 'q'])).collect()
    } else {
        r.pick(pool).to_string()
    }
}

/// number literal text, mantissa, scale
pub fn number_literal(r: &mut Rng) -> (String, i128, u32) {
    let int: i128 = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[9, 10, 99, 100, 999, 1000, 9999, 10000, 999999, 1000000, 123456789]),
        3..=6 => r.below(100) as i128,
        7..=9 => r.below(10000) as i128,
        _ => r.below(100_000_000) as i128,
    };
    let scale = match r.below(10) {
        0..=3 => 0u32,
        4..=7 => 2,
        8 => r.below(7) as u32,
        _ => 1,
    };
    let frac = if scale == 0 {
        0
    } else if r.pct(20) {
        0
    } else {
        r.below(pow10(scale) as usize) as i128
    };
    let mut t = int.to_string();
    if int >= 1000 && r.pct(40) {
        // thousands separators
        let mut s = String::new();
        let len = t.len();
        for (i, c) in t.chars().enumerate() {
            if i > 0 && (len - i) % 3 == 0 {
                s.push(',');
            }
            s.push(c);
        }
        t = s;
    } else if r.pct(4) {
        t = format!("00{}", t);
    } else if int < 1000 && r.pct(3) {
        // a group of three digits after nothing much
        t = format!("{},{:03}", r.pick(&["0", "00", "000", "0,000"]), int);
    }
    if scale > 0 {
        t.push('.');
        t.push_str(&format!("{:0w$}", frac, w = scale as usize));
    }
    (t, int * pow10(scale) + frac, scale)
}

/// how many: few, now and then many
fn crowd(r: &mut Rng, max: usize) -> usize {
    if r.below(200) == 0 {
        r.range(20, 90)
    } else {
        r.few(max)
    }
}
