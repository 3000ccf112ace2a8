//! Options: a reference interpreter of option histories, with accounts probing the names in force.
use crate::dump;
use crate::model::*;
use crate::observe::*;
use crate::p_errors::malformed;
use crate::p_model::show_errors;
use crate::p_values::{file_of, overlaps};
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, Report};
use std::collections::BTreeMap;

const SINGLE_SUB: &[&str] = &[
    "account_previous_balances",
    "account_previous_earnings",
    "account_previous_conversions",
    "account_current_earnings",
    "account_current_conversions",
    "account_unrealized_gains",
    "account_rounding",
];
const NAME_OPTS: [&str; 5] = ["name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses"];
const TYPE_NAMES: &[&str] = &[
    "Assets", "Liabilities", "Equity", "Income", "Expenses", "Aktiva", "Passiva", "Kapital", "Ausgaben", "Avoirs", "A", "X9", "Asset-s", "Assetsx", "Asset", "Umsatz1",
];
const UNKNOWN: &[&str] = &["", "titles", "Title", "TITLE", "title ", " title", "name_asset", "nope", "documents2", "operating_currencies", "é", "name-assets", "experiment_explicit_tolerances", "insert_pythonpath"];
const PROBES: &[&str] = &[
    "2024-01-01 open {A}",
    "2024-01-01 close {A}",
    "2024-01-01 balance {A} 1 USD",
    "2024-01-01 pad {A} {A}",
    "2024-01-01 note {A} \"x\"",
    "2024-01-01 document {A} \"x\"",
    "2024-01-01 *\n  {A} 1 USD\n  {A}",
    "2024-01-01 txn \"é\"\n  ! {A} 1 USD @ 2 EUR\n  other: {A}",
    "2024-01-01 event \"x\" \"y\"\n  key: {A}",
    "2024-01-01 custom \"x\" {A}",
];

#[derive(Clone, Debug)]
struct Set {
    val: String,
    at: (usize, usize, usize), // file, start and end of the value
    name_at: (usize, usize),
}

#[derive(Default)]
struct Sim {
    names: Vec<String>,
    single: BTreeMap<String, Set>,
    multi: BTreeMap<(String, String), Set>,
    texts: Vec<(String, String)>, // path, text
    /// what has to be reported: file, start, end, why
    bad: Vec<(usize, usize, usize, &'static str)>,
    /// accounts expected of each directive: where it starts, and name|type
    dirs: Vec<(usize, usize, Vec<String>)>,
    counts: Vec<String>,
    dir_of_file: Vec<Option<String>>,
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

impl Sim {
    fn line(&mut self, f: usize, t: &str) -> (usize, usize) {
        let text = &mut self.texts[f].1;
        let a = text.len();
        text.push_str(t);
        let b = text.len();
        text.push('\n');
        (a, b)
    }
    fn probe(&mut self, r: &mut Rng, f: usize, want_bad: bool) -> bool {
        let sub = r.pick(&["Bank", "Cash:B2", "银行", "3M"]).to_string();
        let (name, ty) = if want_bad {
            let n = r.pick(TYPE_NAMES).to_string();
            if self.names.contains(&n) {
                return false;
            }
            (n, None)
        } else {
            let t = r.below(5);
            (self.names[t].clone(), Some(t))
        };
        let tmpl = *r.pick(PROBES);
        let good = self.names[r.below(5)].clone();
        let acc = format!("{}:{}", name, sub);
        let goodt = TYPES[self.names.iter().position(|n| *n == good).unwrap()];
        let goodacc = format!("{}:{}", good, sub);
        // one of them is the probe, any other is plainly valid
        let n = tmpl.matches("{A}").count();
        let which = r.below(n);
        let mut text = String::new();
        let mut accs = vec![];
        for (k, part) in tmpl.split("{A}").enumerate() {
            text.push_str(part);
            if k < n {
                if k == which {
                    text.push_str(&acc);
                    accs.push(format!("@{}|{}", acc, ty.map(|t| TYPES[t]).unwrap_or("?")));
                } else {
                    text.push_str(&goodacc);
                    accs.push(format!("@{}|{}", goodacc, goodt));
                }
            }
        }
        let (a, b) = self.line(f, &text);
        if ty.is_none() {
            // the report may stand at the account or at what follows it
            self.bad.push((f, a, b + 1, "account of a type not in force"));
        } else {
            accs.sort();
            self.dirs.push((f, a, accs));
        }
        true
    }
    fn option(&mut self, r: &mut Rng, f: usize, name: &str, val: &str, src: Option<&str>) {
        let q = src.map(|s| format!("\"{}\"", s)).unwrap_or(quote(val));
        let gap = *r.pick(&[" ", "  ", "\t"]);
        let qn = quote(name);
        let (a, b) = self.line(f, &format!("option{}{} {}{}", gap, qn, q, r.pick(&["", "", " ; x", "  "])));
        let na = a + 6 + gap.len();
        let name_at = (na, na + qn.len());
        let va = na + qn.len() + 1;
        let at = (f, va, va + q.len());
        let set = Set { val: val.to_string(), at, name_at };
        let is_bool = |v: &str| v.eq_ignore_ascii_case("true") || v.eq_ignore_ascii_case("false");
        let mut bad = |why| self.bad.push((f, a, b, why));
        if let Some(t) = NAME_OPTS.iter().position(|n| *n == name) {
            if !TYPE_NAMES.contains(&val) {
                bad("bad value");
            } else if self.names.iter().enumerate().any(|(i, n)| i != t && n == val) {
                bad("name of another type");
            } else {
                if self.names[t] != val {
                    self.counts.push("types renamed".into());
                }
                self.names[t] = val.to_string();
            }
            return;
        }
        let single = |me: &mut Sim, v: String| {
            if me.single.contains_key(name) {
                me.bad.push((f, a, b, "given twice"));
            } else {
                me.single.insert(name.to_string(), Set { val: v, ..set.clone() });
                me.counts.push(format!("option {}", name));
            }
        };
        let multi = |me: &mut Sim, k: String, v: String| {
            if me.multi.contains_key(&(name.to_string(), k.clone())) {
                me.bad.push((f, a, b, "given twice"));
            } else {
                me.multi.insert((name.to_string(), k), Set { val: v, ..set.clone() });
                me.counts.push(format!("option {}", name));
            }
        };
        match name {
            "title" => single(self, val.to_string()),
            "booking_method" if BOOKINGS.contains(&val) => single(self, val.to_string()),
            "plugin_processing_mode" if ["DEFAULT", "RAW"].contains(&val) => single(self, val.to_lowercase()),
            "conversion_currency" if CURS.contains(&val) => single(self, val.to_string()),
            "inferred_tolerance_multiplier" if plain_number(val) => single(self, val.to_string()),
            "infer_tolerance_from_cost" if is_bool(val) => single(self, val.to_lowercase()),
            "render_commas" if is_bool(val) => single(self, val.to_lowercase()),
            "render_commas" if val == "1" || val == "0" => single(self, (val == "1").to_string()),
            "long_string_maxlines" if val.parse::<u32>().is_ok() => {
                // may be changed along the way
                self.single.insert(name.to_string(), set);
                self.counts.push(format!("option {}", name));
            }
            "documents" => {
                let p = match &self.dir_of_file[f] {
                    Some(d) => std::path::Path::new(d).join(val),
                    None => std::path::PathBuf::from(val),
                };
                let s = p.components().collect::<std::path::PathBuf>().to_string_lossy().to_string();
                multi(self, s.clone(), s)
            }
            "operating_currency" if CURS.contains(&val) => multi(self, val.to_string(), val.to_string()),
            "inferred_tolerance_default" => match val.split_once(':') {
                Some((c, d)) if (c == "*" || CURS.contains(&c)) && plain_number(d) => multi(self, c.to_string(), format!("{} {}", c, d)),
                _ => bad("bad value"),
            },
            n if SINGLE_SUB.contains(&n) => {
                if SUBVALS.contains(&val) {
                    single(self, val.to_string())
                } else {
                    bad("bad value")
                }
            }
            n if UNKNOWN.contains(&n) => bad("unknown option"),
            _ => bad("bad value"),
        }
    }
}

const SUBVALS: &[&str] = &["Opening-Balances", "Earnings:Previous", "Conversions:Current", "银行:A", "A", "3M:X-"];

fn plain_number(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    let (a, b) = t.split_once('.').unwrap_or((t, "0"));
    !a.is_empty() && !b.is_empty() && t.len() < 27 && (a.to_string() + b).bytes().all(|c| c.is_ascii_digit())
}

fn good_value(r: &mut Rng, name: &str) -> (String, Option<String>) {
    let v = match name {
        "title" => {
            return r
                .pick(&[("My Ledger", None), ("", None), ("é 银行 😀", None), ("a \"b\" c", None), ("x\ty", Some("x\\ty")), ("line\nbreak", None), (" ", None), ("back\\slash", None)])
                .to_owned()
                .to_strings()
        }
        "booking_method" => r.pick(BOOKINGS).to_string(),
        "plugin_processing_mode" => r.pick(&["DEFAULT", "RAW"]).to_string(),
        "conversion_currency" | "operating_currency" => r.pick(CURS).to_string(),
        "inferred_tolerance_multiplier" => r.pick(&["0.5", "1.1", "0", "1000000", "1.2345678901", "-3", "0.50", "1.0", "00.10", "79228162514264337593543", "0.0000000000000000000001"]).to_string(),
        "infer_tolerance_from_cost" => r.pick(&["true", "false", "TRUE", "False", "tRuE"]).to_string(),
        "render_commas" => r.pick(&["true", "false", "TRUE", "False", "0", "1"]).to_string(),
        "long_string_maxlines" => r.pick(&["64", "1", "0", "100000", "007", "4294967295", "65", "256", "65536"]).to_string(),
        "documents" => r.pick(&["docs", "/abs/docs", "../up", "a/b c/é", ".", "docs2", "docs"]).to_string(),
        "inferred_tolerance_default" => format!("{}:{}", if r.pct(30) { "*" } else { r.pick(CURS) }, r.pick(&["0.005", "0.01", "1", "0", "-1", "0.0050", "123456789.123456789"])),
        n if NAME_OPTS.contains(&n) => r.pick(TYPE_NAMES).to_string(),
        _ => r.pick(SUBVALS).to_string(),
    };
    (v, None)
}

trait ToStrings {
    fn to_strings(self) -> (String, Option<String>);
}
impl ToStrings for (&str, Option<&str>) {
    fn to_strings(self) -> (String, Option<String>) {
        (self.0.to_string(), self.1.map(|s| s.to_string()))
    }
}

fn bad_value(r: &mut Rng, name: &str) -> Option<String> {
    if !["title", "documents"].contains(&name) && r.pct(25) {
        // a good one with blank space about it or inside it
        let (v, _) = good_value(r, name);
        let sp = *r.pick(&[" ", "  ", "\t", "\n", "\u{a0}"]);
        return Some(match r.below(3) {
            0 => format!("{}{}", sp, v),
            1 => format!("{}{}", v, sp),
            _ => match v.char_indices().nth(r.range(1, 3)) {
                Some((i, _)) => format!("{}{}{}", &v[..i], sp, &v[i..]),
                None => format!("{}{}", v, sp),
            },
        });
    }
    fixed_bad_value(r, name).map(|s| s.to_string())
}

fn fixed_bad_value(r: &mut Rng, name: &str) -> Option<&'static str> {
    Some(match name {
        "title" | "documents" => return None,
        "booking_method" => r.pick(&["", "FOO", "strict!", "STRICT ", "FIFO,LIFO", "NONE1"]),
        "plugin_processing_mode" => r.pick(&["", "INVALID", "RAW ", "DEFAULT,RAW"]),
        "conversion_currency" | "operating_currency" => r.pick(&["", "usd", "US D", "USD ", "É", "USD,EUR", "U$D"]),
        "inferred_tolerance_multiplier" => r.pick(&["", "abc", "1.2.3", "USD", "1,5", "--1", "1/2"]),
        "infer_tolerance_from_cost" => r.pick(&["", "yes", "2", "truee", "tru", " true"]),
        "render_commas" => r.pick(&["", "yes", "2", "truee", "01", "-1"]),
        "long_string_maxlines" => r.pick(&["", "-1", "abc", "1.5", "6 4", "99999999999999999999999"]),
        "inferred_tolerance_default" => r.pick(&["", "USD", "USD:", "USD:x", "USD:1:2", "usd:1", ":1", "*", "**:1", "USD 0.1", ":"]),
        n if NAME_OPTS.contains(&n) => r.pick(&["", "assets", "A b", "Assets:X", "1A", "é", "A_b", "-A", "A."]),
        _ => r.pick(&["", "lower", "A b", "A::B", ":A", "A:", "A:b", "-A"]),
    })
}

pub fn c11(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut names: Vec<&str> = vec!["title", "conversion_currency", "operating_currency", "operating_currency", "inferred_tolerance_default", "inferred_tolerance_default", "inferred_tolerance_multiplier", "infer_tolerance_from_cost", "render_commas", "documents", "documents", "booking_method", "plugin_processing_mode", "long_string_maxlines"];
    names.extend(SINGLE_SUB);
    let on_disk = r.pct(40);
    let several = on_disk && r.pct(50);
    let faulty = r.pct(45);
    let rename = r.pct(60);
    let mut s = Sim { names: TYPES.iter().map(|s| s.to_string()).collect(), ..Sim::default() };
    let base = if on_disk { Some(ctx.fresh_dir()) } else { None };
    s.texts.push(("root.beancount".into(), String::new()));
    s.dir_of_file.push(base.clone());
    // a file or two of its own, each under the names in force when the root begins
    let mut renames_done = false;
    let n = *r.pick(&[2, 5, 10, 20, 40]);
    let mut order: Vec<usize> = vec![0];
    if several {
        // names first, then the includes, then no more renaming
        if rename {
            for _ in 0..r.range(1, 6) {
                let t = r.below(5);
                let v = r.pick(TYPE_NAMES).to_string();
                if faulty || !s.names.iter().enumerate().any(|(i, n)| i != t && *n == v) {
                    s.option(r, 0, NAME_OPTS[t], &v, None);
                }
            }
        }
        renames_done = true;
        for k in 1..=r.range(1, 3) {
            let d = *r.pick(&["", "d/", "e/f/"]);
            let p = format!("{}inc{}.beancount", d, k);
            s.texts.push((p.clone(), String::new()));
            s.dir_of_file.push(base.as_ref().map(|b| format!("{}/{}", b, d)));
            order.push(k);
        }
    }
    let mut included = vec![false; order.len()];
    // option histories run in order of inclusion; each file is written when it is included
    let mut todo: Vec<(usize, usize)> = vec![(0, n)];
    while let Some((f, mut left)) = todo.pop() {
        while left > 0 {
            left -= 1;
            match r.below(10) {
                0 | 1 if rename && !renames_done => {
                    let t = r.below(5);
                    let v = r.pick(TYPE_NAMES).to_string();
                    let clash = s.names.iter().enumerate().any(|(i, n)| i != t && *n == v);
                    if faulty || !clash {
                        s.option(r, f, NAME_OPTS[t], &v, None);
                    }
                }
                2 if faulty && r.pct(60) => {
                    let nm = if r.pct(30) { NAME_OPTS[r.below(5)] } else { *r.pick(&names) };
                    if let Some(v) = bad_value(r, nm) {
                        s.option(r, f, nm, &v, None);
                    }
                }
                3 if faulty && r.pct(40) => {
                    let nm = *r.pick(UNKNOWN);
                    let v = *r.pick(&["", "x", "true", "USD"]);
                    s.option(r, f, nm, v, None);
                }
                4 if faulty && r.pct(50) => {
                    // between two plain directives, so that nothing runs together
                    s.probe(r, f, false);
                    if r.pct(50) {
                        s.probe(r, f, true);
                    } else {
                        let g = Gen { unicode: false, expr_depth: 0, max_items: 1, pragmas: false, dates: 1, long_strings: false, kinds: vec![] };
                        let (t, k) = malformed(r, &g);
                        if k == "from the list" && !t.contains('"') && s.names[0] == "Assets" && !t.trim().is_empty() {
                            let (a, b) = s.line(f, t.trim_end());
                            s.bad.push((f, a, b + 1, "malformed line"));
                        }
                    }
                    s.probe(r, f, false);
                }
                5..=7 => {
                    let nm = *r.pick(&names);
                    let (v, src) = good_value(r, nm);
                    // twice only when that is asked for
                    let dup = match nm {
                        "long_string_maxlines" => false,
                        "operating_currency" => s.multi.contains_key(&(nm.to_string(), v.clone())),
                        "inferred_tolerance_default" => s.multi.contains_key(&(nm.to_string(), v.split(':').next().unwrap().to_string())),
                        "documents" => {
                            let p = match &s.dir_of_file[f] {
                                Some(d) => std::path::Path::new(d).join(&v),
                                None => std::path::PathBuf::from(&v),
                            };
                            s.multi.contains_key(&(nm.to_string(), p.components().collect::<std::path::PathBuf>().to_string_lossy().to_string()))
                        }
                        _ => s.single.contains_key(nm),
                    };
                    if !dup || (faulty && r.pct(60)) {
                        s.option(r, f, nm, &v, src.as_deref());
                    }
                }
                _ => {
                    s.probe(r, f, false);
                }
            }
            if f == 0 && several {
                if let Some(k) = (1..order.len()).find(|k| !included[*k]) {
                    if r.pct(40) || left == 0 {
                        included[k] = true;
                        let p = s.texts[k].0.clone();
                        s.line(0, &format!("include {}", quote(&p)));
                        todo.push((f, left.max(1)));
                        todo.push((k, r.range(1, 8)));
                        left = 0;
                    }
                }
            }
        }
    }
    // long strings settings follow the order of parsing, not of inclusion: leave them out of several files
    if several {
        s.single.remove("long_string_maxlines");
    }
    for (p, t) in &s.texts {
        ctx.input(p, t);
    }
    let src = match &base {
        Some(b) => {
            for (k, (p, t)) in s.texts.iter().enumerate() {
                if k == 0 || included.get(k) == Some(&true) {
                    let q = format!("{}/{}", b, p);
                    std::fs::create_dir_all(std::path::Path::new(&q).parent().unwrap()).expect("mkdir");
                    std::fs::write(&q, t).expect("write");
                }
            }
            match BeancountSources::try_from(std::path::PathBuf::from(format!("{}/root.beancount", b))) {
                Ok(x) => x,
                Err(e) => return Err(format!("not loaded: {}", e)),
            }
        }
        None => BeancountSources::from(s.texts[0].1.as_str()),
    };
    let fs = Files { files: s.texts.iter().map(|(p, t)| (base.as_ref().map(|b| format!("{}/{}", b, p)), t.as_str())).collect() };
    let parser = BeancountParser::new(&src);
    let all: String = s.texts.iter().map(|x| x.1.as_str()).collect();
    match parser.parse() {
        Err(e) => {
            if s.bad.is_empty() {
                return Err(format!("rejected: {}", show_errors(&src, &e)));
            }
            let at = |x: &lima::Error, p: &(usize, usize, usize, &str)| file_of(&src, &fs, &x.span()) == Some(p.0) && overlaps(&x.span(), p.1, p.2);
            for x in &e.errors {
                if !s.bad.iter().any(|p| at(x, p)) {
                    return Err(format!("error elsewhere than at what is wrong: {} {} {:?}; {}", x.message(), x.reason(), src.resolve_span(&x.span()).content, show_errors(&src, &e)));
                }
            }
            for p in &s.bad {
                if !e.errors.iter().any(|x| at(x, p)) {
                    return Err(format!("no error at {:?} ({}); {}", &s.texts[p.0].1[p.1..p.2], p.3, show_errors(&src, &e)));
                }
                ctx.count(&format!("reported: {}", p.3));
            }
            ctx.nontrivial(&all);
            Ok(())
        }
        Ok(ok) => {
            if let Some(p) = s.bad.first() {
                return Err(format!("accepted in spite of {:?} ({})", &s.texts[p.0].1[p.1..p.2], p.3));
            }
            check_options(ctx, &s, &fs, &src, &ok.options, several)?;
            // accounts, by the directives' places
            let obs = directives(&ok);
            let mut seen = 0;
            for o in &obs {
                let Some(f) = file_of(&src, &fs, &o.span) else {
                    ctx.count("span not in its file (decided elsewhere)");
                    continue;
                };
                let Some(d) = s.dirs.iter().find(|d| d.0 == f && d.1 == o.span.start) else {
                    ctx.count("span not at a directive (decided elsewhere)");
                    continue;
                };
                let mut accs: Vec<String> = o.facts.iter().filter(|x| x.val.starts_with('@') && !x.path.starts_with("lookup[")).map(|x| x.val.clone()).collect();
                accs.sort();
                if accs != d.2 {
                    return Err(format!("directive {:?} has accounts {:?}, expected {:?}", src.resolve_span(&o.span).content, accs, d.2));
                }
                ctx.add("accounts compared", accs.len() as u64);
                seen += 1;
            }
            if seen != s.dirs.len() {
                ctx.count("directives missing (decided elsewhere)");
            }
            for c in &s.counts {
                ctx.count(c);
            }
            if several {
                ctx.count("ledgers over several files");
            }
            ctx.nontrivial(&all);
            ctx.sample(&all);
            Ok(())
        }
    }
}

fn check_options(ctx: &mut Ctx, s: &Sim, fs: &Files, src: &BeancountSources, o: &lima::Options, several: bool) -> R {
    let got = dump::options(o);
    for (t, n) in NAME_OPTS.iter().enumerate() {
        let g = got.iter().find(|x| x.0 == *n).map(|x| x.1.as_str());
        if g != Some(s.names[t].as_str()) {
            return Err(format!("option {} is {:?}, expected {:?}", n, g, s.names[t]));
        }
    }
    for (n, v, sp) in &got {
        if NAME_OPTS.contains(&n.as_str()) || matches!(n.as_str(), "documents" | "operating_currency" | "inferred_tolerance_default") {
            continue;
        }
        if several && n == "long_string_maxlines" {
            continue;
        }
        let Some(e) = s.single.get(n) else { return Err(format!("option {} is {:?}, but was not set", n, v)) };
        if !same_value(n, v, &e.val) {
            return Err(format!("option {} is {:?}, expected {:?}", n, v, e.val));
        }
        let Some(sp) = sp else { continue };
        if let Some(m) = fs.check(src, sp, e.at.0, e.at.1, e.at.2) {
            return Err(format!("option {}: its value {}", n, m));
        }
        if (sp.start, sp.end) != (e.at.1, e.at.2) {
            return Err(format!("option {} is at {}..{}, expected {}..{}", n, sp.start, sp.end, e.at.1, e.at.2));
        }
        let _ = e.name_at;
        ctx.count("single-valued options compared");
    }
    for n in s.single.keys() {
        if !got.iter().any(|g| g.0 == *n) {
            return Err(format!("option {} was set, but is absent", n));
        }
    }
    let norm = |n: &str, v: &str| {
        if n == "documents" {
            std::path::Path::new(v).components().collect::<std::path::PathBuf>().to_string_lossy().to_string()
        } else {
            v.to_string()
        }
    };
    for name in ["documents", "operating_currency", "inferred_tolerance_default"] {
        let mut g: Vec<String> = got.iter().filter(|x| x.0 == name).map(|x| norm(name, &x.1)).collect();
        let mut e: Vec<String> = s.multi.iter().filter(|x| x.0 .0 == name).map(|x| x.1.val.clone()).collect();
        g.sort();
        e.sort();
        let eq = g.len() == e.len()
            && g.iter().all(|x| {
                e.iter().any(|y| match (x.split_once(' '), y.split_once(' ')) {
                    (Some(a), Some(b)) if name == "inferred_tolerance_default" => a.0 == b.0 && same_value("inferred_tolerance_multiplier", a.1, b.1),
                    _ => x == y,
                })
            });
        if !eq {
            return Err(format!("option {} holds {:?}, expected {:?}", name, g, e));
        }
        ctx.add("multi-valued options compared", e.len() as u64);
    }
    // looking up the tolerance of a currency
    let any = s.multi.get(&("inferred_tolerance_default".into(), "*".into())).map(|x| x.val.split_once(' ').unwrap().1.to_string());
    let fb = o.inferred_tolerance_default_fallback().map(|d| dec(&d));
    if !match (&fb, &any) {
        (Some(a), Some(b)) => same_value("inferred_tolerance_multiplier", a, b),
        (None, None) => true,
        _ => false,
    } {
        return Err(format!("tolerance of any currency is {:?}, expected {:?}", fb, any));
    }
    for c in CURS {
        let want = s.multi.get(&("inferred_tolerance_default".into(), c.to_string())).map(|x| x.val.split_once(' ').unwrap().1.to_string()).or(any.clone());
        let Ok(cur) = lima::Currency::try_from(*c) else { continue };
        let got = o.inferred_tolerance_default(&cur).map(|d| dec(&d));
        if !match (&got, &want) {
            (Some(a), Some(b)) => same_value("inferred_tolerance_multiplier", a, b),
            (None, None) => true,
            _ => false,
        } {
            return Err(format!("tolerance of {} is {:?}, expected {:?}", c, got, want));
        }
    }
    Ok(())
}

/// numbers by value and number of decimal places, anything else by text
fn same_value(name: &str, got: &str, want: &str) -> bool {
    match name {
        "inferred_tolerance_multiplier" => {
            let scale = want.split_once('.').map(|x| x.1.len()).unwrap_or(0);
            let digits: i128 = want.replace('.', "").parse().unwrap_or(i128::MAX);
            got.split(' ').next() == Some(format!("={}e-{}", digits, scale).as_str())
        }
        "long_string_maxlines" => got.parse::<u64>().ok() == want.parse::<u64>().ok(),
        _ => got == want,
    }
}
