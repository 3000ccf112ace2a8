//! Names and duplicated elements.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::p_model::*;
use crate::p_values::overlaps;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, Report};

// ---------------------------------------------------------------- C16

#[derive(Clone, Copy, PartialEq, Debug)]
enum N {
    Currency,
    Type,
    Account,
    Sub,
    Key,
    Tag,
    Link,
}

/// the documented alphabets of the constructors; None where the documentation does not say
fn ctor_accepts(n: N, s: &str) -> Option<bool> {
    let chars: Vec<char> = s.chars().collect();
    if chars.is_empty() {
        return match n {
            N::Tag | N::Link => None,
            _ => Some(false),
        };
    }
    let (first, rest) = (chars[0], &chars[1..]);
    let up = |c: char| c.is_ascii_uppercase();
    Some(match n {
        N::Currency => {
            let last = *chars.last().unwrap();
            let mid = if chars.len() > 2 { &chars[1..chars.len() - 1] } else { &[] };
            (up(first) || first == '/')
                && (up(last) || last.is_ascii_digit())
                && mid.iter().all(|c| up(*c) || c.is_ascii_digit() || "'._-".contains(*c))
                && chars.iter().any(|c| up(*c))
        }
        N::Type => up(first) && rest.iter().all(|c| c.is_alphanumeric() || *c == '-'),
        N::Account => {
            (up(first) || first.is_ascii_digit() || (!first.is_ascii() && first.is_alphabetic()))
                && rest.iter().all(|c| c.is_alphanumeric() || *c == '-')
        }
        N::Sub => return s.split(':').map(|p| ctor_accepts(N::Account, p)).try_fold(true, |a, b| Some(a && b?)),
        N::Key => first.is_ascii_lowercase() && rest.iter().all(|c| c.is_alphanumeric() || *c == '-' || *c == '_'),
        N::Tag | N::Link => chars.iter().all(|c| c.is_alphanumeric() || "-_/.".contains(*c)),
    })
}

/// letters which certainly are such, in every version of Unicode in use
const UPPER: &str = "ÀÉÑÜÅΔΩЖЯ";
const LOWER: &str = "éñüåßδωжя";
const OTHER: &str = "银行東京あア한عבख";

fn is_letter_initial(c: char) -> bool {
    c.is_ascii_uppercase() || UPPER.contains(c) || OTHER.contains(c)
}
fn is_letter(c: char) -> bool {
    c.is_ascii_alphabetic() || UPPER.contains(c) || OTHER.contains(c) || LOWER.contains(c)
}

/// what ledger text accepts; None where it is not specified
fn ledger_accepts(n: N, s: &str) -> Option<bool> {
    if s.is_empty() {
        return None;
    }
    match n {
        N::Currency => {
            if ["TRUE", "FALSE", "NULL"].contains(&s) {
                return None;
            }
            ctor_accepts(n, s)
        }
        N::Key => Some(s.is_ascii() && s.len() > 1 && ctor_accepts(n, s)?),
        N::Tag | N::Link => Some(s.is_ascii() && ctor_accepts(n, s)?),
        N::Type => None,
        N::Account | N::Sub => {
            let mut all = Some(true);
            for p in s.split(':') {
                if n == N::Account && p.len() != s.len() {
                    return None;
                }
                match account_part(p) {
                    Some(false) => return Some(false),
                    None => all = None,
                    _ => {}
                }
            }
            all
        }
    }
}

fn account_part(p: &str) -> Option<bool> {
    let Some(f) = p.chars().next() else { return Some(false) };
    let mut known = true;
    for (i, c) in p.chars().enumerate() {
        let ok = if i == 0 { is_letter_initial(c) || c.is_ascii_digit() } else { is_letter(c) || c.is_ascii_digit() || c == '-' };
        if !ok {
            if c.is_ascii() {
                return Some(false);
            }
            known = false; // of a class the documentation leaves open, or a blank or symbol outside of ASCII
        }
    }
    let _ = f;
    if known {
        Some(true)
    } else {
        None
    }
}

const ALPHA: &[&str] = &[
    "A", "B", "Z", "M", "a", "z", "b", "x", "0", "9", "1", "-", "_", ".", "'", "/", "-", "A", "b",
];
const NOISE: &[&str] = &[
    "+", "!", "@", "$", "%", "&", "*", "(", ")", "=", "<", ">", "?", ",", "|", "~", "`", "[", "]", "{", "}", "\\", "é", "É", "ß", "银", "行",
    "Ж", "ж", "Δ", "ω", "٣", "²", "Ⅷ", "½", "ª", "\u{301}", "\u{93e}", "😀", "\u{200b}", "\u{feff}", "€", "ǅ", "\u{a0}", "—", "’", "한", "ع",
    "ख", "𝔘", "１", "Ａ", "\u{0}", "\u{7f}",
];
const LAYOUT: &[&str] = &[" ", "\t", "\n", "\r", "\"", "#", "^", ";", ":"];

fn name(r: &mut Rng, n: N) -> String {
    let pool: Vec<&str> = match n {
        N::Currency => CURS.to_vec(),
        N::Type => vec!["Assets", "Income", "Ab", "A-1", "Zé", "Q银"],
        N::Account => SUBS.iter().chain(USUBS).copied().collect(),
        N::Sub => vec!["A", "Bank:Cash", "A:3M:X-", "银行:É", "A:B:C:D", "0", "Ab1:Ж"],
        N::Key => KEYS.to_vec(),
        N::Tag => TAGS.to_vec(),
        N::Link => LINKS.to_vec(),
    };
    let mut v: Vec<String> = match r.below(4) {
        0 => r.pick(&pool).chars().map(|c| c.to_string()).collect(),
        1 | 2 => {
            // a valid one with a change
            let mut v: Vec<String> = r.pick(&pool).chars().map(|c| c.to_string()).collect();
            for _ in 0..r.range(1, 2) {
                let c = piece(r, n);
                let at = *r.pick(&[0, v.len(), v.len() / 2, v.len().saturating_sub(1)]);
                match r.below(3) {
                    0 if at < v.len() => v[at] = c,
                    1 if at < v.len() => {
                        v.remove(at);
                    }
                    _ => v.insert(at, c),
                }
            }
            v
        }
        _ => (0..r.range(0, 6)).map(|_| piece(r, n)).collect(),
    };
    if r.pct(3) {
        // long ones: nothing bounds their length
        let k = r.range(20, 300);
        let base = if v.is_empty() { vec!["A".to_string()] } else { v.clone() };
        while v.len() < k {
            v.extend(base.iter().cloned());
        }
    }
    v.concat()
}

fn piece(r: &mut Rng, n: N) -> String {
    match r.below(12) {
        0..=6 => r.pick(ALPHA).to_string(),
        7 if n == N::Sub => ":".to_string(),
        8 if r.pct(20) => r.pick(LAYOUT).to_string(),
        9 if r.pct(50) => char::from_u32(r.below(0x11000) as u32).unwrap_or('\u{e9}').to_string(),
        10 => char::from_u32(r.below(0x180) as u32).unwrap_or('a').to_string(),
        _ => r.pick(NOISE).to_string(),
    }
}

fn construct(n: N, s: &str) -> Result<(String, String), String> {
    macro_rules! go {
        ($t:ty) => {
            match <$t>::try_from(s) {
                Ok(x) => {
                    let a: &str = x.as_ref();
                    Ok((a.to_string(), x.to_string()))
                }
                Err(e) => Err(e.to_string()),
            }
        };
    }
    match n {
        N::Currency => go!(lima::Currency),
        N::Type => go!(lima::AccountTypeName),
        N::Account => go!(lima::AccountName),
        N::Sub => go!(lima::Subaccount),
        N::Key => go!(lima::Key),
        N::Tag => go!(lima::Tag),
        N::Link => go!(lima::Link),
    }
}

/// every character there is, first, inside and last, in a name of every kind
fn c16_sweep(ctx: &mut Ctx, block: u32) -> R {
    let mut n = 0;
    for c in (block * 1024..(block + 1) * 1024).filter_map(char::from_u32) {
        for k in [N::Currency, N::Type, N::Account, N::Sub, N::Key, N::Tag, N::Link] {
            let (a, b) = if k == N::Key { ("a", "b") } else { ("A", "B") };
            for s in [format!("{}{}", c, b), format!("{}{}{}", a, c, b), format!("{}{}", a, c), c.to_string()] {
                n += 1;
                match (ctor_accepts(k, &s), construct(k, &s)) {
                    (Some(true), Err(e)) => return Err(format!("{:?} {:?} refused by its constructor: {}", k, s, e)),
                    (Some(false), Ok(_)) => return Err(format!("{:?} {:?} accepted by its constructor", k, s)),
                    (_, Ok((t, _))) if t != s => return Err(format!("{:?} {:?} becomes {:?}", k, s, t)),
                    _ => {}
                }
            }
        }
        if lima::FlagLetter::try_from(c).is_ok() != c.is_ascii_uppercase() {
            return Err(format!("flag letter {:?} misjudged by its constructor", c));
        }
    }
    ctx.add("names in the sweep over all characters", n);
    Ok(())
}

pub fn c16(ctx: &mut Ctx, r: &mut Rng) -> R {
    if ctx.case < 1088 {
        return c16_sweep(ctx, ctx.case as u32);
    }
    let n = *r.pick(&[N::Currency, N::Currency, N::Type, N::Account, N::Sub, N::Sub, N::Key, N::Tag, N::Link]);
    if r.pct(10) {
        return c16_flag(ctx, r);
    }
    let s = name(r, n);
    ctx.input("name", &s);
    // by its constructor
    let made = construct(n, &s);
    match (ctor_accepts(n, &s), &made) {
        (Some(true), Err(e)) => return Err(format!("{:?} {:?} refused by its constructor: {}", n, s, e)),
        (Some(false), Ok(_)) => return Err(format!("{:?} {:?} accepted by its constructor", n, s)),
        (None, _) => ctx.count("unspecified for the constructor"),
        (Some(true), Ok((a, d))) => {
            if *a != s {
                return Err(format!("{:?} {:?} becomes {:?}", n, s, a));
            }
            let sigil = if n == N::Tag { "#" } else if n == N::Link { "^" } else { "" };
            if *d != s && *d != format!("{}{}", sigil, s) {
                return Err(format!("{:?} {:?} is displayed as {:?}", n, s, d));
            }
            ctx.count(&format!("{:?} accepted by constructor", n));
        }
        (Some(false), Err(e)) => {
            if e.is_empty() {
                return Err(format!("{:?} {:?} refused without a reason", n, s));
            }
            ctx.count(&format!("{:?} refused by constructor", n));
        }
    }
    ctx.nontrivial(&format!("{:?}{}", n, s));
    if n == N::Type {
        return c16_type(ctx, r, &s, made.is_ok());
    }
    if s.is_empty() || (n == N::Account && s.contains(':')) {
        return Ok(());
    }
    // in ledger text
    let ty = *r.pick(&TYPES);
    let (pre, post, path): (String, &str, String) = match n {
        N::Currency => match r.below(6) {
            0 => ("2024-01-01 commodity ".into(), "\n", "currency".into()),
            1 => ("2024-01-01 price ".into(), " 1 USD\n", "currency".into()),
            2 => ("2024-01-01 price USD 1 ".into(), "\n", "amount.cur".into()),
            3 => ("2024-01-01 txn \"x\"\n  Assets:A  1 ".into(), "\n", "posting[0].currency".into()),
            4 => ("2024-01-01 txn \"x\"\n  Assets:A  1 USD {2 ".into(), "}\n", "posting[0].cost.currency".into()),
            _ => ("2024-01-01 open Assets:A ".into(), "\n", format!("currency[{}]", s)),
        },
        N::Account | N::Sub => match r.below(4) {
            0 => (format!("2024-01-01 open {}:", ty), "\n", "account".into()),
            1 => (format!("2024-01-01 close {}:", ty), "\n", "account".into()),
            2 => (format!("2024-01-01 txn \"x\"\n  {}:", ty), "\n", "posting[0].account".into()),
            _ => (format!("2024-01-01 balance {}:", ty), " 1 USD\n", "account".into()),
        },
        N::Key => match r.below(2) {
            0 => ("2024-01-01 open Assets:A\n  ".into(), ": 1\n", format!("meta[{}]", s)),
            _ => ("2024-01-01 txn \"x\"\n  Assets:A 1 USD\n    ".into(), ": 1\n", format!("posting[0].meta[{}]", s)),
        },
        N::Tag => match r.below(3) {
            0 => ("2024-01-01 open Assets:A #".into(), "\n", format!("tag[{}]", s)),
            1 => ("2024-01-01 open Assets:A\n  #".into(), "\n", format!("tag[{}]", s)),
            _ => ("2024-01-01 txn \"x\"\n  Assets:A 1 USD\n    #".into(), "\n", format!("posting[0].tag[{}]", s)),
        },
        _ => match r.below(2) {
            0 => ("2024-01-01 open Assets:A ^".into(), "\n", format!("link[{}]", s)),
            _ => ("2024-01-01 open Assets:A\n  ^".into(), "\n", format!("link[{}]", s)),
        },
    };
    let text = format!("{}{}{}", pre, s, post);
    ctx.input("ledger", &text);
    let b = pre.len() + s.len();
    // an account is one name, with its type
    let a = pre.len() - if matches!(n, N::Account | N::Sub) { ty.len() + 1 } else { 0 };
    let src = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&src);
    let verdict = ledger_accepts(n, &s);
    // characters that end the name and mean something of their own
    let layout = s.chars().any(|c| " \t\n\r\"#^;".contains(c) || (c == ':' && n != N::Sub)) || (post.starts_with('}') && s.contains(['}', ',']));
    match parser.parse() {
        Ok(ok) => {
            let obs = directives(&ok);
            let got = obs.first().and_then(|o| o.get(&path)).map(|f| f.val.clone());
            let same = got.as_deref().is_some_and(|g| match n {
                N::Account | N::Sub => g == format!("@{}:{}|{}", ty, s, ty),
                N::Currency => g == format!("${}", s),
                N::Tag => g == format!("#{}", s),
                N::Link => g == format!("^{}", s),
                _ => g.starts_with('='),
            });
            if !same {
                // where the name ends early and the rest means something of its own
                if verdict != Some(true) && (layout || s.chars().any(|c| ",@{}()+*/~|-".contains(c))) {
                    ctx.count("holds characters of the layout");
                    return Ok(());
                }
                return Err(format!("{:?} {:?} accepted in a ledger, but read as {:?}", n, s, got));
            }
            if verdict == Some(false) {
                return Err(format!("{:?} {:?} accepted in a ledger", n, s));
            }
            if let Err(e) = made {
                return Err(format!("{:?} {:?} accepted in a ledger but refused by its constructor: {}", n, s, e));
            }
            ctx.count(&format!("{:?} accepted in a ledger", n));
            ctx.sample(&text);
            Ok(())
        }
        Err(e) => {
            if verdict == Some(true) {
                return Err(format!("{:?} {:?} rejected in a ledger: {}", n, s, show_errors(&src, &e)));
            }
            if layout {
                ctx.count("holds characters of the layout");
                return Ok(());
            }
            if !e.errors.iter().any(|x| overlaps(&x.span(), a.saturating_sub(1), b + post.len())) {
                return Err(format!("{:?} {:?} rejected in a ledger, but no error is at it: {}", n, s, show_errors(&src, &e)));
            }
            ctx.count(&format!("{:?} refused in a ledger", n));
            Ok(())
        }
    }
}

fn c16_type(ctx: &mut Ctx, r: &mut Rng, s: &str, made: bool) -> R {
    if r.pct(40) {
        // not the name of any account type
        if s.is_empty() || s.chars().any(|c| " \t\n\r\"#^;:".contains(c)) || TYPES.contains(&s) {
            return Ok(());
        }
        let text = format!("2024-01-01 open {}:Cash\n", s);
        ctx.input("ledger", &text);
        let src = BeancountSources::from(text.as_str());
        let parser = BeancountParser::new(&src);
        return match parser.parse() {
            Ok(_) => Err(format!("account of unknown type {:?} accepted", s)),
            Err(e) => {
                if !e.errors.iter().any(|x| overlaps(&x.span(), 15, text.len())) {
                    return Err(format!("account of unknown type {:?}: no error is at it: {}", s, show_errors(&src, &e)));
                }
                ctx.count("unknown account types refused");
                Ok(())
            }
        };
    }
    let k = r.below(5);
    if TYPES.contains(&s) {
        return Ok(());
    }
    let lit = Lit::escaped(s);
    let pre = format!("option \"name_{}\" ", TYPES[k].to_lowercase());
    let opt = format!("{}\"{}\"\n", pre, lit.src);
    let text = format!("{}2024-01-01 open {}:Cash\n", opt, s);
    let usable = made && s.chars().all(|c| is_letter(c) || c.is_ascii_digit() || c == '-');
    let text = if usable { text } else { opt.clone() };
    ctx.input("ledger", &text);
    let src = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&src);
    match parser.parse() {
        Ok(ok) => {
            if !made {
                return Err(format!("account type {:?} accepted in an option but refused by its constructor", s));
            }
            if usable {
                let obs = directives(&ok);
                let want = format!("@{}:Cash|{}", s, TYPES[k]);
                let got = obs.first().and_then(|o| o.get("account")).map(|f| f.val.clone());
                if got.as_deref() != Some(want.as_str()) {
                    return Err(format!("account of type {:?} reads as {:?}, expected {:?}", s, got, want));
                }
                ctx.count("Type accepted in a ledger");
            }
            Ok(())
        }
        Err(e) => {
            if made {
                return Err(format!("account type {:?} refused: {}", s, show_errors(&src, &e)));
            }
            if !e.errors.iter().any(|x| overlaps(&x.span(), pre.len(), opt.len())) {
                return Err(format!("account type {:?}: no error is at it: {}", s, show_errors(&src, &e)));
            }
            ctx.count("Type refused in a ledger");
            Ok(())
        }
    }
}

fn c16_flag(ctx: &mut Ctx, r: &mut Rng) -> R {
    let c = match r.below(3) {
        0 => (b'A' + r.below(26) as u8) as char,
        1 => char::from_u32(r.below(0x250) as u32).unwrap_or('a'),
        _ => r.pick(NOISE).chars().next().unwrap(),
    };
    ctx.input("flag", &c.to_string());
    let ok = c.is_ascii_uppercase();
    match lima::FlagLetter::try_from(c) {
        Ok(f) => {
            if !ok {
                return Err(format!("flag letter {:?} accepted by its constructor", c));
            }
            if f.char() != c {
                return Err(format!("flag letter {:?} becomes {:?}", c, f.char()));
            }
        }
        Err(e) => {
            if ok {
                return Err(format!("flag letter {:?} refused by its constructor: {}", c, e));
            }
        }
    }
    if " \t\n\r\"#^;".contains(c) {
        return Ok(());
    }
    let posting = r.pct(40);
    let (pre, post) = if posting { ("2024-01-01 txn \"x\"\n  '", " Assets:A 1 USD\n") } else { ("2024-01-01 '", " \"x\"\n") };
    let text = format!("{}{}{}", pre, c, post);
    ctx.input("ledger", &text);
    let src = BeancountSources::from(text.as_str());
    let parser = BeancountParser::new(&src);
    match parser.parse() {
        Ok(p) => {
            let obs = directives(&p);
            let path = if posting { "posting[0].flag" } else { "flag" };
            let got = obs.first().and_then(|o| o.get(path)).map(|f| f.val.clone()).unwrap_or_default();
            if !ok || !got.ends_with(c) {
                return Err(format!("flag '{:?} reads as {:?}", c, got));
            }
            ctx.count("flag letters accepted");
        }
        Err(e) => {
            if ok {
                return Err(format!("flag '{} rejected: {}", c, show_errors(&src, &e)));
            }
            if !e.errors.iter().any(|x| overlaps(&x.span(), pre.len() - 2, pre.len() + c.len_utf8() + 1)) {
                return Err(format!("flag '{:?}: no error is at it: {}", c, show_errors(&src, &e)));
            }
            ctx.count("flag letters refused");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn insert<T>(r: &mut Rng, v: &mut Vec<T>, x: T) {
    let at = r.below(v.len() + 1);
    v.insert(at, x);
}

thread_local! {
    static NAMES: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}
/// the name given twice, of a tag, link or key
fn dq() -> String {
    NAMES.with(|n| n.borrow().0.clone())
}
/// and of a currency
fn cq() -> String {
    NAMES.with(|n| n.borrow().1.clone())
}

/// a directive and the duplicate put into it; the name of the duplicate is dq(), or cq() for a currency
fn duplicate(r: &mut Rng, g: &Gen) -> (Dir, &'static str) {
    loop {
        let what = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 11, 11]);
        let mut d = match what {
            7..=9 | 11 => Gen { kinds: vec![0], ..g.clone() }.dir(r),
            10 => Gen { kinds: vec![3], ..g.clone() }.dir(r),
            _ => g.dir(r),
        };
        let custom = matches!(d.kind, Kind::Custom(..));
        match what {
            0 | 1 if !custom => {
                let t = format!("{}{}", if what == 0 { "#" } else { "^" }, dq());
                insert(r, &mut d.inline, t.clone());
                insert(r, &mut d.inline, t);
                return (d, if what == 0 { "tag twice on the first line" } else { "link twice on the first line" });
            }
            2 | 3 if !custom => {
                let (t, m) = if what == 2 { (format!("#{}", dq()), MetaItem::Tag(dq())) } else { (format!("^{}", dq()), MetaItem::Link(dq())) };
                insert(r, &mut d.inline, t);
                insert(r, &mut d.meta, m);
                return (d, if what == 2 { "tag on the first line and below" } else { "link on the first line and below" });
            }
            4..=6 => {
                for _ in 0..2 {
                    let m = dup_meta(r, g, what);
                    insert(r, &mut d.meta, m);
                }
                return (d, ["tag twice below", "link twice below", "key twice"][what - 4]);
            }
            7..=9 => {
                if let Kind::Txn { postings, .. } = &mut d.kind {
                    if !postings.is_empty() {
                        let i = r.below(postings.len());
                        for _ in 0..2 {
                            let m = dup_meta(r, g, what - 3);
                            insert(r, &mut postings[i].meta, m);
                        }
                        return (d, ["tag twice on a posting", "link twice on a posting", "key twice on a posting"][what - 7]);
                    }
                }
            }
            10 => {
                if let Kind::Open(_, curs, _) = &mut d.kind {
                    insert(r, curs, cq());
                    insert(r, curs, cq());
                    return (d, "currency twice in an open");
                }
            }
            _ => {
                if let Kind::Txn { postings, .. } = &mut d.kind {
                    if !postings.is_empty() {
                        let i = r.below(postings.len());
                        let num = |r: &mut Rng| Some(g.expr(r));
                        let cur = Some(cq());
                        // other parts, each at most once, besides the part given twice
                        let part = r.below(6);
                        let mut v: Vec<CC> = vec![];
                        match part {
                            0 => {
                                let (c, split) = (r.pct(40), r.pct(30));
                                v.push(CC::Amt(num(r), split, if split && r.pct(50) { num(r) } else { None }, if c { cur.clone() } else { None }));
                                v.push(CC::Amt(num(r), r.pct(20), None, None));
                            }
                            1 => {
                                let p = if r.pct(40) { num(r) } else { None };
                                v.push(CC::Amt(p, true, num(r), None));
                                v.push(CC::Amt(None, true, num(r), if r.pct(50) { cur.clone() } else { None }));
                            }
                            2 => {
                                let p = if r.pct(40) { num(r) } else { None };
                                v.push(CC::Amt(p, false, None, cur.clone()));
                                v.push(CC::Amt(None, false, None, if r.pct(50) { cur.clone() } else { Some("DUPR".into()) }));
                            }
                            3 => {
                                let d1 = g.date(r);
                                v.push(CC::Date(d1));
                                v.push(CC::Date(if r.pct(50) { d1 } else { g.date(r) }));
                            }
                            4 => {
                                v.push(CC::Label(Lit::plain(&dq())));
                                v.push(CC::Label(Lit::plain(r.pick(&[dq().as_str(), "other", ""]))));
                            }
                            _ => {
                                v.push(CC::Merge);
                                v.push(CC::Merge);
                            }
                        }
                        if part > 2 && r.pct(60) {
                            v.push(CC::Amt(num(r), false, None, cur));
                        }
                        if part != 3 && r.pct(30) {
                            v.push(CC::Date(g.date(r)));
                        }
                        if part != 4 && r.pct(30) {
                            v.push(CC::Label(Lit::plain("x")));
                        }
                        if part != 5 && r.pct(20) {
                            v.push(CC::Merge);
                        }
                        r.shuffle(&mut v);
                        postings[i].cost = Some(v);
                        return (
                            d,
                            ["cost per unit twice", "total cost twice", "cost currency twice", "cost date twice", "cost label twice", "cost merge twice"]
                                [part],
                        );
                    }
                }
            }
        }
    }
}

fn dup_meta(r: &mut Rng, g: &Gen, what: usize) -> MetaItem {
    match what {
        4 => MetaItem::Tag(dq()),
        5 => MetaItem::Link(dq()),
        _ => MetaItem::KV(dq(), g.mv(r)),
    }
}

/// things alike that are no duplicates
fn alike(r: &mut Rng, g: &Gen) -> (Vec<Item>, &'static str) {
    let plain = |r: &mut Rng| loop {
        let d = g.dir(r);
        if !matches!(d.kind, Kind::Custom(..)) {
            return d;
        }
    };
    match r.below(8) {
        0 => {
            let mut d = plain(r);
            insert(r, &mut d.inline, format!("#{}", dq()));
            insert(r, &mut d.inline, format!("^{}", dq()));
            (vec![Item::Dir(d)], "tag and link of one name")
        }
        1 => {
            let mut d = plain(r);
            insert(r, &mut d.meta, MetaItem::Tag(dq()));
            insert(r, &mut d.meta, MetaItem::KV(dq(), MV::Tag(dq())));
            insert(r, &mut d.meta, MetaItem::Link(dq()));
            (vec![Item::Dir(d)], "tag, link and key of one name")
        }
        2 | 3 => {
            let mut d = loop {
                let d = g.dir(r);
                if matches!(&d.kind, Kind::Txn { postings, .. } if postings.len() > 1) {
                    break d;
                }
            };
            let w = r.range(4, 6);
            if let Kind::Txn { postings, .. } = &mut d.kind {
                for p in postings.iter_mut() {
                    let m = dup_meta(r, g, w);
                    insert(r, &mut p.meta, m);
                }
            }
            let m = dup_meta(r, g, w);
            insert(r, &mut d.meta, m);
            (vec![Item::Dir(d)], "on the directive and on each posting")
        }
        4 => {
            let mut v = vec![];
            for _ in 0..3 {
                let mut d = plain(r);
                insert(r, &mut d.inline, format!("#{}", dq()));
                let m = dup_meta(r, g, 6);
                insert(r, &mut d.meta, m);
                v.push(Item::Dir(d));
            }
            (v, "on different directives")
        }
        5 => {
            let mut v = vec![];
            for _ in 0..2 {
                let (a, c) = (g.acc(r), g.cur(r));
                let mut cs = vec![cq(), format!("{}1", cq()), format!("{}ZZ", cq())];
                if !cs.contains(&c) {
                    cs.push(c);
                }
                r.shuffle(&mut cs);
                v.push(Item::Dir(Dir { date: g.date(r), kind: Kind::Open(a, cs, None), inline: vec![], meta: vec![] }));
            }
            (v, "currencies of different opens")
        }
        6 => {
            let mut d = plain(r);
            d.inline.push(format!("#{}", dq()));
            d.inline.push(format!("#{}Q", dq()));
            d.inline.push(format!("#{}-", dq()));
            d.meta.push(MetaItem::KV(dq(), MV::Null));
            d.meta.push(MetaItem::KV(format!("{}Q", dq()), MV::Null));
            r.shuffle(&mut d.inline);
            (vec![Item::Dir(d)], "names that differ in case or length")
        }
        _ => {
            let mut d = loop {
                let d = g.dir(r);
                if matches!(&d.kind, Kind::Txn { postings, .. } if postings.len() > 1) {
                    break d;
                }
            };
            let dt = g.date(r);
            if let Kind::Txn { postings, .. } = &mut d.kind {
                for p in postings.iter_mut() {
                    let e = g.expr(r);
                    p.cost = Some(vec![
                        CC::Amt(Some(e.clone()), true, Some(e), Some(cq())),
                        CC::Date(dt),
                        CC::Label(Lit::plain(&dq())),
                        CC::Merge,
                    ]);
                }
            }
            (vec![Item::Dir(d)], "each cost part once, on several postings")
        }
    }
}

pub fn c18(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = Gen { unicode: r.pct(40), expr_depth: 1, max_items: 4, pragmas: false, dates: 0, long_strings: false, kinds: vec![] };
    let mut before = g.items(r);
    let after = g.items(r);
    let style = if r.pct(50) { Style::canonical() } else { Style::random(r) };
    let at = before.len();
    let dup = r.pct(65);
    NAMES.with(|n| {
        let long: String = (0..r.range(20, 70)).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        let q = match r.below(6) {
            // short ones occur by themselves, too
            0 if dup => "q9".to_string(),
            1 => "dupq9-_x".into(),
            2 => format!("q9{}", long),
            3 => "qz9zQzQ".into(),
            _ => "dupq".into(),
        };
        let c = match r.below(6) {
            0 if dup => "Q9".to_string(),
            1 => "Q9'._-Z".into(),
            2 => format!("Q9{}", &long[..18]).to_uppercase(),
            3 => "/Q9ZQZ".into(),
            _ => "DUPQ".into(),
        };
        *n.borrow_mut() = (q, c);
    });
    let what = if dup {
        let (mut d, what) = duplicate(r, &g);
        if r.pct(10) {
            // among many others
            ctx.count("among many others");
            for i in 0..r.range(10, 50) {
                match what {
                    _ if what.contains("currency") => {
                        if let Kind::Open(_, curs, _) = &mut d.kind {
                            insert(r, curs, format!("M{}", i));
                        }
                    }
                    _ if what.contains("posting") => {
                        if let Kind::Txn { postings, .. } = &mut d.kind {
                            for p in postings.iter_mut() {
                                let m = if i % 2 == 0 { MetaItem::Tag(format!("m{}", i)) } else { MetaItem::KV(format!("m{}", i), MV::Null) };
                                insert(r, &mut p.meta, m);
                            }
                        }
                    }
                    _ => {
                        let m = if i % 2 == 0 { MetaItem::Tag(format!("m{}", i)) } else { MetaItem::KV(format!("m{}", i), MV::Null) };
                        insert(r, &mut d.meta, m);
                    }
                }
            }
        }
        before.push(Item::Dir(d));
        what
    } else {
        let (v, what) = alike(r, &g);
        before.extend(v);
        what
    };
    before.extend(after);
    let f = Printer::new(&style).file(r, 0, &one_file(before));
    ctx.input("ledger", &f.text);
    let src = BeancountSources::from(f.text.as_str());
    let parser = BeancountParser::new(&src);
    ctx.nontrivial(&f.text);
    match parser.parse() {
        Ok(_) => {
            if dup {
                return Err(format!("{} accepted: {:?}", what, &f.text[f.items[at].start..f.items[at].end]));
            }
            ctx.count(&format!("accepted: {}", what));
            Ok(())
        }
        Err(e) => {
            let item = &f.items[at];
            if !dup {
                if e.errors.iter().any(|x| overlaps(&x.span(), item.start, f.text.len())) {
                    return Err(format!("{} rejected: {}", what, show_errors(&src, &e)));
                }
                ctx.count("rejected (decided elsewhere)");
                return Ok(());
            }
            let body = &f.text[item.start..item.end];
            let places: Vec<(usize, usize)> = if what.starts_with("cost") || what.starts_with("total") {
                // the braces of that posting; other costs of the directive have no duplicate
                let EKind::Dir(d) = &item.kind else { return Ok(()) };
                d.facts
                    .iter()
                    .filter(|x| x.path.ends_with(".cost"))
                    .filter_map(|x| if let Sp::At(a, b) = x.sp { Some((a, b)) } else { None })
                    .collect()
            } else {
                body.match_indices(dq().as_str())
                    .map(|x| (x.0, x.1.len()))
                    .chain(body.match_indices(cq().as_str()).map(|x| (x.0, x.1.len())))
                    .map(|(i, n)| (item.start + i.saturating_sub(1), item.start + i + n))
                    .collect()
            };
            if !e.errors.iter().any(|x| places.iter().any(|p| overlaps(&x.span(), p.0, p.1))) {
                return Err(format!("{}: no error is at it: {}", what, show_errors(&src, &e)));
            }
            ctx.count(&format!("reported: {}", what));
            ctx.sample(body);
            Ok(())
        }
    }
}
