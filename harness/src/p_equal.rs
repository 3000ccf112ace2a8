//! C21: results compare by what was written, not by where it was written.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::p_model::{gen_profile, loaded, one_file};
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, DirectiveVariant, OptionalItem, ParseSuccess, Spanned};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

/// a number as text, by its numeric value: no trailing zeros, no minus zero
fn plain_num(t: &str) -> String {
    let (sign, t) = match t.strip_prefix('-') {
        Some(u) => ("-", u),
        None => ("", t),
    };
    let mut s = t.to_string();
    if s.contains('.') {
        while s.ends_with('0') {
            s.pop();
        }
        if s.ends_with('.') {
            s.pop();
        }
    }
    let t = s.trim_start_matches('0');
    let s = if t.is_empty() || t.starts_with('.') { format!("0{}", t) } else { t.to_string() };
    if s == "0" {
        s
    } else {
        format!("{}{}", sign, s)
    }
}

/// the value of a fact, with numbers by their numeric value
fn norm(val: &str) -> String {
    let Some(rest) = val.strip_prefix('=') else {
        return val.to_string();
    };
    let Some((me, expr)) = rest.split_once(' ') else {
        return val.to_string();
    };
    let (m, e) = me.split_once("e-").unwrap_or((me, "0"));
    let (mut m, mut e): (i128, u32) = (m.parse().unwrap_or(0), e.parse().unwrap_or(0));
    while e > 0 && m % 10 == 0 {
        m /= 10;
        e -= 1;
    }
    let mut out = format!("={}e-{} ", m, e);
    let mut tok = String::new();
    let flush = |tok: &mut String, out: &mut String| {
        if tok.bytes().any(|b| b.is_ascii_digit()) {
            out.push_str(&plain_num(tok));
        } else {
            out.push_str(tok);
        }
        tok.clear();
    };
    for c in expr.chars() {
        if c.is_ascii_digit() || c == '.' || c == '-' {
            tok.push(c);
        } else {
            flush(&mut tok, &mut out);
            out.push(c);
        }
    }
    flush(&mut tok, &mut out);
    out
}

fn facts_of(fs: &[OFact], prefix: &str) -> Vec<String> {
    let mut v: Vec<String> =
        fs.iter().filter_map(|f| f.path.strip_prefix(prefix).map(|p| format!("{} = {}", p, norm(&f.val)))).collect();
    v.sort();
    v
}

/// change one character of a text for another of its kind
fn nudge(r: &mut Rng, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let at: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_ascii_alphanumeric() || "*!&#?%'@{}".contains(cs[*i])).collect();
    if at.is_empty() {
        return t.to_string();
    }
    let i = at[r.below(at.len())];
    let c = cs[i];
    let n: String = match c {
        '0'..='9' => match r.below(4) {
            0 => format!("{}0", c),
            1 => format!("0{}", c),
            _ => r.below(10).to_string(),
        },
        'a'..='z' => ((b'a' + r.below(26) as u8) as char).to_string(),
        'A'..='Z' => ((b'A' + r.below(26) as u8) as char).to_string(),
        '@' => if r.pct(50) { "@@" } else { "@" }.to_string(),
        '{' => "{{".to_string(),
        '}' => "}}".to_string(),
        _ => r.pick(&["*", "!", "&", "#", "?", "%", "'B"]).to_string(),
    };
    let mut s: String = cs[..i].iter().collect();
    s.push_str(&n);
    s.extend(&cs[i + 1..]);
    s
}

/// leave out a whole line, or write one twice
fn line_change(r: &mut Rng, t: &str) -> String {
    let mut ls: Vec<&str> = t.split_inclusive('\n').collect();
    if ls.len() < 2 {
        return t.to_string();
    }
    let i = r.below(ls.len());
    if r.pct(60) {
        ls.remove(i);
    } else {
        ls.insert(i, ls[i]);
    }
    ls.concat()
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// named things of all results, with the text they stand for
#[derive(Default)]
struct Names<'a> {
    tags: Vec<Spanned<lima::Tag<'a>>>,
    links: Vec<Spanned<lima::Link<'a>>>,
    keys: Vec<Spanned<lima::Key<'a>>>,
    curs: Vec<Spanned<lima::Currency<'a>>>,
}

macro_rules! names {
    ($ctx:expr, $what:expr, $v:expr, $disp:expr) => {{
        let v = $v;
        let texts: BTreeSet<&str> = v.iter().map(|x| AsRef::<str>::as_ref(x.item())).collect();
        let set: HashSet<_> = v.iter().copied().collect();
        if set.len() != texts.len() {
            return Err(format!("{} different {} are held as {} in a hash set", texts.len(), $what, set.len()));
        }
        for x in v.iter().take(40) {
            let tx: &str = x.item().as_ref();
            let other: &str = x.item().into();
            if other != tx || Into::<&str>::into(*x.item()) != tx || x.item() != &tx || format!("{}", x) != format!("{}{}", $disp, tx) {
                return Err(format!("{} {:?} reads as {:?}, displays as {}", $what, tx, other, x));
            }
            for y in v.iter().take(40) {
                let ty: &str = y.item().as_ref();
                let same = tx == ty;
                if (x == y) != same || (x.item() == y.item()) != same || (x.item() == &ty) != same {
                    return Err(format!("{} {:?} and {:?} compare {}", $what, tx, ty, if same { "different" } else { "equal" }));
                }
                if same && hash(x) != hash(y) {
                    return Err(format!("{} {:?} hashes differently at another place", $what, tx));
                }
                if same && x.span() != y.span() {
                    $ctx.count("names equal at different places");
                }
            }
        }
    }};
}

fn gather<'a>(n: &mut Names<'a>, ok: &'a ParseSuccess<'a>) {
    let meta = |n: &mut Names<'a>, m: &'a lima::Metadata<'a>| {
        n.tags.extend(m.tags().copied());
        n.links.extend(m.links().copied());
        n.keys.extend(m.key_values().map(|(k, _)| *k));
    };
    for d in &ok.directives {
        meta(n, d.metadata());
        match d.variant() {
            DirectiveVariant::Transaction(t) => {
                for p in t.postings() {
                    meta(n, p.metadata());
                    n.curs.extend(p.currency().copied());
                }
            }
            DirectiveVariant::Price(p) => n.curs.push(*p.currency()),
            DirectiveVariant::Commodity(p) => n.curs.push(*p.currency()),
            DirectiveVariant::Open(p) => n.curs.extend(p.currencies().copied()),
            _ => {}
        }
    }
}

fn compare(ctx: &mut Ctx, same: &str, a: &ParseSuccess, b: &ParseSuccess, fa: &[ODir], fb: &[ODir]) -> R {
    let va: Vec<Vec<String>> = fa.iter().map(|d| facts_of(&d.facts, "")).collect();
    let vb: Vec<Vec<String>> = fb.iter().map(|d| facts_of(&d.facts, "")).collect();
    for (i, x) in a.directives.iter().enumerate() {
        for (j, y) in b.directives.iter().enumerate() {
            let want = va[i] == vb[j];
            let kind = |o: &ODir| o.get("kind").map(|f| f.val.clone()).unwrap_or_default();
            if (x == y) != want || (x.item() == y.item()) != want || (x.variant() == y.variant() && x.date() == y.date() && x.metadata() == y.metadata()) != want {
                return Err(format!(
                    "{}: directives that {} compare {}: {:?} and {:?}, {:?}",
                    same,
                    if want { "say the same" } else { "differ" },
                    if want { "different" } else { "equal" },
                    kind(&fa[i]),
                    kind(&fb[j]),
                    va[i].iter().find(|l| !vb[j].contains(l)).or(vb[j].iter().find(|l| !va[i].contains(l)))
                ));
            }
            if (y == x) != want || (x != y) == want {
                return Err("comparison is not symmetric".into());
            }
            if want {
                ctx.count(&format!("equal: {}", kind(&fa[i])));
                if x.span() != y.span() {
                    ctx.count("directives equal at different places");
                }
            } else if kind(&fa[i]) == kind(&fb[j]) {
                let n = va[i].iter().filter(|l| !vb[j].contains(l)).count() + vb[j].iter().filter(|l| !va[i].contains(l)).count();
                if n <= 2 {
                    ctx.count(&format!("different by one fact: {}", kind(&fa[i])));
                }
            }
            // parts of transactions
            if let (DirectiveVariant::Transaction(t), DirectiveVariant::Transaction(u)) = (x.variant(), y.variant()) {
                for (k, p) in t.postings().enumerate().take(4) {
                    for (l, q) in u.postings().enumerate().take(4) {
                        let fp = facts_of(&fa[i].facts, &format!("posting[{}]", k));
                        let fq = facts_of(&fb[j].facts, &format!("posting[{}]", l));
                        let want = fp == fq;
                        if (p == q) != want {
                            return Err(format!("postings that {} compare {}: {:?} {:?}", if want { "say the same" } else { "differ" }, if want { "different" } else { "equal" }, fp, fq));
                        }
                        ctx.count(if want { "postings equal" } else { "postings different" });
                        let part = |v: &[String], s: &str| v.iter().filter(|f| f.starts_with(s)).cloned().collect::<Vec<_>>();
                        for s in [".cost", ".price", ".amount", ".flag"] {
                            let want = part(&fp, s) == part(&fq, s);
                            let got = match s {
                                ".cost" => p.cost_spec() == q.cost_spec(),
                                ".price" => p.price_annotation() == q.price_annotation(),
                                ".amount" => p.amount() == q.amount(),
                                _ => p.flag() == q.flag() && p.flag().item() == q.flag().item(),
                            };
                            if got != want {
                                return Err(format!("{} of postings compares {}: {:?} {:?}", s, if got { "equal" } else { "different" }, part(&fp, s), part(&fq, s)));
                            }
                        }
                    }
                }
            }
        }
    }
    for p in &a.plugins {
        for q in &b.plugins {
            let want = facts_of(&plugin(p), "") == facts_of(&plugin(q), "");
            if (p == q) != want {
                return Err(format!("plugins {} compare {}", if want { "with the same text" } else { "with different text" }, p == q));
            }
            ctx.count(if want { "plugins equal" } else { "plugins different" });
        }
    }
    Ok(())
}

pub fn c21(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut g = gen_profile(r);
    g.max_items = g.max_items.min(8);
    g.pragmas = r.pct(25);
    let mut items = g.items(r);
    // the same thing several times in one ledger
    if r.pct(40) && !items.is_empty() {
        let i = r.below(items.len());
        if let Item::Dir(_) = &items[i] {
            let c = items[i].clone();
            let at = r.below(items.len() + 1);
            items.insert(at, c);
        }
    }
    let fm = one_file(items);
    let (sa, sb) = if r.pct(40) { (Style::canonical(), Style::canonical()) } else { (Style::random(r), Style::random(r)) };
    let a = Printer::new(&sa).file(r, 0, &fm);
    let mut b = Printer::new(&sb).file(r, 0, &fm);
    let change = r.below(4);
    for _ in 0..if change == 3 { 3 } else { change } {
        let t = if r.pct(85) { nudge(r, &b.text) } else { line_change(r, &b.text) };
        // the last change that leaves a well-formed ledger
        let s = BeancountSources::from(t.as_str());
        let p = BeancountParser::new(&s);
        if p.parse().is_ok() {
            b.text = t;
        }
    }
    ctx.input("first", &a.text);
    ctx.input("second", &b.text);
    let (s1, _d1) = loaded(ctx, r, &a);
    let (s2, _d2) = loaded(ctx, r, &b);
    let (p1, p2) = (BeancountParser::new(&s1), BeancountParser::new(&s2));
    let (Ok(o1), Ok(o2)) = (p1.parse(), p2.parse()) else {
        ctx.count("rejected (decided elsewhere)");
        return Ok(());
    };
    let (f1, f2) = (directives(&o1), directives(&o2));
    compare(ctx, "one ledger", &o1, &o1, &f1, &f1)?;
    compare(ctx, "two ledgers", &o1, &o2, &f1, &f2)?;
    // a copy is the same thing at the same place
    for d in o1.directives.iter().take(6) {
        let c = d.clone();
        if &c != d || c.span() != d.span() || format!("{:?}", directive(&c).values()) != format!("{:?}", directive(d).values()) {
            return Err("a clone of a directive differs from it".into());
        }
        let (m, v) = (d.map(|x| *x.date().item()), d.as_ref());
        if m.span() != d.span() || m.item() != d.date().item() || v.span() != d.span() || !std::ptr::eq(*v.item(), d.item()) {
            return Err("mapping a spanned element loses its place or item".into());
        }
        if v.map_into(|x| x.date().span().start).span() != d.span() {
            return Err("map_into loses the place of a spanned element".into());
        }
        ctx.count("clones compared");
    }
    let mut n = Names::default();
    gather(&mut n, &o1);
    gather(&mut n, &o2);
    names!(ctx, "tags", &n.tags, "#");
    names!(ctx, "links", &n.links, "^");
    names!(ctx, "keys", &n.keys, "");
    names!(ctx, "currencies", &n.curs, "");
    for v in [&n.keys] {
        let mut w: Vec<lima::Key> = v.iter().map(|k| *k.item()).collect();
        w.sort();
        if w.windows(2).any(|p| AsRef::<str>::as_ref(&p[0]) > AsRef::<str>::as_ref(&p[1])) {
            return Err("keys sort differently from their text".into());
        }
    }
    let mut w: Vec<lima::Currency> = n.curs.iter().map(|k| *k.item()).collect();
    w.sort();
    if w.windows(2).any(|p| AsRef::<str>::as_ref(&p[0]) > AsRef::<str>::as_ref(&p[1])) {
        return Err("currencies sort differently from their text".into());
    }
    // a key of one ledger finds its value in the other
    for (x, y) in o1.directives.iter().zip(&o2.directives).take(6) {
        let want: HashMap<&str, _> = y.metadata().key_values().map(|(k, v)| (AsRef::<str>::as_ref(k.item()), v)).collect();
        for (k, _) in x.metadata().key_values() {
            let t: &str = k.item().as_ref();
            let got = y.metadata().key_value(*k.item());
            if got.map(|v| *v.span()) != want.get(t).map(|v| *v.span()) {
                return Err(format!("key {:?} of another ledger finds {:?}", t, got.map(|v| *v.span())));
            }
            ctx.count("keys of one ledger looked up in another");
        }
    }
    if a.text != b.text {
        ctx.nontrivial(&format!("{}\u{1}{}", a.text, b.text));
        ctx.sample(&b.text);
    }
    Ok(())
}
