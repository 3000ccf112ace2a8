//! Malformed input.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::p_model::*;
use crate::p_values::{file_of, overlaps};
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, Report};

// ---------------------------------------------------------------- C07

const MALFORMED: &[&str] = &[
    // something is missing
    "2024-01-01",
    "2024-01-01 open",
    "2024-01-01 close",
    "2024-01-01 balance",
    "2024-01-01 balance Assets:A",
    "2024-01-01 balance Assets:A 1",
    "2024-01-01 balance Assets:A 1 ~ USD",
    "2024-01-01 balance Assets:A ~ 1 USD",
    "2024-01-01 price",
    "2024-01-01 price USD",
    "2024-01-01 price USD 1",
    "2024-01-01 price 1 USD",
    "2024-01-01 pad",
    "2024-01-01 pad Assets:A",
    "2024-01-01 note",
    "2024-01-01 note Assets:A",
    "2024-01-01 note \"x\"",
    "2024-01-01 document Assets:A",
    "2024-01-01 document \"x\"",
    "2024-01-01 event",
    "2024-01-01 event \"x\"",
    "2024-01-01 query \"x\"",
    "2024-01-01 custom",
    "2024-01-01 commodity",
    "open Assets:A",
    "close Assets:A",
    "txn \"x\"",
    "balance Assets:A 1 USD",
    // something is too much
    "2024-01-01 open Assets:A foo",
    "2024-01-01 open Assets:A USD EUR",
    "2024-01-01 open Assets:A USD,",
    "2024-01-01 open Assets:A ,USD",
    "2024-01-01 open Assets:A \"BOGUS\"",
    "2024-01-01 open Assets:A 1 USD",
    "2024-01-01 open open Assets:A",
    "2024-01-01 close Assets:A USD",
    "2024-01-01 commodity USD EUR",
    "2024-01-01 pad Assets:A Assets:B Assets:C",
    "2024-01-01 balance Assets:A 1 USD EUR",
    "2024-01-01 note Assets:A \"x\" \"y\"",
    "2024-01-01 event \"x\" \"y\" \"z\"",
    "2024-01-01 query \"x\" \"y\" 1",
    "2024-01-01 2024-01-02 open Assets:A",
    "2024-01-01 txn \"a\" \"b\" \"c\"",
    "2024-01-01 * *",
    "2024-01-01 price USD 1 EUR GBP",
    // something is wrong
    "2024-13-01 open Assets:A",
    "2024-00-01 open Assets:A",
    "2024-02-30 open Assets:A",
    "2023-02-29 open Assets:A",
    "2024-04-31 close Assets:A",
    "2024-01-00 commodity USD",
    "2024-1-1 open Assets:A",
    "24-01-01 open Assets:A",
    "2024.01.01 open Assets:A",
    "2024-01 open Assets:A",
    "2024-01-01 opne Assets:A",
    "2024-01-01 Open Assets:A",
    "2024-01-01 OPEN Assets:A",
    "2024-01-01 transaction \"x\"",
    "2024-01-01 open assets:A",
    "2024-01-01 open Foo:A",
    "2024-01-01 open Assets",
    "2024-01-01 open Assets:",
    "2024-01-01 open Assets:a",
    "2024-01-01 open :A",
    "2024-01-01 open \"Assets:A\"",
    "2024-01-01 commodity usd",
    "2024-01-01 commodity \"USD\"",
    "2024-01-01 price USD one EUR",
    "2024-01-01 price USD 1,00 EUR",
    "2024-01-01 price USD 1..2 EUR",
    "2024-01-01 price USD 1.2.3 EUR",
    "2024-01-01 price USD (1 EUR",
    "2024-01-01 price USD 1) EUR",
    "2024-01-01 price USD () EUR",
    "2024-01-01 price USD 1 + EUR",
    "2024-01-01 price USD * 1 EUR",
    "2024-01-01 price USD 1 ** 2 EUR",
    "2024-01-01 price USD 1 / EUR",
    "2024-01-01 balance Assets:A 1 ~ -1 USD",
    "2024-01-01 note Assets:A x",
    "2024-01-01 note Assets:A 'x'",
    "2024-01-01 event x y",
    "2024-01-01 custom x",
    "2024-01-01 $ \"x\"",
    "2024-01-01 'a \"x\"",
    "2024-01-01 txn \"x\" USD",
    "2024-01-01 txn \"x\" key: 1",
    // lines below
    "2024-01-01 open Assets:A\n  key 1",
    "2024-01-01 open Assets:A\n  Key: 1",
    "2024-01-01 open Assets:A\n  key: )",
    "2024-01-01 open Assets:A\n  key: 1 2",
    "2024-01-01 open Assets:A\n  key: \"x\" \"y\"",
    "2024-01-01 open Assets:A\n  key: 1 USD EUR",
    "2024-01-01 open Assets:A\n  key = 1",
    "2024-01-01 open Assets:A\n  Assets:B 1 USD",
    "2024-01-01 open Assets:A\n  \"x\"",
    "2024-01-01 open Assets:A\n  #x y",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD {",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD }",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD {1 EUR",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD {1 EUR,}",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD {1 EUR 2 GBP}",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD @ @",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD @@@ 1 EUR",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD @ 1 EUR @ 2 GBP",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD @ 1 EUR {1 EUR}",
    "2024-01-01 txn \"x\"\n  Assets:A USD 1",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD EUR",
    "2024-01-01 txn \"x\"\n  Assets:A 1 2 USD",
    "2024-01-01 txn \"x\"\n  Assets:A Assets:B 1 USD",
    "2024-01-01 txn \"x\"\n  1 USD",
    "2024-01-01 txn \"x\"\n  USD",
    "2024-01-01 txn \"x\"\n  ! ! Assets:A 1 USD",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD ! ",
    "2024-01-01 txn \"x\"\n  assets:A 1 USD",
    "2024-01-01 txn \"x\"\n  Foo:A 1 USD",
    "2024-01-01 txn \"x\"\n  Assets:A 1 usd",
    "2024-01-01 txn \"x\"\n  Assets:A \"x\"",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD\n    key 1",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD\n  Assets:B 1 + USD\n  Assets:C 2 USD",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD\n  Assets:B (1 USD\n  Assets:C 2) USD",
    "2024-01-01 txn \"x\"\n  Assets:A 1 USD\n  nonsense\n  Assets:C 2 USD",
    // pragmas
    "option",
    "option \"title\"",
    "option title \"x\"",
    "option \"title\" \"x\" \"y\"",
    "include",
    "include x.beancount",
    "plugin",
    "plugin foo",
    "plugin \"a\" \"b\" \"c\"",
    "pushtag",
    "pushtag x",
    "pushtag \"x\"",
    "pushtag ^x",
    "poptag",
    "pushmeta",
    "pushmeta key",
    "pushmeta #x",
    "popmeta",
    "popmeta key",
    "popmeta key: 1",
    "foo",
    "foo \"x\"",
    "Assets:A 1 USD",
    "\"x\"",
    "1 USD",
    "(((",
    "}",
    "key: 1",
    "#tag",
    "^link",
    "@@ 1 USD",
    "=",
    "`",
    "$",
    "é",
    "银行 银行",
    "😀",
    "\u{feff}2024-01-01 open Assets:A",
    "\u{a0}2024-01-01 open Assets:A",
    "２０２４-01-01 open Assets:A",
    // on the wrong line, or in the wrong order
    "2024-01-01 txn \"x\"\nAssets:A 1 USD",
    "2024-01-01 open Assets:A\nkey: 1",
    "2024-01-01 txn \"x\" Assets:A 1 USD",
    "2024-01-01 open Assets:A USD key: 1",
    "2024-01-01 open Assets:A \"STRICT\" USD",
    "2024-01-01 open Assets:A USD \"STRICT\" \"NONE\"",
    "2024-01-01 open Assets:A #t USD",
    "2024-01-01 open #t Assets:A",
    "2024-01-01 #t open Assets:A",
    "2024-01-01 ^l \"x\"",
    "2024-01-01 note #t Assets:A \"x\"",
    "2024-01-01 note \"x\" Assets:A",
    "2024-01-01 document \"x\" Assets:A",
    "2024-01-01 txn #t \"x\"",
    "2024-01-01 txn \"x\" #t \"y\"",
    "2024-01-01 balance Assets:A #t 1 USD",
    "2024-01-01 balance 1 USD Assets:A",
    "2024-01-01 balance Assets:A USD 1",
    "2024-01-01 balance Assets:A 1 USD ~ 1",
    "2024-01-01 pad #t Assets:A Assets:B",
    "2024-01-01 price USD 1,0000 EUR",
    "2024-01-01 price USD 1,234,56 EUR",
    "2024-01-01 price USD .5 EUR",
    "2024-01-01 price USD 5. EUR",
    "2024-01-01 price USD 1e5 EUR",
    "2024-01-01 price USD 1 EUR\n  price: 1 USD 2",
    "2024-01-01 pushtag #x",
    "2024-01-01 plugin \"x\"",
    "2024-01-01 option \"title\" \"x\"",
    "include \"x\" \"y\"",
    "pushtag #x #y",
    "poptag #x #y",
    "pushmeta aa: 1 bb: 2",
    "popmeta key: key:",
    "plugin \"x\" #t",
    "plugin \"x\" \"y\" #t",
    "options \"title\" \"x\"",
    "option \"title\" \"x\" #t",
    "option \"title\" x",
    "option \"title\" 1",
    "plugin \"x\" 1",
    "include x",
    "include Assets:A",
];

/// pragmas to put on one line with something else
const PRAGMAS: &[&str] = &["plugin \"aa\"", "plugin \"aa\" \"bb\"", "option \"title\" \"t\"", "option \"operating_currency\" \"USD\"", "pushtag #zz", "pushmeta zz: 1", "pushmeta zz:", "include \"none.bean\"", "poptag #zz", "popmeta zz:"];


/// a character that starts no token
const ALIEN: &[&str] = &["$", "`", "=", "[", "]", "<", ">", "\\", "_", ".", "é", "€", "😀", "\u{a0}", "\u{200b}", "\u{301}", "\u{7f}", "\u{0}", "٣", "１２"];

/// text that is malformed for sure, and what was done to it
pub fn malformed(r: &mut Rng, g: &Gen) -> (String, &'static str) {
    if r.pct(45) {
        let t = *r.pick(MALFORMED);
        // these would be ignored lines, were they the first thing on one
        return (t.trim_start_matches('#').replace("tag\n", "tag").to_string(), "from the list");
    }
    if r.pct(20) {
        // two declarations on one line
        let one = |r: &mut Rng| {
            if r.pct(50) {
                return r.pick(PRAGMAS).to_string();
            }
            let d = g.dir(r);
            let f = Printer::new(&Style::canonical()).file(r, 0, &one_file(vec![Item::Dir(d)]));
            match &f.items[0].kind {
                EKind::Dir(e) => f.text[..e.end].to_string(),
                _ => unreachable!(),
            }
        };
        let a = one(r);
        return (format!("{} {}", a, one(r)), "two on one line");
    }
    if r.pct(10) {
        // two lines of one directive joined
        let d = g.dir(r);
            let f = Printer::new(&Style::canonical()).file(r, 0, &one_file(vec![Item::Dir(d)]));
        if let EKind::Dir(e) = &f.items[0].kind {
            let text = &f.text[..e.end];
            // lines that start with an account or a key (lines inside strings do not start by two blanks and these)
            let joints: Vec<usize> = text
                .match_indices('\n')
                .map(|(i, _)| i)
                .filter(|&i| {
                    let rest = &text[i + 1..];
                    let next = rest.trim_start_matches(' ');
                    next.len() < rest.len()
                        && e.facts.iter().any(|x| matches!(x.sp, Sp::At(a, _) if a == i + 1 + (rest.len() - next.len())))
                        && !next.starts_with(['#', '^'])
                        && !text[..i].ends_with(':')
                })
                .collect();
            if !joints.is_empty() {
                let i = *r.pick(&joints);
                return (format!("{}{}", &text[..i], &text[i + 1..]), "two lines joined");
            }
        }
    }
    // a well-formed directive, damaged
    loop {
        let d = g.dir(r);
        let style = if r.pct(60) { Style::canonical() } else { Style { final_nl: true, head: 0, ..Style::random(r) } };
        let f = Printer::new(&style).file(r, 0, &one_file(vec![Item::Dir(d)]));
        let EKind::Dir(e) = &f.items[0].kind else { continue };
        let text = &f.text[..e.end];
        let places: Vec<(usize, usize, &str)> =
            e.facts.iter().filter_map(|x| if let Sp::At(a, b) = x.sp { Some((a, b, x.path.as_str())) } else { None }).collect();
        if places.is_empty() {
            continue;
        }
        let (a, b, path) = *r.pick(&places);
        match r.below(4) {
            0 | 1 => {
                let alien = *r.pick(ALIEN);
                let at = if r.pct(70) { a } else { e.end };
                return (format!("{}{} {}", &text[..at], if at > 0 { format!(" {}", alien) } else { alien.into() }, &text[at..]).trim_end_matches([' ', '\t', '\n', '\r']).to_string(), "alien character");
            }
            2 => {
                // a part that has to be there
                let required = matches!(path, "date" | "account" | "source" | "amount.num" | "amount.cur" | "event_type" | "comment" | "path" | "name" | "content" | "description")
                    || (path == "currency" && matches!(e.kind, "price" | "commodity"))
                    || (path == "type" && e.kind == "custom" && !e.facts.iter().any(|x| x.path == "value[0]" && x.vals[0].starts_with('"')));
                if required {
                    return (format!("{}{}", &text[..a], &text[b..]).trim_end().to_string(), "part taken out");
                }
            }
            _ => {
                // an account or a date in a place that takes neither
                if path == "date" || path == "currency" && matches!(e.kind, "price" | "commodity") || path == "account" {
                    let x = *r.pick(&["Assets:Extra", "2020-01-01"]);
                    return (format!("{}{} {}", &text[..a], x, &text[a..]), "part too much");
                }
            }
        }
    }
}

pub fn c07(ctx: &mut Ctx, r: &mut Rng) -> R {
    let g = Gen { unicode: r.pct(50), expr_depth: 1, max_items: 4, pragmas: false, dates: 0, long_strings: false, kinds: vec![] };
    let mut items: Vec<Item> = vec![];
    // now and then as many as a ledger gone wrong has
    let crowd = r.below(600) == 0;
    let parts = if crowd { r.range(110, 400) } else if r.pct(40) { 1 } else { r.range(2, 6) };
    let mut kinds = vec![];
    for _ in 0..r.below(3) {
        items.push(Item::Dir(g.dir(r)));
    }
    for i in 0..parts {
        if i > 0 {
            for _ in 0..r.range(1, 3) {
                items.push(Item::Dir(g.dir(r)));
            }
        }
        let (t, k) = malformed(r, &g);
        if t.is_empty() {
            continue;
        }
        kinds.push(k);
        items.push(Item::Raw(t));
    }
    for _ in 0..r.below(3) {
        items.push(Item::Dir(g.dir(r)));
    }
    let split = r.pct(25);
    let ledger = if split { crate::p_include::split(r, items) } else { Ledger { files: vec![one_file(items)] } };
    let style = if r.pct(60) { Style::canonical() } else { Style::random(r) };
    let files: Vec<EFile> = ledger.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    // where errors may be: in a malformed part, up to the first token after it
    let mut bad: Vec<(usize, usize, usize)> = vec![];
    for (i, f) in files.iter().enumerate() {
        for (j, it) in f.items.iter().enumerate() {
            if let EKind::Raw = it.kind {
                let end = match f.items.get(j + 1) {
                    Some(n) => match &n.kind {
                        EKind::Dir(_) => n.start + 10,
                        _ => f.text[n.start..].find([' ', '\t', '"']).map(|k| n.start + k).unwrap_or(f.text.len()),
                    },
                    None => f.text.len() + 1,
                };
                bad.push((i, it.start, end));
            }
        }
    }
    let (s, fs) = if split {
        let d = ctx.fresh_dir();
        crate::p_include::write(&d, &files);
        let Ok(s) = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/{}", d, files[0].path))) else {
            ctx.count("not loaded (decided elsewhere)");
            return Ok(());
        };
        (s, Files::on_disk(&d, &files))
    } else {
        (BeancountSources::from(files[0].text.as_str()), Files::inline(&files[0].text))
    };
    let parser = BeancountParser::new(&s);
    match parser.parse() {
        Ok(_) => Err(format!("accepted in spite of the malformed {:?}", bad.iter().map(|p| &files[p.0].text[p.1..p.2.min(files[p.0].text.len())]).collect::<Vec<_>>())),
        Err(e) => {
            let placed: Vec<(Option<usize>, &lima::Error)> = e.errors.iter().map(|x| (file_of(&s, &fs, &x.span()), x)).collect();
            let at = |x: &(Option<usize>, &lima::Error), p: &(usize, usize, usize)| x.0 == Some(p.0) && overlaps(&x.1.span(), p.1, p.2);
            for p in &bad {
                if !placed.iter().any(|x| at(x, p)) {
                    return Err(format!("no error at the malformed {:?}: {}", &files[p.0].text[p.1..p.2.min(files[p.0].text.len())], show_errors(&s, &e)));
                }
            }
            for x in &placed {
                if !bad.iter().any(|p| at(x, p)) {
                    let x = x.1;
                    let sp = x.span();
                    return Err(format!(
                        "error outside of what is malformed: {} {} at {:?} {}..{} {:?}",
                        x.message(),
                        x.reason(),
                        s.resolve_span(&sp).file_name,
                        sp.start,
                        sp.end,
                        s.resolve_span(&sp).content
                    ));
                }
            }
            ctx.add("malformed parts reported", bad.len() as u64);
            ctx.add("errors placed", e.errors.len() as u64);
            for k in kinds {
                ctx.count(k);
            }
            if crowd {
                ctx.count("ledgers with hundreds of malformed parts");
            }
            if bad.len() > 1 {
                ctx.count("ledgers with several malformed parts");
            }
            if split {
                ctx.count("ledgers over several files");
            }
            ctx.nontrivial(&files.iter().map(|f| f.text.as_str()).collect::<String>());
            ctx.sample(&files[0].text);
            Ok(())
        }
    }
}
