//! Families of ledgers that repeat one kind of content n times.
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, ParseError};
use std::fmt::Write as _;

fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&f(i));
    }
    s
}

fn date(i: usize) -> String {
    format!("{:04}-{:02}-{:02}", 1970 + (i / 336) % 60, 1 + (i / 28) % 12, 1 + i % 28)
}

/// name, whether it parses, text
type Family = (&'static str, bool, fn(usize) -> String);

pub const FAMILIES: &[Family] = &[
    ("transactions", true, |n| rep(n, |i| format!("{} * \"payee {}\" \"narration\"\n  Assets:Bank  {}.00 USD\n  Expenses:Food\n\n", date(i), i, i))),
    ("opens", true, |n| rep(n, |i| format!("{} open Assets:A{} USD, EUR \"STRICT\"\n", date(i), i))),
    ("closes", true, |n| rep(n, |i| format!("{} close Assets:A{}\n", date(i), i))),
    ("balances", true, |n| rep(n, |i| format!("{} balance Assets:A {} ~ 0.1 USD\n", date(i), i))),
    ("prices in falling order of date", true, |n| rep(n, |i| format!("{} price A{} {} USD\n", date(n - i), i, i))),
    ("prices on one date", true, |n| rep(n, |i| format!("2024-01-01 price A{} {} USD\n", i, i))),
    ("commodities", true, |n| rep(n, |i| format!("{} commodity A{}\n", date(i), i))),
    ("pads", true, |n| rep(n, |i| format!("{} pad Assets:A Equity:B{}\n", date(i), i))),
    ("notes", true, |n| rep(n, |i| format!("{} note Assets:A \"n {}\"\n", date(i), i))),
    ("documents", true, |n| rep(n, |i| format!("{} document Assets:A \"n {}\"\n", date(i), i))),
    ("events", true, |n| rep(n, |i| format!("{} event \"a\" \"n {}\"\n", date(i), i))),
    ("queries", true, |n| rep(n, |i| format!("{} query \"a\" \"n {}\"\n", date(i), i))),
    ("customs", true, |n| rep(n, |i| format!("{} custom \"a\" \"n {}\" 1 USD TRUE\n", date(i), i))),
    ("mixed classes on one date", true, |n| rep(n, |i| match i % 3 {
        0 => format!("2024-01-01 event \"a\" \"{}\"\n", i),
        1 => format!("2024-01-01 balance Assets:A {} USD\n", i),
        _ => format!("2024-01-01 open Assets:A{}\n", i),
    })),
    ("postings", true, |n| format!("2024-01-01 *\n{}", rep(n, |i| format!("  Assets:A{} {} USD\n", i, i)))),
    ("postings with costs", true, |n| format!("2024-01-01 *\n{}", rep(n, |i| format!("  Assets:A {} A{} {{{} # 2 USD, 2020-01-01, \"x\"}} @ 3 USD\n", i, i, i)))),
    ("postings with metadata", true, |n| format!("2024-01-01 *\n{}", rep(n, |i| format!("  Assets:A {} USD\n    key: \"v{}\"\n    #t{}\n", i, i, i)))),
    ("metadata of a directive", true, |n| format!("2024-01-01 close Assets:A\n{}", rep(n, |i| format!("  key{}: \"v\"\n", i)))),
    ("metadata of a posting", true, |n| format!("2024-01-01 *\n  Assets:A\n{}", rep(n, |i| format!("    key{}: {}\n", i, i)))),
    ("tags on a line", true, |n| format!("2024-01-01 * \"x\" {}\n", rep(n, |i| format!(" #t{}", i)))),
    ("links on a line", true, |n| format!("2024-01-01 * \"x\" {}\n", rep(n, |i| format!(" ^t{}", i)))),
    ("lines of tags and links", true, |n| format!("2024-01-01 * \"x\"\n{}", rep(n, |i| format!("  #t{}\n  ^l{}\n", i, i)))),
    ("currencies of an open", true, |n| format!("2024-01-01 open Assets:A A{}\n", rep(n, |i| format!(", C{}", i)))),
    ("values of a custom", true, |n| format!("2024-01-01 custom \"x\"{}\n", rep(n, |i| format!(" {} USD TRUE \"s\"", i)))),
    ("pushed tags, all open", true, |n| format!("{}2024-01-01 close Assets:A\n{}", rep(n, |i| format!("pushtag #t{}\n", i)), rep(n, |i| format!("poptag #t{}\n", n - 1 - i)))),
    ("one tag pushed over and over", true, |n| format!("{}2024-01-01 close Assets:A\n{}", "pushtag #t\n".repeat(n), "poptag #t\n".repeat(n))),
    ("tags pushed and popped", true, |n| rep(n, |i| format!("pushtag #t{}\n{} close Assets:A\npoptag #t{}\n", i, date(i), i))),
    ("pushed keys, all open", true, |n| format!("{}2024-01-01 close Assets:A\n{}", rep(n, |i| format!("pushmeta kk{}: {}\n", i, i)), rep(n, |i| format!("popmeta kk{}:\n", i)))),
    ("one key pushed over and over", true, |n| format!("{}2024-01-01 close Assets:A\n{}", rep(n, |i| format!("pushmeta kk: {}\n", i)), "popmeta kk:\n".repeat(n))),
    ("keys pushed and popped", true, |n| rep(n, |i| format!("pushmeta kk: {}\n{} close Assets:A\npopmeta kk:\n", i, date(i)))),
    ("one key pushed over and over, directives between", true, |n| format!("{}{}", rep(n, |i| format!("pushmeta kk: {}\n{} close Assets:A\n", i, date(i))), "popmeta kk:\n".repeat(n))),
    ("one tag pushed over and over, directives between", true, |n| format!("{}{}", rep(n, |i| format!("pushtag #t\n{} close Assets:A\n", date(i))), "poptag #t\n".repeat(n))),
    ("directives under one pushed tag and key", true, |n| format!("pushtag #t\npushmeta kk: 1\n{}poptag #t\npopmeta kk:\n", rep(n, |i| format!("{} close Assets:A{}\n", date(i), i)))),
    ("tags left open", false, |n| rep(n, |i| format!("pushtag #t{}\n", i))),
    ("one tag left open over and over", false, |n| rep(n, |_| "pushtag #t\n".into())),
    ("tags popped without push", false, |n| rep(n, |i| format!("poptag #t{}\n", i))),
    ("tags popped without push, directives between", false, |n| rep(n, |i| format!("poptag #t{}\n{} close Assets:A{}\n", i, date(i), i))),
    ("keys popped without push, directives between", false, |n| rep(n, |i| format!("popmeta kk{}:\n{} close Assets:A{}\n", i, date(i), i))),
    ("duplicate tags between well formed", false, |n| rep(n, |i| format!("{} * #a #a\n{} close Assets:A{}\n", date(i), date(i), i))),
    ("operating currencies", true, |n| rep(n, |i| format!("option \"operating_currency\" \"C{}\"\n", i))),
    ("document folders", true, |n| rep(n, |i| format!("option \"documents\" \"d{}\"\n", i))),
    ("tolerance defaults", true, |n| rep(n, |i| format!("option \"inferred_tolerance_default\" \"C{}:0.1\"\n", i))),
    ("titles", false, |n| rep(n, |i| format!("option \"title\" \"t{}\"\n", i))),
    ("unknown options", false, |n| rep(n, |i| format!("option \"nope{}\" \"t\"\n", i))),
    ("renames of account types", true, |n| rep(n, |i| format!("option \"name_assets\" \"A{}\"\n{} close A{}:B\n", i, date(i), i))),
    ("plugins", true, |n| rep(n, |i| format!("plugin \"p{}\" \"c\"\n", i))),
    ("a long string", true, |n| format!("2024-01-01 * \"{}\"\n", "x".repeat(20 * n))),
    ("a long string of other letters", true, |n| format!("2024-01-01 * \"{}\"\n", "é银😀".repeat(5 * n))),
    ("a long string of escapes", true, |n| format!("2024-01-01 * \"{}\"\n", "\\n\\\"\\\\".repeat(5 * n))),
    ("a string of many lines", true, |n| format!("2024-01-01 * \"{}\"\n", "line\n".repeat(5 * n))),
    ("strings of many lines", true, |n| rep(n, |i| format!("{} * \"{}\"\n", date(i), "l\n".repeat(70)))),
    ("comment lines", true, |n| "; a comment\n".repeat(5 * n)),
    ("a long comment", true, |n| format!("; {}\n2024-01-01 close Assets:A ; x\n", "comment ".repeat(5 * n))),
    ("blank lines", true, |n| "\n  \n".repeat(5 * n)),
    ("blank lines in a transaction", true, |n| format!("2024-01-01 *\n  Assets:A 1 USD\n{}2024-01-01 close Assets:A\n", "\n  \n".repeat(n))),
    ("comments in a transaction", true, |n| format!("2024-01-01 *\n  Assets:A 1 USD\n{}  Assets:B\n", "  ; comment\n".repeat(n))),
    ("headings", true, |n| "* Heading\n".repeat(3 * n)),
    ("Windows lines", true, |n| rep(n, |i| format!("{} close Assets:A{}\r\n", date(i), i))),
    ("other letters", true, |n| rep(n, |i| format!("{} note Assets:银行É{} \"é银😀\"\n", date(i), i))),
    ("an account of many parts", true, |n| format!("2024-01-01 close Assets{}\n", ":Abc".repeat(2 * n))),
    ("digits of a number", false, |n| format!("2024-01-01 price A {} USD\n", "9".repeat(40 * n))),
    ("numbers", true, |n| format!("2024-01-01 custom \"x\"{}\n", rep(n, |i| format!(" {},123.45", 1 + i % 99)))),
    ("expressions", true, |n| rep(n, |i| format!("{} price A ({} + 2) * 3 - 4 / 5 USD\n", date(i), i))),
    ("space between tokens", true, |n| format!("2024-01-01 {} close {} Assets:A\n", " ".repeat(20 * n), "\t".repeat(20 * n))),
    // malformed
    ("malformed lines", false, |n| "x y z\n".repeat(n)),
    ("malformed directives", false, |n| rep(n, |i| format!("{} open\n", date(i)))),
    ("malformed between well formed", false, |n| rep(n, |i| format!("{} open\n{} close Assets:A\n", date(i), date(i)))),
    ("malformed postings", false, |n| rep(n, |i| format!("{} * \"x\"\n  Assets:A 1 1\n  Assets:B\n", date(i)))),
    ("a transaction of malformed postings", false, |n| format!("2024-01-01 *\n{}", "  Assets:A 1 1\n".repeat(n))),
    ("tokens on one malformed line", false, |n| "x ".repeat(3 * n)),
    ("dates", false, |n| "2024-01-01 ".repeat(n)),
    ("unclosed quote before much text", false, |n| format!("2024-01-01 * \"x\n{}", "2024-01-01 close Assets:A\n".repeat(n))),
    ("quotes", false, |n| "\"".repeat(5 * n + 1)),
    ("opening braces", false, |n| format!("2024-01-01 *\n  Assets:A 1 USD {}\n", "{".repeat(n))),
    ("parts of a cost given twice", false, |n| format!("2024-01-01 *\n  Assets:A 1 A {{{}}}\n", rep(n, |_| "2020-01-01, ".into()) + "1 USD")),
    ("expressions without value", false, |n| rep(n, |i| format!("{} price A 1 / 0 USD\n", date(i)))),
    ("duplicate tags", false, |n| rep(n, |i| format!("{} * #a #a\n", date(i)))),
    ("one tag given over and over", false, |n| format!("2024-01-01 * \"x\"{}\n", " #a".repeat(n))),
    ("one key given over and over", false, |n| format!("2024-01-01 close Assets:A\n{}", "  key: 1\n".repeat(n))),
    ("currencies given over and over", false, |n| format!("2024-01-01 open Assets:A USD{}\n", ", USD".repeat(n))),
    ("bad escapes", false, |n| rep(n, |i| format!("{} note Assets:A \"\\q\"\n", date(i)))),
    ("bad dates", false, |n| rep(n, |_| "2024-02-30 close Assets:A\n".into())),
    ("bad account types", false, |n| rep(n, |i| format!("{} close Foo:A\n", date(i)))),
    ("unknown characters", false, |n| "§".repeat(3 * n)),
    ("lines of unknown characters", false, |n| "§ §\n".repeat(n)),
    ("missing includes", false, |n| rep(n, |i| format!("include \"/nonexistent-lima/f{}\"\n", i))),
    ("one missing include over and over", false, |n| "include \"/nonexistent-lima/f\"\n".repeat(n)),
    // expressions, deep or wide: the known finding is about these, see C01
    ("nested parentheses", true, |n| format!("2024-01-01 price A {}1{} USD\n", "(".repeat(n), ")".repeat(n))),
    ("signs", false, |n| format!("2024-01-01 price A {}1 USD\n", "-".repeat(n))),
    ("terms of a sum", true, |n| format!("2024-01-01 price A 1{} USD\n", " + 1".repeat(n))),
    ("factors of a product", true, |n| format!("2024-01-01 price A 1{} USD\n", " * 1".repeat(n))),
    ("unclosed parentheses", false, |n| format!("2024-01-01 price A {}1 USD\n2024-01-01 close Assets:A\n", "(".repeat(n))),
];

/// families of files
pub const TREES: &[(&str, bool)] = &[("files included side by side", true), ("a chain of includes", true), ("one file included over and over", true), ("files of one pattern", true), ("unreadable files", false), ("a file including itself", true)];

pub fn tree(name: &str, n: usize, dir: &str) -> String {
    let w = |f: &str, t: &str| std::fs::write(format!("{}/{}", dir, f), t).expect("write");
    std::fs::create_dir_all(dir).expect("mkdir");
    let root = format!("{}/root.beancount", dir);
    match name {
        "files included side by side" => {
            let mut t = String::new();
            for i in 0..n {
                let _ = writeln!(t, "include \"f{}.bc\"", i);
                w(&format!("f{}.bc", i), &format!("{} close Assets:A{}\n", date(i), i));
            }
            w("root.beancount", &t);
        }
        "a chain of includes" => {
            for i in 0..n {
                w(&format!("f{}.bc", i), &format!("{} close Assets:A{}\ninclude \"f{}.bc\"\n{} close Assets:B\n", date(i), i, i + 1, date(i)));
            }
            w(&format!("f{}.bc", n), "2024-01-01 close Assets:Z\n");
            w("root.beancount", "include \"f0.bc\"\n");
        }
        "one file included over and over" => {
            w("f.bc", "2024-01-01 close Assets:A\n");
            w("root.beancount", &"include \"f.bc\"\n".repeat(n));
        }
        "files of one pattern" => {
            for i in 0..n {
                w(&format!("f{}.bc", i), &format!("{} close Assets:A{}\n", date(i), i));
            }
            w("root.beancount", "include \"*.bc\"\n");
        }
        "unreadable files" => {
            let mut t = String::new();
            for i in 0..n {
                let _ = writeln!(t, "include \"f{}.bc\"", i);
                std::fs::write(format!("{}/f{}.bc", dir, i), b"\xff\xfe").expect("write");
            }
            w("root.beancount", &t);
        }
        _ => {
            w("f.bc", &"include \"f.bc\"\n".repeat(n));
            w("root.beancount", "include \"f.bc\"\n");
        }
    }
    root
}

/// other things done n times on a small ledger
pub const WORK: &[&str] = &["fragments under one name", "fragments under names of their own", "fragments of one letter of another script"];

fn work(name: &str, n: usize) -> i32 {
    let s = BeancountSources::from("2024-01-01 close Assets:A\n");
    let texts: Vec<(String, String)> = (0..n)
        .map(|i| match name {
            "fragments under one name" => ("made".to_string(), format!("{} close Assets:É{}\n", date(i), i)),
            "fragments under names of their own" => (format!("made {}", i), format!("{} close Assets:A{}\n", date(i), i)),
            _ => ("made".to_string(), "銀".to_string()),
        })
        .collect();
    let m0 = crate::alloc::reset();
    let c0 = rusage_cpu();
    let mut x = lima::SyntheticSources::new(&s);
    let mut last = None;
    for (name, t) in &texts {
        last = Some(x.create_synthetic_span(name, t));
    }
    let cpu = rusage_cpu() - c0;
    let (peak, count) = crate::alloc::peak(m0);
    let ok = last.is_some_and(|l| x.resolve_span(&l).content == texts[n - 1].1);
    println!("cpu {} peak {} allocations {} parses {} as expected {}", cpu, peak, count, ok, ok);
    0
}

/// in a process of its own: load and parse, and with `all` everything else as well
pub fn child(name: &str, n: usize, dir: &str, all: bool) -> i32 {
    let name = name.to_string();
    let dir = dir.to_string();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || body(&name, n, &dir, all)).expect("thread");
    h.join().unwrap_or(3)
}

pub fn rusage_cpu() -> f64 {
    let mut t = [0i64; 2];
    extern "C" {
        fn clock_gettime(c: i32, t: *mut i64) -> i32;
    }
    unsafe { clock_gettime(2, t.as_mut_ptr()) };
    t[0] as f64 + t[1] as f64 / 1e9
}

fn body(name: &str, n: usize, dir: &str, all: bool) -> i32 {
    let (s, expect, c0, m0);
    if let Some(f) = FAMILIES.iter().find(|f| f.0 == name) {
        let t = f.2(n);
        m0 = crate::alloc::reset();
        c0 = rusage_cpu();
        s = BeancountSources::from(t);
        expect = f.1;
    } else if let Some(t) = TREES.iter().find(|t| t.0 == name) {
        let root = format!("{}/root.beancount", dir);
        m0 = crate::alloc::reset();
        c0 = rusage_cpu();
        s = BeancountSources::try_from(std::path::PathBuf::from(root)).expect("load");
        expect = t.1;
    } else if WORK.contains(&name) {
        return work(name, n);
    } else if name == "nothing" {
        return 0;
    } else {
        return 2;
    }
    let p = BeancountParser::new(&s);
    let r = p.parse();
    let cpu = rusage_cpu() - c0;
    let (peak, count) = crate::alloc::peak(m0);
    let mut sink = vec![];
    let ok = match &r {
        Ok(ok) => {
            if all {
                use std::io::Write;
                for d in &ok.directives {
                    let _ = write!(sink, "{}", d);
                    let _ = write!(sink, "{:?}", d);
                }
                for p in &ok.plugins {
                    let _ = write!(sink, "{}", p);
                }
                for d in ok.directives.iter().take(3).chain(ok.directives.last()) {
                    let _ = s.resolve_span(d.span());
                    let _ = s.write_report::<_, lima::ErrorKind, _>(&mut sink, &d.error("x"));
                }
                if let Some(w) = ok.warnings.last() {
                    let _ = s.write_report::<_, lima::WarningKind, _>(&mut sink, w);
                }
            }
            true
        }
        Err(ParseError { errors, .. }) => {
            if errors.is_empty() {
                println!("failed without an error");
                return 1;
            }
            if all {
                for e in errors.iter().take(3).chain(errors.last()) {
                    let _ = s.write_report::<_, lima::ErrorKind, _>(&mut sink, e);
                    let _ = s.error_source_text(e);
                }
            }
            false
        }
    };
    drop(r);
    println!("cpu {} peak {} allocations {} parses {} as expected {}", cpu, peak, count, ok, ok == expect);
    0
}
