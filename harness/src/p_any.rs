//! Ledgers of every sort: well formed, broken, mutated, faulty trees, noise.
use crate::emit::*;
use crate::model::*;
use crate::p_errors::malformed;
use crate::p_files::{Extra, World};
use crate::p_include;
use crate::p_model::*;
use crate::rng::Rng;
use beancount_parser_lima as lima;
use lima::BeancountSources;

pub const CORPUS: &str = include_str!("../corpus.txt");

pub fn corpus(r: &mut Rng) -> &'static str {
    let v: Vec<&str> = CORPUS.split("\u{1e}\n").collect();
    v[r.below(v.len())]
}

pub struct Any {
    pub files: Vec<(String, String)>,
    pub root: Option<String>,
    pub sort: &'static str,
}

impl Any {
    pub fn load(&self) -> std::io::Result<BeancountSources> {
        match &self.root {
            Some(p) => BeancountSources::try_from(std::path::PathBuf::from(p)),
            None => Ok(BeancountSources::from(self.files[0].1.as_str())),
        }
    }
    pub fn text(&self) -> String {
        self.files.iter().map(|f| format!("{}\n{}", f.0, f.1)).collect()
    }
}

pub const FRAGS: &[&str] = &[
    "2024-01-01", "2024/02/30", "2024-13-01", "0000-00-00", "9999-12-31", "99999-01-01", "2024-1-1", "12:30", "\"x\"", "\"", "\"\\\"", "\"\\u{110000}\"", "\"\\q\"", "\"é\"", "\"a\nb\"", "Assets:A", "Assets", "Assets:", ":A",
    "Équity:É", "资产:银行", "Expenses:Food:Drink", "USD", "US", "A", "/6J", "NT.TO", "TRUE", "FALSE", "NULL", "100", "1,000.00", "1,00", "1.", ".5", "-", "+", "*", "/", "(", ")", "((", "0", "1/0", "79228162514264337593543950335",
    "79228162514264337593543950336", "0.0000000000000000000000000001", "{", "}", "{{", "}}", "{}", "@", "@@", "~", ",", "#", "##", "^", "^link", "#tag", "#é", "txn", "open", "close", "balance", "pad", "note", "document", "event", "query",
    "custom", "price", "commodity", "option", "include", "plugin", "pushtag", "poptag", "pushmeta", "popmeta", "key:", "k:", "key: ", "Key:", "!", "&", "?", "%", "'A", "'", "|", ";", "; comment", "*", "* heading\n", "\n", "\n", "\n  ", "\n\t",
    "\r\n", "\r", "  ", "\t", "", "\u{feff}", "\u{a0}", "\u{2028}", "é", "😀", "٣", "٢٠٢٤-٠١-٠١", "１２", "\0", "\u{7f}", "$", "€", "=", "\\", "`", "\u{301}", "\u{10ffff}", "::", ":", ".", "_", "option \"title\" \"x\"\n",
    "option \"name_assets\" \"X\"\n", "option \"long_string_maxlines\" \"1\"\n", "include \"x\"\n", "include \"*\"\n", "include \"\"\n", "pushtag #a\n", "poptag #a\n", "pushmeta aa: 1\n", "popmeta aa:\n", "2024-01-01 *\n", "  Assets:A 1 USD\n",
    "  Assets:A 1 USD {2 # 3 EUR, 2020-01-01, \"l\", *} @@ 4 GBP\n", "  key: \"v\"\n", "    #t ^l\n", "2024-01-01 balance Assets:A 1 ~ 2 USD\n", "2024-01-01 custom \"x\" 1 USD TRUE 2020-01-01 Assets:A \"y\"\n", "2024-01-01 open Assets:A USD,EUR \"STRICT\"\n",
];

pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(FRAGS));
        s.push_str(r.pick(&["", " ", " ", " ", "\n", "\n  "]));
    }
    s
}

pub fn noise(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(8) {
            0..=3 => char::from_u32(r.below(128) as u32),
            4 => char::from_u32(0x80 + r.below(0x800) as u32),
            5 => char::from_u32(r.below(0x3000) as u32),
            _ => char::from_u32(r.below(0x110000) as u32),
        };
        s.push(c.unwrap_or('\u{fffd}'));
    }
    s
}

fn cut_at(r: &mut Rng, s: &str) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut s = t.to_string();
    for _ in 0..1 + r.few(8) {
        let i = cut_at(r, &s);
        let j = cut_at(r, &s);
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        match r.below(10) {
            0 => s.truncate(a),
            1 => s = s[a..].to_string(),
            2 => {
                // a character less
                if let Some(c) = s[a..].chars().next() {
                    s.replace_range(a..a + c.len_utf8(), "");
                }
            }
            3 => s.insert_str(a, r.pick(FRAGS)),
            4 => {
                let n = r.range(1, 3);
                s.insert_str(a, &noise(r, n))
            }
            5 if b - a < 400 => {
                let d = s[a..b].to_string();
                s.insert_str(b, &d);
            }
            6 if b - a < 200 => s.replace_range(a..b, ""),
            7 => {
                // a line elsewhere
                let lines: Vec<&str> = s.split_inclusive('\n').collect();
                let l = lines.get(r.below(lines.len())).unwrap_or(&"").to_string();
                s.insert_str(a, &l);
            }
            8 => {
                if let Some(c) = s[a..].chars().next() {
                    let rep = r.pick(&["é", "😀", "\"", "\n", " ", "0", "\\", "(", "{", "#", ":", ";", "\u{a0}", "٣"]).to_string();
                    s.replace_range(a..a + c.len_utf8(), &rep);
                }
            }
            _ => {
                let o = corpus(r);
                let k = cut_at(r, o);
                s = format!("{}{}", &s[..a], &o[k..]);
            }
        }
        if s.len() > 20000 {
            let k = cut_at(r, &s);
            s.truncate(k);
        }
    }
    s
}

/// no absolute paths but our own: nobody knows what a pattern might find
fn tame(t: &str, base: &str) -> String {
    if !t.contains("include") || !t.contains("\"/") {
        return t.to_string();
    }
    let own = format!("\"{}/", base);
    t.replace(&own, "\u{1}").replace("\"/", "\"x/").replace('\u{1}', &own)
}

/// big or deep, within what is known to be supported
pub fn large(r: &mut Rng) -> String {
    let n = *r.pick(&[50, 200, 500]);
    match r.below(14) {
        0 => format!("2024-01-01 price A {}1{} USD\n", "(".repeat(n), ")".repeat(n)),
        1 => format!("2024-01-01 price A {}1 USD\n", "-".repeat(n)),
        2 => format!("2024-01-01 price A 1{} USD\n", " + 1".repeat(n)),
        3 => format!("2024-01-01 open Assets{}\n", ":A".repeat(n)),
        4 => format!("2024-01-01 *\n{}", "  Assets:A 1 USD\n".repeat(n)),
        5 => format!("2024-01-01 event \"a\" \"b\"\n{}", (0..n).map(|i| format!("  kk{}: {}\n", i, i)).collect::<String>()),
        6 => format!("2024-01-01 * \"{}\"\n", "x\n".repeat(n)),
        7 => "pushtag #x\n".repeat(n) + &"poptag #x\n".repeat(n),
        8 => (0..n).map(|i| format!("pushmeta kk{}: 1\n", i % 7)).collect::<String>(),
        9 => "x y z\n".repeat(n),
        10 => "\"".repeat(n),
        11 => format!("2024-01-01 custom \"x\" {}\n", "1 USD TRUE ".repeat(n)),
        12 => format!("2024-01-01 *\n  Assets:A 1 USD {{{}}}\n", vec!["1"; n].join(", ")),
        _ => format!("2024-01-01 price A {} USD\n", "9".repeat(n)),
    }
}

const ODD: &[&str] = &["é", "É", "银", "😀", "\u{301}", "٣", "３", "Ǆ", "ß", "ﬀ", "\u{a0}", "\u{2028}", "\u{feff}", "\u{200d}", "\0", "\u{7f}", "\u{10ffff}", "İ", "ſ", "K", "-", ":", ".", ",", "'", "/", "_", "0", "9", "a", "Z", " ", "\t", "#", "^", "*", "\\\\", "\\n", "\\\""];

/// some text with characters changed for others, one to four bytes each
pub fn bend(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..1 + r.few(3) {
        let i = r.below(c.len() + 1);
        match r.below(8) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 if i < c.len() => {
                let d = c[i].clone();
                c.insert(i, d);
            }
            2 => c.truncate(i),
            3..=5 if i < c.len() => c[i] = r.pick(ODD).to_string(),
            6 => {
                // as many bytes as before
                let n: usize = c.iter().map(|x| x.len()).sum();
                let o = *r.pick(&["é", "银", "😀", "a"]);
                let left = n.saturating_sub(o.len());
                let mut v = vec![o.to_string()];
                v.extend(std::iter::repeat_n("x".to_string(), left));
                if r.pct(50) {
                    v.rotate_left(1);
                }
                c = v;
            }
            _ => c.insert(i, r.pick(ODD).to_string()),
        }
    }
    c.concat()
}

const OPTIONS: &[&str] = &[
    "title", "name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses", "account_previous_balances", "account_previous_earnings", "account_previous_conversions", "account_current_earnings",
    "account_current_conversions", "account_unrealized_gains", "account_rounding", "conversion_currency", "inferred_tolerance_default", "inferred_tolerance_multiplier", "infer_tolerance_from_cost", "documents", "operating_currency",
    "render_commas", "long_string_maxlines", "booking_method", "plugin_processing_mode", "insert_pythonpath", "allow_pipe_separator", "tolerance_multiplier",
];
const VALUES: &[&str] = &[
    "TRUE", "FALSE", "true", "false", "1", "0", "STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO", "default", "raw", "USD:0.5", "*:0.1", "USD:", ":0.1", "USD:0.1:0.2", ":", "Equity:Opening", "A:B:C", "A", "64", "-1",
    "18446744073709551615", "18446744073709551616", "0.5", "1e5", ".5", "79228162514264337593543950335", "", "Assets", "Aktiva", "USD", "US", "NT.TO", "/6J", "path/to", "../x", "/", "x",
];
const TEMPLATES: &[&str] = &[
    "option \"<o>\" \"<v>\"\n", "option \"<o>\" \"<v>\"\n", "option \"<o>\" \"<v>\"\n", "<d> open <a> <c>, <c> \"<v>\"\n", "<d> open <a> <c>\n", "<d> close <a>\n", "<d> balance <a> <n> ~ <n> <c>\n", "<d> price <c> <n> <c>\n", "<d> pad <a> <a>\n",
    "<d> note <a> \"<v>\" #<t> ^<t>\n", "<d> document <a> \"<v>\"\n", "<d> event \"<v>\" \"<v>\"\n", "<d> query \"<v>\" \"<v>\"\n", "<d> custom \"<v>\" <n> <c> <a> <d> TRUE #<t> \"<v>\"\n", "<d> commodity <c>\n  <k>: <n>\n",
    "<d> <f> \"<v>\" \"<v>\" #<t> ^<t>\n  <k>: \"<v>\"\n  <f> <a> <n> <c> {<n> # <n> <c>, <d>, \"<v>\"} @@ <n> <c>\n    <k>: <a>\n  <a>\n", "<d> * \"<v>\"\n  <a> -<n> <c> @ <n>\n  <k>: <c>\n  #<t>\n", "pushtag #<t>\n", "poptag #<t>\n",
    "pushmeta <k>: \"<v>\"\n", "popmeta <k>:\n", "plugin \"<v>\" \"<v>\"\n", "include \"<v>\"\n", "<f> <v>\n", "<k>: <n>\n",
];

pub fn bent_option(r: &mut Rng) -> String {
    let o = r.pick(OPTIONS);
    let v = r.pick(VALUES);
    format!("option \"{}\" \"{}\"\n", o, bend(r, v))
}

/// proper lines, with what stands in them bent
pub fn bent(r: &mut Rng, lines: usize) -> String {
    let mut o = String::new();
    for _ in 0..lines {
        let t = r.pick(TEMPLATES);
        let mut rest = *t;
        let often = *r.pick(&[10, 30, 100]);
        while let Some(i) = rest.find('<') {
            o.push_str(&rest[..i]);
            let x = match &rest[i + 1..i + 2] {
                "o" => r.pick(OPTIONS),
                "v" => r.pick(VALUES),
                "d" => r.pick(&["2024-01-01", "2024/12/31", "0001-01-01", "9999-12-31", "2024-02-29"]),
                "a" => r.pick(&["Assets:A", "Assets:Bank:Checking", "Income:X1", "Aktiva:B", "Equity:Opening-Balances"]),
                "c" => r.pick(&["USD", "EUR", "NT.TO", "/6J", "A"]),
                "n" => r.pick(&["1", "1,234.50", "0.00", "(1 + 2) * 3", "-5", "79228162514264337593543950335", "1/3", "0.0000000000000000000000000001"]),
                "t" => r.pick(&["tag", "a-b", "2024.01", "x/y", "_"]),
                "k" => r.pick(&["key", "a1", "some-key_x", "aa"]),
                _ => r.pick(&["*", "!", "txn", "P", "'A", "?", "%", "&", "#"]),
            };
            if r.pct(often) && x.len() < 60 {
                o.push_str(&bend(r, x));
            } else {
                o.push_str(x);
            }
            rest = &rest[i + 3..];
        }
        o.push_str(rest);
    }
    o
}

/// what loading a file has to cope with
pub fn any(r: &mut Rng, base: &str) -> Any {
    let one = |t: String, sort: &'static str| Any { files: vec![("ledger".into(), t)], root: None, sort };
    let _ = std::env::set_current_dir(base);
    let mut g = gen_profile(r);
    g.max_items = *r.pick(&[2, 5, 10]);
    g.long_strings = r.pct(20);
    let mut a = match r.below(14) {
        0 | 1 => {
            // well formed, perhaps over several files, perhaps with something malformed
            let mut items = g.items(r);
            if r.pct(40) {
                for _ in 0..r.range(1, 3) {
                    let (t, _) = malformed(r, &g);
                    let at = r.below(items.len() + 1);
                    items.insert(at, Item::Raw(t));
                }
            }
            if r.pct(30) {
                for _ in 0..r.range(1, 3) {
                    let at = r.below(items.len() + 1);
                    items.insert(
                        at,
                        match r.below(5) {
                            0 => Item::PopTag(g.tag(r)),
                            1 => Item::PushTag(g.tag(r)),
                            2 => Item::PushMeta(g.key(r), g.mv(r)),
                            3 => Item::PopMeta(g.key(r)),
                            _ => Item::Opt(Lit::plain(r.pick(&["title", "operating_currency", "documents", "booking_method", "nope", "name_income", "long_string_maxlines"])), Lit::plain(r.pick(&["USD", "x", "Aktiva", "2", "FIFO"]))),
                        },
                    );
                }
            }
            let style = if r.pct(50) { Style::canonical() } else { Style::random(r) };
            if r.pct(40) {
                let m = p_include::split(r, items);
                let files: Vec<EFile> = m.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
                p_include::write(base, &files);
                return Any { root: Some(format!("{}/{}", base, files[0].path)), files: files.into_iter().map(|f| (f.path, f.text)).collect(), sort: "over several files" };
            }
            let f = Printer::new(&style).file(r, 0, &one_file(items));
            one(f.text, "from the model")
        }
        2 | 3 => {
            // include graphs
            let g = Gen { expr_depth: 0, ..g };
            let faults = if r.pct(40) { 0 } else { 70 };
            let mut w = World::new(&g, base, false, r.pct(50), faults, *r.pick(&[2, 5, 9]));
            w.fill(r, 0, 0, false);
            let style = Style::canonical();
            let mut files: Vec<EFile> = w.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
            let mutated = r.pct(40);
            if mutated {
                let i = r.below(files.len());
                files[i].text = tame(&mutate(r, &files[i].text), base);
            }
            w.write(&files);
            let mut v: Vec<(String, String)> = files.into_iter().map(|f| (f.path, f.text)).collect();
            v.push(("world".into(), w.extra.iter().map(|(p, e)| format!("{} {}\n", p, match e { Extra::Bytes(b) => format!("{} bytes", b.len()), Extra::Dir => "dir".into(), Extra::Link(t) => format!("-> {}", t) })).collect()));
            return Any { root: Some(format!("{}/root.beancount", base)), files: v, sort: if mutated { "include graph, mutated" } else { "include graph" } };
        }
        4 => one(corpus(r).to_string(), "from the corpus"),
        5 | 6 => {
            let c = corpus(r);
            one(mutate(r, c), "from the corpus, mutated")
        }
        7 | 8 => {
            let style = if r.pct(50) { Style::canonical() } else { Style::random(r) };
            let items = g.items(r);
            let f = Printer::new(&style).file(r, 0, &one_file(items));
            one(mutate(r, &f.text), "from the model, mutated")
        }
        9 => {
            let n = r.range(1, 40);
            one(soup(r, n), "tokens at random")
        }
        10 | 11 => {
            let n = r.range(1, 6);
            one(bent(r, n), "proper lines, bent")
        }
        12 => {
            let n = r.range(0, 60);
            one(noise(r, n), "characters at random")
        }
        _ => {
            let t = large(r);
            if r.pct(30) {
                one(mutate(r, &t), "large, mutated")
            } else {
                one(t, "large")
            }
        }
    };
    a.files[0].1 = tame(&a.files[0].1, base);
    if r.pct(25) {
        let p = format!("{}/single.beancount", base);
        std::fs::write(&p, &a.files[0].1).expect("write");
        a.root = Some(p);
    }
    a
}
