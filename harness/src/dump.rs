//! Canonical text of everything a parse yields, for comparison across runs, processes and threads.
use crate::observe::*;
use beancount_parser_lima as lima;
use lima::{AccountType, BeancountParser, BeancountSources, ErrorKind, Options, ParseError, Report, Span, WarningKind};
use std::fmt::Write;

pub fn options(o: &Options) -> Vec<(String, String, Option<Span>)> {
    let mut v: Vec<(String, String, Option<Span>)> = vec![];
    for (n, t) in [
        ("name_assets", AccountType::Assets),
        ("name_liabilities", AccountType::Liabilities),
        ("name_equity", AccountType::Equity),
        ("name_income", AccountType::Income),
        ("name_expenses", AccountType::Expenses),
    ] {
        let s: &str = o.account_type_name(t).as_ref();
        v.push((n.into(), s.to_string(), None));
    }
    macro_rules! single {
        ($name:expr, $e:expr, $f:expr) => {
            if let Some(x) = $e {
                v.push(($name.to_string(), $f(x.item()), Some(*x.span())));
            }
        };
    }
    single!("title", o.title(), |x: &&str| x.to_string());
    single!("account_previous_balances", o.account_previous_balances(), |x: &lima::Subaccount| x.to_string());
    single!("account_previous_earnings", o.account_previous_earnings(), |x: &lima::Subaccount| x.to_string());
    single!("account_previous_conversions", o.account_previous_conversions(), |x: &lima::Subaccount| x.to_string());
    single!("account_current_earnings", o.account_current_earnings(), |x: &lima::Subaccount| x.to_string());
    single!("account_current_conversions", o.account_current_conversions(), |x: &lima::Subaccount| x.to_string());
    single!("account_unrealized_gains", o.account_unrealized_gains(), |x: &lima::Subaccount| x.to_string());
    single!("account_rounding", o.account_rounding(), |x: &lima::Subaccount| x.to_string());
    single!("conversion_currency", o.conversion_currency(), |x: &lima::Currency| x.as_ref().to_string());
    single!("inferred_tolerance_multiplier", o.inferred_tolerance_multiplier(), dec);
    single!("infer_tolerance_from_cost", o.infer_tolerance_from_cost(), |x: &bool| x.to_string());
    single!("render_commas", o.render_commas(), |x: &bool| x.to_string());
    single!("booking_method", o.booking_method(), booking);
    single!("plugin_processing_mode", o.plugin_processing_mode(), |x: &lima::PluginProcessingMode| format!("{:?}", x).to_lowercase());
    single!("long_string_maxlines", o.long_string_maxlines(), |x: &usize| x.to_string());
    let mut many: Vec<(String, String, Option<Span>)> = vec![];
    for d in o.documents() {
        many.push(("documents".into(), d.to_string_lossy().into(), None));
    }
    for c in o.operating_currency() {
        many.push(("operating_currency".into(), c.as_ref().to_string(), None));
    }
    for (c, d) in o.inferred_tolerance_defaults() {
        many.push(("inferred_tolerance_default".into(), format!("{} {}", c.map(|c| c.as_ref().to_string()).unwrap_or("*".into()), dec(&d)), None));
    }
    many.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    v.extend(many);
    v
}

fn sp(s: &BeancountSources, x: &Span) -> String {
    let r = s.resolve_span(x);
    format!("{}..{}@{:?}:{}-{}", x.start, x.end, r.file_name, r.start_line, r.end_line)
}

pub fn report<R: Report>(s: &BeancountSources, e: &R, kind: &str, rendered: &str) -> String {
    let mut o = format!("{} {:?} {:?} {}", kind, e.message(), e.reason(), sp(s, &e.span()));
    for (l, x) in e.contexts() {
        let _ = write!(o, " in {:?} {}", l, sp(s, &x));
    }
    for (l, x) in e.related() {
        let _ = write!(o, " rel {:?} {}", l, sp(s, &x));
    }
    o.push('\n');
    o.push_str(rendered);
    o
}

pub fn outcome(s: &BeancountSources, p: &BeancountParser, render: bool) -> String {
    let res = p.parse();
    let mut out = String::new();
    let warnings = match &res {
        Ok(ok) => {
            for d in directives(ok) {
                let _ = writeln!(out, "DIRECTIVE {}", sp(s, &d.span));
                let mut f: Vec<String> =
                    d.facts.iter().map(|f| format!("  {} = {} {}", f.path, f.val, f.span.map(|x| sp(s, &x)).unwrap_or_default())).collect();
                f.sort();
                for l in f {
                    let _ = writeln!(out, "{}", l);
                }
            }
            for pl in &ok.plugins {
                for f in plugin(pl) {
                    let _ = writeln!(out, "PLUGIN {} = {} {}", f.path, f.val, f.span.map(|x| sp(s, &x)).unwrap_or_default());
                }
            }
            for (n, v, x) in options(&ok.options) {
                let _ = writeln!(out, "OPTION {} = {} {}", n, v, x.map(|x| sp(s, &x)).unwrap_or_default());
            }
            &ok.warnings
        }
        Err(ParseError { errors, warnings }) => {
            let mut v: Vec<String> = errors
                .iter()
                .map(|e| {
                    let mut b = vec![];
                    if render {
                        let _ = s.write_report::<_, ErrorKind, _>(&mut b, e);
                    }
                    report(s, e, "ERROR", &String::from_utf8_lossy(&b))
                })
                .collect();
            v.sort();
            for l in v {
                let _ = writeln!(out, "{}", l);
            }
            warnings
        }
    };
    let mut v: Vec<String> = warnings
        .iter()
        .map(|e| {
            let mut b = vec![];
            if render {
                let _ = s.write_report::<_, WarningKind, _>(&mut b, e);
            }
            report(s, e, "WARNING", &String::from_utf8_lossy(&b))
        })
        .collect();
    v.sort();
    for l in v {
        let _ = writeln!(out, "{}", l);
    }
    out
}

pub fn main(path: &str) -> i32 {
    match BeancountSources::try_from(std::path::PathBuf::from(path)) {
        Err(e) => println!("LOAD ERROR {}", e),
        Ok(s) => {
            let p = BeancountParser::new(&s);
            print!("{}", outcome(&s, &p, true));
        }
    }
    0
}
