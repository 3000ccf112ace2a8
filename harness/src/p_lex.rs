//! Tokens and the text they come from.
use crate::p_any::any;
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{SourceId, Span};

// ---------------------------------------------------------------- C26

/// length of the rest of the line, without its line break
fn rest(t: &str) -> usize {
    t.find('\n').unwrap_or(t.len())
}

/// where in the text between tokens there is something that may not be passed over
fn passed_over(text: &str, a: usize, b: usize) -> Option<usize> {
    let mut i = a;
    while i < b {
        let first = i == 0 || text.as_bytes()[i - 1] == b'\n';
        if first {
            let t = &text[i..];
            if t.starts_with(['*', '!', '&', '#', '?', '%', ':']) || t.trim_start_matches([' ', '\t']).starts_with(':') {
                i += rest(t);
                continue;
            }
        }
        match text.as_bytes()[i] {
            b' ' | b'\t' | b'\n' => i += 1,
            b'\r' if text[i..].starts_with("\r\n") => i += 1,
            b';' => i += rest(&text[i..]),
            _ => return Some(i),
        }
    }
    None
}

fn lexed(ctx: &mut Ctx, text: &str, source: usize) -> R {
    let toks: Vec<(String, Span)> = lima::lex_with_source(SourceId::from(source), text).into_iter().map(|(t, s)| (t.to_string(), Span::from(s))).collect();
    let show = |s: &Span| format!("{}..{} {:?}", s.start, s.end, text.get(s.start..s.end));
    let mut end = 0;
    let mut before = 0;
    let (mut eols, mut indents) = (0, 0);
    let mut any = false;
    for (t, s) in &toks {
        if s.source != source {
            return Err(format!("token of source {} rather than {}", s.source, source));
        }
        if s.start > s.end || text.get(s.start..s.end).is_none() {
            return Err(format!("token {:?} at {}..{} of a text of {} bytes", t, s.start, s.end, text.len()));
        }
        if s.start < before {
            return Err(format!("token {:?} at {} comes after one at {}", t, s.start, before));
        }
        before = s.start;
        match t.as_str() {
            "\\n" => eols += 1,
            "    " => indents += 1,
            _ => {
                if s.start < end || s.start == s.end {
                    return Err(format!("token {:?} {} where the one before ends at {}", t, show(s), end));
                }
                if let Some(p) = passed_over(text, end, s.start) {
                    return Err(format!("{:?} at {} is passed over", &text[p..p + rest(&text[p..])], p));
                }
                let broken = text[end..s.start].contains('\n');
                // a carriage return on its own ends a comment
                let cut = eols < 2 && text[s.start..].starts_with('\r') && text[end..s.start].contains(';');
                if any && eols != broken as usize && !cut {
                    return Err(format!("{} ends of line before token {:?} {}, after {:?}", eols, t, show(s), &text[end..s.start]));
                }
                let line = text[..s.start].rfind('\n').map(|i| i + 1);
                let indented = line.is_some_and(|l| l < s.start && text[l..].starts_with([' ', '\t'])) && broken;
                if any && indents != indented as usize && !cut {
                    return Err(format!("{} indents before token {:?} {}", indents, t, show(s)));
                }
                let slice = &text[s.start..s.end];
                if slice.bytes().all(|b| b.is_ascii_alphabetic()) && t != slice && !t.starts_with("ERROR") {
                    return Err(format!("token {:?} {}", t, show(s)));
                }
                end = s.end;
                any = true;
                eols = 0;
                indents = 0;
                ctx.count("tokens placed");
                if t.starts_with("ERROR") {
                    ctx.count("of them not recognised");
                }
            }
        }
    }
    if let Some(p) = passed_over(text, end, text.len()) {
        return Err(format!("{:?} at {} is passed over", &text[p..p + rest(&text[p..])], p));
    }
    // whether the last line, without a line break, has an end is left open
    if any && eols != 1 && (eols > 1 || text[end..].contains('\n')) {
        return Err(format!("{} ends of line after the last token", eols));
    }
    if any {
        ctx.nontrivial(text);
    }
    Ok(())
}

/// the same with something in it drawn out: indents, gaps, blank lines, comments, words
fn widen(ctx: &mut Ctx, r: &mut Rng, t: &str) -> String {
    let n = *r.pick(&[9, 17, 33, 41, 65, 130, 300, 1100]);
    let which = r.below(6);
    let odds = *r.pick(&[3, 30, 100]);
    let mut out = String::new();
    let mut first = true;
    for c in t.chars() {
        let hit = match which {
            0 => first && (c == ' ' || c == '\t'),
            1 => !first && (c == ' ' || c == '\t'),
            2 => c == '\n',
            3 => c == ';',
            4 => c.is_alphanumeric(),
            _ => c.is_ascii_punctuation(),
        };
        let hit = hit && r.below(100) < odds && out.len() + n < 60_000;
        first = c == '\n';
        out.push(c);
        if hit {
            for _ in 0..n - 1 {
                out.push(if c == ' ' && r.below(50) == 0 { '\t' } else { c });
            }
        }
    }
    ctx.count(["indents drawn out", "gaps drawn out", "blank lines drawn out", "comments drawn out", "words drawn out", "marks drawn out"][which]);
    out
}

pub fn c26(ctx: &mut Ctx, r: &mut Rng) -> R {
    let base = ctx.fresh_dir();
    let a = any(r, &base);
    ctx.count(a.sort);
    let files: Vec<(String, String)> = a.files.iter().map(|(n, t)| (n.clone(), if r.pct(15) { widen(ctx, r, t) } else { t.clone() })).collect();
    for (n, t) in &files {
        ctx.input(n, t);
        if t.len() < 100_000 {
            lexed(ctx, t, r.below(5))?;
        }
    }
    ctx.sample(&files[0].1);
    Ok(())
}
