//! Ledgers over several files.
use crate::emit::*;
use crate::model::*;
use crate::rng::Rng;

/// Spread the items over files by includes, keeping their order of declaration.
pub fn split(r: &mut Rng, items: Vec<Item>) -> Ledger {
    let mut files: Vec<FileM> = vec![FileM { path: "root.beancount".into(), items: vec![] }];
    let mut n = 0usize;
    let body = cut(r, items, "", &mut files, 0, &mut n);
    files[0].items = body;
    Ledger { files }
}

/// Each item in a file of its own: side by side, or each included by the one before.
pub fn many(r: &mut Rng, items: Vec<Item>) -> Ledger {
    let mut files: Vec<FileM> = vec![FileM { path: "root.beancount".into(), items: vec![] }];
    let deep = r.pct(50);
    let mut at = 0;
    for x in items {
        let k = files.len();
        let name = format!("f{}.beancount", k);
        files.push(FileM { path: name.clone(), items: vec![x] });
        files[at].items.push(Item::Include(Lit::plain(&name), vec![k]));
        if deep {
            at = k;
        }
    }
    Ledger { files }
}

fn cut(r: &mut Rng, items: Vec<Item>, dir: &str, files: &mut Vec<FileM>, depth: usize, n: &mut usize) -> Vec<Item> {
    if items.is_empty() || depth > 3 || *n > 12 {
        return items;
    }
    let mut out = vec![];
    let mut rest = items.into_iter().peekable();
    while rest.peek().is_some() {
        if r.pct(if depth == 0 { 25 } else { 12 }) && *n <= 12 {
            // a run of items goes to a file of its own
            let k = r.range(0, 5);
            let mut run = vec![];
            for _ in 0..k {
                if let Some(x) = rest.next() {
                    run.push(x);
                }
            }
            *n += 1;
            let sub = match r.below(5) {
                0 => format!("{}d{}/", dir, *n),
                1 if !dir.is_empty() => format!("{}../", dir),
                _ => dir.to_string(),
            };
            let name = match r.below(6) {
                0 => format!("f{} x.beancount", n),
                1 => format!("f{}-é.bean", n),
                2 => format!("F{}", n),
                _ => format!("f{}.beancount", n),
            };
            let path = normalize(&format!("{}{}", sub, name));
            let rel = relative(r, dir, &path);
            let idx = files.len();
            files.push(FileM { path: path.clone(), items: vec![] });
            let subdir = path.rsplit_once('/').map(|(d, _)| format!("{}/", d)).unwrap_or_default();
            let body = cut(r, run, &subdir, files, depth + 1, n);
            files[idx].items = body;
            out.push(Item::Include(Lit::escaped(&rel), vec![idx]));
        } else {
            out.push(rest.next().unwrap());
        }
    }
    out
}

pub fn normalize(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    out.join("/")
}

/// path of a file (relative to the ledger's directory) as seen from `dir` (likewise, with trailing slash)
pub fn relative(r: &mut Rng, dir: &str, path: &str) -> String {
    let d: Vec<&str> = dir.split('/').filter(|c| !c.is_empty()).collect();
    let p: Vec<&str> = path.split('/').collect();
    let mut common = 0;
    while common < d.len() && common + 1 < p.len() && d[common] == p[common] {
        common += 1;
    }
    let mut out: Vec<String> = vec!["..".to_string(); d.len() - common];
    out.extend(p[common..].iter().map(|s| s.to_string()));
    let s = out.join("/");
    if r.pct(10) {
        format!("./{}", s)
    } else {
        s
    }
}

pub fn write(dir: &str, files: &[EFile]) {
    for f in files {
        let p = format!("{}/{}", dir, f.path);
        if let Some((d, _)) = p.rsplit_once('/') {
            std::fs::create_dir_all(d).expect("mkdir");
        }
        std::fs::write(&p, &f.text).expect("write ledger");
    }
}
