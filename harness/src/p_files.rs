//! Include graphs, spellings of paths and file faults. The files are generated in the order in which
//! they are expanded, so that what every include has to do is known as it is written.
use crate::emit::*;
use crate::model::*;
use crate::observe::*;
use crate::p_include::relative;
use crate::p_model::*;
use crate::p_values::{file_of, overlaps};
use crate::rng::Rng;
use crate::sup::{Ctx, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources, Report};
use std::collections::HashMap;
use std::os::unix::fs::symlink;

pub enum Extra {
    Bytes(Vec<u8>),
    Dir,
    Link(String),
}

pub struct World<'g> {
    g: &'g Gen,
    pub base: String,
    pub files: Vec<FileM>,
    pub inline: bool,
    tags: Vec<String>,
    metas: Vec<(String, String)>,
    first: HashMap<usize, String>,
    /// includes that have to be reported: file, item, why
    pub bad: Vec<(usize, usize, &'static str)>,
    /// files expanded by one pattern, in an order left open
    pub groups: Vec<Vec<usize>>,
    pub extra: Vec<(String, Extra)>,
    pub flat: Vec<Item>,
    ids: usize,
    budget: usize,
    one_date: bool,
    faults: usize,
    pub seen: Vec<&'static str>,
}

const DIRS: &[&str] = &["", "", "d1/", "d1/d2/", "e[1]/", "x y/", "é银/", "d3/", "q*/", ".h/"];
const NAMES: &[&str] = &["f1.beancount", "f2.beancount", "f1.bean", "x y.beancount", "é.beancount", "F", "it's", "a;b", "#x", "q\"q", "b\\c", "[z].beancount", "w*", "f1", ".hid.beancount", "s?t"];

pub fn pattern_escape(p: &str) -> String {
    p.chars()
        .map(|c| match c {
            '[' | ']' | '*' | '?' => format!("[{}]", c),
            c => c.to_string(),
        })
        .collect()
}

fn dir_of(path: &str) -> String {
    path.rsplit_once('/').map(|(d, _)| format!("{}/", d)).unwrap_or_default()
}

impl World<'_> {
    pub fn new<'g>(g: &'g Gen, base: &str, inline: bool, one_date: bool, faults: usize, budget: usize) -> World<'g> {
        World {
            g,
            base: base.to_string(),
            files: vec![FileM { path: "root.beancount".into(), items: vec![] }],
            inline,
            tags: vec![],
            metas: vec![],
            first: HashMap::new(),
            bad: vec![],
            groups: vec![],
            extra: vec![],
            flat: vec![],
            ids: 0,
            budget,
            one_date,
            faults,
            seen: vec![],
        }
    }
    fn context(&self) -> String {
        let mut t = self.tags.clone();
        t.sort();
        let mut m = self.metas.clone();
        m.sort();
        format!("{:?}{:?}", t, m)
    }
    fn put(&mut self, i: usize, it: Item) {
        self.flat.push(it.clone());
        self.files[i].items.push(it);
    }
    pub fn taken(&self, p: &str) -> bool {
        self.files.iter().any(|f| f.path == p || f.path.starts_with(&format!("{}/", p)) || p.starts_with(&format!("{}/", f.path)))
            || self.extra.iter().any(|x| x.0 == p || x.0.starts_with(&format!("{}/", p)) || (p.starts_with(&format!("{}/", x.0)) && !matches!(x.1, Extra::Dir)))
    }
    fn fresh(&mut self, r: &mut Rng, names: &[&str]) -> Option<String> {
        for _ in 0..8 {
            let p = format!("{}{}", r.pick(DIRS), r.pick(names));
            if !self.taken(&p) {
                return Some(p);
            }
        }
        None
    }
    fn add(&mut self, r: &mut Rng, path: &str, e: Extra) {
        let _ = r;
        if !self.extra.iter().any(|x| x.0 == path) {
            self.extra.push((path.to_string(), e));
        }
    }
    /// how the file at `path` is written in an include of file `i`
    fn spelling(&mut self, r: &mut Rng, i: usize, path: &str) -> String {
        let from = dir_of(&self.files[i].path);
        let mut p = path.to_string();
        // through another name of its directory, or of itself in the same directory
        if r.pct(15) {
            let d = dir_of(path);
            if !d.is_empty() {
                let ln = format!("ln{}", d.replace('/', "_").replace(['[', ']', '*', '.'], ""));
                self.add(r, &ln, Extra::Link(format!("{}/{}", self.base, d.trim_end_matches('/'))));
                p = format!("{}/{}", ln, &path[d.len()..]);
                self.seen.push("through a linked directory");
            }
        } else if r.pct(10) {
            let d = dir_of(path);
            let ln = format!("{}sym{}", d, path.len());
            let target = path[d.len()..].to_string();
            let same = self.extra.iter().any(|x| x.0 == ln && matches!(&x.1, Extra::Link(t) if *t == target));
            if same || !self.taken(&ln) {
                self.add(r, &ln, Extra::Link(target));
                p = ln;
                self.seen.push("through a link");
            }
        }
        let whole = self.inline && i == 0 || r.pct(12);
        let last_plain = |s: &str| s.rsplit('/').next().unwrap_or("").chars().next().is_some_and(|c| c.is_ascii_alphanumeric());
        let bracket = r.pct(12) && last_plain(&p);
        let esc = |s: &str| {
            let e = pattern_escape(s);
            if bracket {
                let (d, n) = match e.rsplit_once('/') {
                    Some((d, n)) => (format!("{}/", d), n.to_string()),
                    None => (String::new(), e.clone()),
                };
                let mut c = n.chars();
                let f = c.next().unwrap();
                format!("{}[{}]{}", d, f, c.as_str())
            } else {
                e
            }
        };
        if bracket {
            self.seen.push("by a pattern for one file");
        }
        if whole {
            self.seen.push("by an absolute path");
            return esc(&format!("{}/{}", self.base, p));
        }
        let mut s = esc(&relative(r, &from, &p));
        if r.pct(12) {
            // down and up again
            self.add(r, &format!("{}updown", from), Extra::Dir);
            s = format!("updown/../{}", s);
            self.seen.push("down and up again");
        }
        s
    }
    fn include(&mut self, i: usize, s: &str, targets: Vec<usize>) {
        self.files[i].items.push(Item::Include(Lit::escaped(s), targets));
    }
    fn fails(&mut self, i: usize, s: &str, why: &'static str) {
        self.include(i, s, vec![]);
        self.bad.push((i, self.files[i].items.len() - 1, why));
    }

    pub fn fill(&mut self, r: &mut Rng, i: usize, depth: usize, leaf: bool) {
        self.first.insert(i, self.context());
        let steps = r.range(0, if depth == 0 { 12 } else { 6 });
        let (t0, m0) = (self.tags.clone(), self.metas.clone());
        for _ in 0..steps {
            match r.below(14) {
                0 | 1 => {
                    let t = r.pick(&["p1", "p2", "p3"]).to_string();
                    if let Some(k) = self.tags.iter().position(|x| *x == t) {
                        if !leaf {
                            self.tags.remove(k);
                            self.put(i, Item::PopTag(t));
                        }
                    } else {
                        self.tags.push(t.clone());
                        self.put(i, Item::PushTag(t));
                    }
                }
                2 => {
                    let k = r.pick(&["ka", "kb"]).to_string();
                    if let Some(n) = self.metas.iter().position(|x| x.0 == k) {
                        if !leaf {
                            self.metas.remove(n);
                            self.put(i, Item::PopMeta(k));
                        }
                    } else {
                        let v = r.pick(&["v1", "v2", "é"]).to_string();
                        self.metas.push((k.clone(), v.clone()));
                        self.put(i, Item::PushMeta(k, MV::Str(Lit::plain(&v))));
                    }
                }
                3 if !leaf => {
                    let p = Lit::plain(&format!("plug{}", self.flat.len()));
                    self.put(i, Item::Plugin(p, None));
                }
                4..=6 if !leaf && depth < 6 && self.budget > 0 => {
                    // a file not seen before
                    if let Some(p) = self.fresh(r, NAMES) {
                        self.budget -= 1;
                        let n = self.files.len();
                        self.files.push(FileM { path: p.clone(), items: vec![] });
                        let s = self.spelling(r, i, &p);
                        self.include(i, &s, vec![n]);
                        self.fill(r, n, depth + 1, false);
                    }
                }
                7 if !leaf && self.one_date && self.budget > 2 => self.group(r, i, depth),
                8 if !leaf => {
                    // one seen before, perhaps still open
                    let j = if r.pct(15) { i } else { r.below(self.files.len()) };
                    let p = self.files[j].path.clone();
                    if j == 0 {
                        if self.inline || !r.pct(self.faults) {
                            continue;
                        }
                        let s = self.spelling(r, i, &p);
                        self.fails(i, &s, "the root again");
                    } else if !self.first.contains_key(&j) {
                        continue;
                    } else if self.first[&j] == self.context() {
                        let s = self.spelling(r, i, &p);
                        self.include(i, &s, vec![j]);
                        self.seen.push("repeated in the same context");
                    } else if r.pct(self.faults) {
                        let s = self.spelling(r, i, &p);
                        self.fails(i, &s, "repeated in another context");
                    }
                }
                9 if !leaf && r.pct(self.faults) => self.fault(r, i),
                _ => {
                    let mut d = self.g.dir(r);
                    if self.one_date {
                        d.date = D { y: 2024, m: 5, d: 1 };
                    }
                    d.inline.truncate(1);
                    d.meta.clear();
                    d.meta.push(MetaItem::KV("zzid".into(), MV::Str(Lit::plain(&self.ids.to_string()))));
                    self.ids += 1;
                    self.put(i, Item::Dir(d));
                }
            }
        }
        if leaf || depth == 0 || r.pct(60) {
            // put the context back
            while self.tags != t0 {
                let k = self.tags.iter().position(|t| !t0.contains(t));
                match k {
                    Some(k) => {
                        let t = self.tags.remove(k);
                        self.put(i, Item::PopTag(t));
                    }
                    None => break,
                }
            }
            while self.metas != m0 {
                let k = self.metas.iter().position(|t| !m0.contains(t));
                match k {
                    Some(k) => {
                        let t = self.metas.remove(k).0;
                        self.put(i, Item::PopMeta(t));
                    }
                    None => break,
                }
            }
        }
        if depth == 0 {
            for t in std::mem::take(&mut self.tags) {
                self.put(i, Item::PopTag(t));
            }
            for (k, _) in std::mem::take(&mut self.metas) {
                self.put(i, Item::PopMeta(k));
            }
        }
    }

    /// several files at once
    fn group(&mut self, r: &mut Rng, i: usize, depth: usize) {
        let k = self.extra.len() + self.files.len();
        let dir = format!("{}g{}/", r.pick(&["", "d1/", "é银/", "e[1]/"]), k);
        let deep = r.pct(30);
        let n = r.range(2, 4);
        let tail = if deep { *r.pick(&["**/m*.bc", "**/m?.bc"]) } else { *r.pick(&["m*.bc", "m?.bc", "m[0-9].bc", "m[!a].bc", "*.b[c]", "m*"]) };
        let mut members = vec![];
        for m in 0..n {
            let sub = if deep && r.pct(50) { *r.pick(&["a/", "b/", "a/c/"]) } else { "" };
            // any name at all counts when the pattern says so
            let end = if tail == "m*" { *r.pick(&[".bc", ".bc~", ".bak", "#", "", ".BEAN", " é.bc", ".tmp", ".bc.swp", "-銀"]) } else { ".bc" };
            let p = format!("{}{}m{}{}", dir, sub, m, end);
            if !self.taken(&p) {
                members.push(p);
            }
        }
        // none of these is asked for
        for x in [".m9.bc", "m1.txt", "n1.bc", "M1.bc", "m1.bc~", "m10.bcx"] {
            if r.pct(50) {
                self.add(r, &format!("{}{}", dir, x), Extra::Bytes(b"this is not to be read\n".to_vec()));
            }
        }
        if r.pct(30) && !deep {
            self.add(r, &format!("{}sub/m1.bc", dir), Extra::Bytes(b"nor is this\n".to_vec()));
        }
        if tail == "*.b[c]" {
            self.extra.retain(|x| !(x.0 == format!("{}n1.bc", dir) || x.0 == format!("{}M1.bc", dir)));
        }
        if tail == "m*" {
            self.extra.retain(|x| !(x.0.starts_with(&format!("{}m", dir))));
        }
        let from = dir_of(&self.files[i].path);
        let head = if self.inline && i == 0 || r.pct(10) { format!("{}/{}", self.base, dir) } else { relative(r, &from, &format!("{}x", dir)).trim_end_matches('x').to_string() };
        let s = format!("{}{}", pattern_escape(&head), tail);
        let mut idx = vec![];
        for p in members {
            let n = self.files.len();
            self.files.push(FileM { path: p, items: vec![] });
            idx.push(n);
            self.budget = self.budget.saturating_sub(1);
        }
        if idx.is_empty() {
            return;
        }
        self.include(i, &s, idx.clone());
        self.seen.push(if deep { "by a recursive pattern" } else { "by a pattern" });
        for n in &idx {
            self.fill(r, *n, depth + 1, true);
        }
        self.groups.push(idx.clone());
        if r.pct(20) {
            // all of them again
            self.include(i, &s, idx);
            self.seen.push("repeated pattern");
        }
    }

    fn fault(&mut self, r: &mut Rng, i: usize) {
        let from = dir_of(&self.files[i].path);
        let abs = self.inline && i == 0;
        let base = if abs { format!("{}/", pattern_escape(&self.base)) } else { String::new() };
        let lead = if abs { "" } else { from.as_str() };
        let (s, why): (String, &'static str) = match r.below(15) {
            0 => ("missing.beancount".into(), "missing"),
            1 => ("nodir/x.beancount".into(), "missing"),
            2 => (format!("{}none*.zz", r.pick(&["", "*/", "**/"])), "pattern without match"),
            3 => {
                self.add(r, &format!("{}adir", lead), Extra::Dir);
                ("adir".into(), "a directory")
            }
            4 => ("***".into(), "bad pattern"),
            5 => ("a**b".into(), "bad pattern"),
            6 => (format!("x{}", r.pick(&["[", "[a", "[!"])), "bad pattern"),
            7 => {
                self.add(r, &format!("{}bin.beancount", lead), Extra::Bytes(vec![b'2', b'0', 0xff, 0xfe, b'\n']));
                ("bin.beancount".into(), "not text")
            }
            8 => {
                let mut t = b"2024-01-01 open Assets:A\n; ".to_vec();
                t.extend([b'x'; 9000]);
                t.extend([0xc3, b'\n']);
                self.add(r, &format!("{}latin.beancount", lead), Extra::Bytes(t));
                ("latin.beancount".into(), "not text")
            }
            9 => {
                self.add(r, &format!("{}broken.lnk", lead), Extra::Link("nowhere".into()));
                ("broken.lnk".into(), "a broken link")
            }
            10 => {
                self.add(r, &format!("{}broken.lnk", lead), Extra::Link("nowhere".into()));
                ("brok*.lnk".into(), "a broken link")
            }
            11 => {
                self.add(r, &format!("{}loop.lnk", lead), Extra::Link("loop.lnk".into()));
                ("loop.lnk".into(), "a link loop")
            }
            12 => {
                // through a file
                self.add(r, &format!("{}afile", lead), Extra::Bytes(vec![]));
                ("afile/x".into(), "missing")
            }
            13 => ("".into(), "a directory"),
            _ => ("MISSING.beancount/../missing.beancount".into(), "missing"),
        };
        self.fails(i, &format!("{}{}", base, s), why);
    }

    pub fn write(&self, files: &[EFile]) {
        for f in files.iter().skip(self.inline as usize) {
            let p = format!("{}/{}", self.base, f.path);
            std::fs::create_dir_all(format!("{}/{}", self.base, dir_of(&f.path))).expect("mkdir");
            std::fs::write(&p, &f.text).expect("write ledger");
        }
        for (p, e) in &self.extra {
            std::fs::create_dir_all(format!("{}/{}", self.base, dir_of(p))).expect("mkdir");
            let q = format!("{}/{}", self.base, p);
            match e {
                Extra::Bytes(b) => std::fs::write(&q, b).expect("write"),
                Extra::Dir => std::fs::create_dir_all(&q).expect("mkdir"),
                Extra::Link(t) => symlink(t, &q).expect("link"),
            }
        }
    }
    /// some path of the root
    pub fn root(&self, r: &mut Rng) -> String {
        match r.below(8) {
            0 => {
                std::env::set_current_dir(&self.base).expect("chdir");
                "root.beancount".into()
            }
            1 => {
                std::env::set_current_dir(&self.base).expect("chdir");
                "./root.beancount".into()
            }
            2 => {
                let d = format!("{}/d1", self.base);
                std::fs::create_dir_all(&d).expect("mkdir");
                std::env::set_current_dir(&d).expect("chdir");
                "../root.beancount".into()
            }
            3 => {
                symlink("root.beancount", format!("{}/theroot", self.base)).expect("link");
                format!("{}/theroot", self.base)
            }
            4 => format!("{}/./root.beancount", self.base),
            _ => format!("{}/root.beancount", self.base),
        }
    }
}

/// hundreds of files, side by side, one within the other, or in a tree
fn hundreds(ctx: &mut Ctx, r: &mut Rng, base: &str) -> R {
    let n = *r.pick(&[40, 70, 140, 260, 300, 520]);
    let shape = r.below(3);
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    for k in 1..n {
        let parent = match shape {
            0 => 0,
            1 => k - 1,
            _ => r.below(k),
        };
        kids[parent].push(k);
    }
    let sub = r.pct(50);
    let dir = |k: usize| if sub && k > 0 { format!("d{}/", k % 7) } else { String::new() };
    let own = |k: usize, last: bool| format!("2020-01-01 note Assets:A \"{}{}\"\n", k, if last { "z" } else { "a" });
    let mut files = vec![];
    for k in 0..n {
        let mut t = own(k, false);
        for c in &kids[k] {
            let up = if sub && k > 0 { "../" } else { "" };
            t.push_str(&format!("include \"{}{}f{}.bean\"\n", up, dir(*c), c));
        }
        t.push_str(&own(k, true));
        let p = format!("{}/{}f{}.bean", base, dir(k), k);
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).expect("mkdir");
        std::fs::write(&p, &t).expect("write");
        files.push(p);
    }
    ctx.input("hundreds of files", &format!("{} files, shape {}, directories {}\n", n, shape, sub));
    let s = BeancountSources::try_from(std::path::PathBuf::from(&files[0])).map_err(|e| format!("{} files are not loaded: {}", n, e))?;
    let parser = BeancountParser::new(&s);
    let ok = parser.parse().map_err(|e| format!("{} files are rejected: {}", n, show_errors(&s, &e)))?;
    let mut want = vec![];
    // (file, at its end)
    let mut todo = vec![(0usize, false)];
    while let Some((k, last)) = todo.pop() {
        want.push((k, last));
        if !last {
            todo.push((k, true));
            for c in kids[k].iter().rev() {
                todo.push((*c, false));
            }
        }
    }
    if ok.directives.len() != want.len() {
        return Err(format!("{} files of two directives each have {} directives", n, ok.directives.len()));
    }
    for (d, (k, last)) in ok.directives.iter().zip(&want) {
        let lima::DirectiveVariant::Note(x) = d.variant() else { return Err("not a note".into()) };
        let id = format!("{}{}", k, if *last { "z" } else { "a" });
        if *x.comment().item() != id {
            return Err(format!("directive {:?} comes where {:?} is expected", x.comment().item(), id));
        }
        let rs = s.resolve_span(d.span());
        let name = rs.file_name.map(|f| crate::p_include::normalize(f));
        if name.as_deref() != Some(files[*k].trim_start_matches('/')) && rs.file_name != Some(files[*k].as_str()) || rs.content.trim_end() != own(*k, *last).trim_end() {
            return Err(format!("directive {:?} of {} resolves to {:?} of {:?}", id, files[*k], rs.content, rs.file_name));
        }
    }
    ctx.count("hundreds of files");
    ctx.add("directives compared", want.len() as u64);
    Ok(())
}

pub fn c09(ctx: &mut Ctx, r: &mut Rng) -> R {
    let _ = std::env::set_current_dir("/");
    let base = ctx.fresh_dir();
    if ctx.case % 1000 == 17 {
        return hundreds(ctx, r, &base);
    }
    let one_date = r.pct(60);
    let g = Gen { unicode: r.pct(40), expr_depth: 0, max_items: 1, pragmas: false, dates: 3, long_strings: false, kinds: if one_date { vec![4, 5, 7, 8, 9, 10, 11] } else { vec![] } };
    let faults = if r.pct(50) { 0 } else { 70 };
    let inline = r.pct(15);
    let budget = *r.pick(&[1, 3, 6, 12]);
    let mut w = World::new(&g, &base, inline, one_date, faults, budget);
    w.fill(r, 0, 0, false);
    let style = if r.pct(70) { Style::canonical() } else { Style::random(r) };
    let files: Vec<EFile> = w.files.iter().enumerate().map(|(i, fm)| Printer::new(&style).file(r, i, fm)).collect();
    for f in &files {
        ctx.input(&f.path, &f.text);
    }
    ctx.input("world", &w.extra.iter().map(|(p, e)| format!("{} {}\n", p, match e { Extra::Bytes(b) => format!("{} bytes", b.len()), Extra::Dir => "dir".into(), Extra::Link(t) => format!("-> {}", t) })).collect::<String>());
    w.write(&files);
    let s = if inline {
        BeancountSources::from(files[0].text.as_str())
    } else {
        let p = w.root(r);
        match BeancountSources::try_from(std::path::PathBuf::from(&p)) {
            Ok(s) => s,
            Err(e) => return Err(format!("{} is not loaded: {}", p, e)),
        }
    };
    let mut fs = Files::on_disk(&base, &files);
    if inline {
        fs.files[0].0 = None;
    }
    let m = meaning(&files);
    let parser = BeancountParser::new(&s);
    let all: String = files.iter().map(|f| format!("{}\n{}", f.path, f.text)).collect();
    match parser.parse() {
        Err(e) => {
            if w.bad.is_empty() {
                return Err(format!("rejected: {}", show_errors(&s, &e)));
            }
            let lines: Vec<(usize, usize, usize)> = w.bad.iter().map(|b| (b.0, files[b.0].items[b.1].start, files[b.0].items[b.1].limit)).collect();
            let at = |x: &lima::Error, p: &(usize, usize, usize)| file_of(&s, &fs, &x.span()) == Some(p.0) && overlaps(&x.span(), p.1, p.2);
            for x in &e.errors {
                if !lines.iter().any(|p| at(x, p)) {
                    return Err(format!("error elsewhere than at a failing include: {} {:?} in {}", x.message(), s.resolve_span(&x.span()).content, show_errors(&s, &e)));
                }
            }
            for (p, b) in lines.iter().zip(&w.bad) {
                if !e.errors.iter().any(|x| at(x, p)) {
                    return Err(format!("no error at the include of {}: {:?} in {}", b.2, &files[p.0].text[p.1..p.2], files[p.0].path));
                }
                ctx.count(&format!("reported: {}", b.2));
            }
            ctx.nontrivial(&all);
            Ok(())
        }
        Ok(ok) => {
            if let Some(b) = w.bad.first() {
                return Err(format!("accepted in spite of the include of {}: {:?} in {}", b.2, &files[b.0].text[files[b.0].items[b.1].start..files[b.0].items[b.1].end], files[b.0].path));
            }
            let obs = directives(&ok);
            if obs.len() != m.dirs.len() {
                return Err(format!("{} directives declared, {} returned", m.dirs.len(), obs.len()));
            }
            let file_of_id: HashMap<&str, usize> = m.dirs.iter().filter_map(|d| id_of_facts(d).map(|i| (i, d.file))).collect();
            let mut obs: Vec<&ODir> = obs.iter().collect();
            // files of one pattern come in an order left open, each in one piece
            for grp in &w.groups {
                let of = |o: &ODir| id_of(o).and_then(|i| file_of_id.get(i)).filter(|f| grp.contains(f)).copied();
                let Some(a) = obs.iter().position(|o| of(o).is_some()) else { continue };
                let b = obs.iter().rposition(|o| of(o).is_some()).unwrap() + 1;
                if obs[a..b].iter().any(|o| of(o).is_none()) {
                    return Err("what a pattern includes is torn apart".into());
                }
                let runs = 1 + (a + 1..b).filter(|k| of(obs[*k]) != of(obs[*k - 1])).count();
                let mut kinds: Vec<usize> = obs[a..b].iter().filter_map(|o| of(o)).collect();
                kinds.sort();
                kinds.dedup();
                if runs != kinds.len() {
                    return Err("files of a pattern are interleaved".into());
                }
                obs[a..b].sort_by_key(|o| of(o));
                ctx.count("patterns of several files expanded");
            }
            for (k, (e, o)) in sorted(m.dirs.clone()).iter().zip(&obs).enumerate() {
                if let Some(d) = diff_dir(e, o) {
                    return Err(format!("directive {} is not as if it stood at the include line: expected {:?}: {}", k, files[e.file].text.get(e.start..e.end).unwrap_or(""), d));
                }
            }
            ctx.add("directives compared", obs.len() as u64);
            if ok.plugins.len() != m.plugins.len() {
                return Err(format!("{} plugins written, {} returned", m.plugins.len(), ok.plugins.len()));
            }
            for (e, o) in m.plugins.iter().zip(&ok.plugins) {
                if let Some(d) = diff_facts(e, &plugin(o), &|_| true) {
                    return Err(format!("plugin: {}", d));
                }
            }
            // and as the library reads the same text in one file
            if r.pct(40) {
                let f = Printer::new(&Style::canonical()).file(r, 0, &one_file(w.flat.clone()));
                let s1 = BeancountSources::from(f.text.as_str());
                let p1 = BeancountParser::new(&s1);
                match p1.parse() {
                    Err(_) => ctx.count("one file rejected (decided elsewhere)"),
                    Ok(one) => {
                        let v = directives(&one);
                        if v.len() != obs.len() || v.iter().zip(&obs).any(|(a, b)| a.values() != b.values()) {
                            return Err(format!("differs from the same text in one file: {}", f.text));
                        }
                        ctx.count("compared with the same text in one file");
                    }
                }
            }
            for x in &w.seen {
                ctx.count(&format!("included {}", x));
            }
            if inline {
                ctx.count("inline root");
            }
            ctx.add("files included", m.seen.len() as u64 - 1);
            if m.seen.len() > 1 {
                ctx.nontrivial(&all);
                ctx.sample(&all);
            }
            Ok(())
        }
    }
}
