//! The work of loading and parsing grows about linearly with the ledger.
use crate::p_any::*;
use crate::p_robust::{limit, children, Child};
use crate::p_scale::{FAMILIES, TREES, WORK};
use crate::rng::Rng;
use crate::sup::{Ctx, Parent, R};
use beancount_parser_lima as lima;
use lima::{BeancountParser, BeancountSources};

/// the larger ledger has so many times the content of the smaller
const TIMES: usize = 8;
/// and may cost at most so many times as much: time
const MORE_TIME: f64 = 2.5 * TIMES as f64;
/// memory, which vectors take in doubling steps
const MORE_MEMORY: f64 = 3.0 * TIMES as f64;
const MORE_ALLOCATIONS: f64 = 1.5 * TIMES as f64;

/// seconds of processor time; the slowest takes about 5
const LIMIT: u64 = 120;

fn thread_cpu() -> f64 {
    let mut t = [0i64; 2];
    extern "C" {
        fn clock_gettime(c: i32, t: *mut i64) -> i32;
    }
    unsafe { clock_gettime(3, t.as_mut_ptr()) };
    t[0] as f64 + t[1] as f64 / 1e9
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    secs: f64,
    peak: f64,
    allocations: f64,
}

fn cost(text: &str) -> Cost {
    let t = text.to_string();
    let m = crate::alloc::reset();
    let c = thread_cpu();
    let s = BeancountSources::from(t);
    let p = BeancountParser::new(&s);
    let r = p.parse();
    let secs = thread_cpu() - c;
    let (peak, n) = crate::alloc::peak(m);
    drop(r);
    Cost { secs, peak: peak as f64, allocations: n as f64 }
}

pub fn c20(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut unit = loop {
        let d = ctx.fresh_dir();
        let a = any(r, &d);
        let t = &a.files[0].1;
        if !t.trim().is_empty() && t.len() < 6000 && !t.contains("include") {
            ctx.count(a.sort);
            break t.clone();
        }
    };
    unit.push('\n');
    if r.pct(20) {
        // one line of it
        let v: Vec<&str> = unit.lines().filter(|l| !l.trim().is_empty()).collect();
        unit = format!("{}{}", r.pick(&v), r.pick(&["\n", "\n", " ", ""]));
        // endless expressions and lines of other letters are a known finding of C01
        if !unit.ends_with('\n') && (!unit.is_ascii() || unit.contains(['+', '-', '*', '/', '('])) {
            unit.push('\n');
        }
        ctx.count("a single line repeated");
    }
    let k = (16_000 / unit.len()).max(2);
    let (small, big) = (unit.repeat(k), unit.repeat(k * TIMES));
    ctx.input("unit", &unit);
    let mut best: Option<(Cost, Cost)> = None;
    for round in 0..6 {
        let (a, b) = (cost(&small), cost(&big));
        let (pa, pb) = best.unwrap_or((a, b));
        let low = |x: Cost, y: Cost| Cost { secs: x.secs.min(y.secs), ..x };
        let (a, b) = (low(a, pa), low(b, pb));
        best = Some((a, b));
        if b.secs <= MORE_TIME * a.secs + 0.02 {
            break;
        }
        if round == 0 {
            ctx.count("measured again");
        }
    }
    let (a, b) = best.unwrap();
    if b.secs > MORE_TIME * a.secs + 0.02 {
        return Err(format!("{} times the content take {:.1} times the time ({:.4} s for {} bytes, {:.4} s for {})", TIMES, b.secs / a.secs, a.secs, small.len(), b.secs, big.len()));
    }
    if b.peak > MORE_MEMORY * a.peak + 200_000.0 {
        return Err(format!("{} times the content take {:.1} times the memory ({} for {} bytes, {} for {})", TIMES, b.peak / a.peak, a.peak, small.len(), b.peak, big.len()));
    }
    if b.peak > 3000.0 * big.len() as f64 {
        return Err(format!("{} bytes take {} of memory", big.len(), b.peak));
    }
    if b.allocations > MORE_ALLOCATIONS * a.allocations + 2000.0 {
        return Err(format!("{} times the content take {:.1} times the allocations ({} for {} bytes, {} for {})", TIMES, b.allocations / a.allocations, a.allocations, small.len(), b.allocations, big.len()));
    }
    ctx.add("bytes parsed for measurement", (small.len() + big.len()) as u64);
    ctx.count("ledgers measured");
    ctx.nontrivial(&unit);
    ctx.sample(&unit);
    Ok(())
}

fn figures(o: &str) -> Option<Cost> {
    let w: Vec<&str> = o.split_whitespace().collect();
    Some(Cost { secs: w.get(1)?.parse().ok()?, peak: w.get(3)?.parse().ok()?, allocations: w.get(5)?.parse().ok()? })
}

pub fn c20_after(par: &mut Parent) -> R {
    let n = if par.thorough { 400_000 } else { 100_000 };
    let verbose = std::env::var("LIMA_VERBOSE").is_ok();
    let mut names: Vec<(String, usize, bool)> = FAMILIES.iter().map(|f| (f.0.to_string(), limit(f.0, n), false)).collect();
    names.extend(TREES.iter().map(|t| (t.0.to_string(), n / 20, true)));
    names.extend(WORK.iter().map(|w| (w.to_string(), n, false)));
    // the long first, so that they overlap
    let scratch = par.scratch.clone();
    let job = |name: &str, n: usize, tree: bool, k: usize| (name.to_string(), n, if tree { format!("{}/tree-{}-{}", scratch, name.replace(' ', "-"), k) } else { String::new() }, true);
    let mut jobs = vec![];
    for (name, n, tree) in &names {
        jobs.push(job(name, *n, *tree, 0));
        jobs.push(job(name, *n / TIMES, *tree, 1));
    }
    let res = children(&jobs, false, LIMIT);
    let mut worst: (f64, String) = (0.0, String::new());
    for (i, (name, n, tree)) in names.iter().enumerate() {
        let mut got = vec![];
        for k in 0..2 {
            match &res[2 * i + k] {
                Child::Done(o) => got.push(figures(o)),
                Child::Stuck => return Err(format!("{} of {:?} in one ledger take more than {} s", jobs[2 * i + k].1, name, LIMIT)),
                Child::Died(w) => {
                    // decided by C01
                    par.notes.push(format!("{:?} died: {}", name, w));
                    par.add("families that died (decided by C01)", 1);
                }
                Child::Lost(w) => par.inconclusive = Some(format!("{}: {}", name, w)),
            }
        }
        let [Some(mut b), Some(mut a)] = got[..] else { continue };
        let over = |a: &Cost, b: &Cost| b.secs > MORE_TIME * a.secs + 0.05;
        if over(&a, &b) {
            // alone, several times
            par.add("families measured again", 1);
            let t0 = std::time::Instant::now();
            for k in 0..4 {
                if k > 0 && t0.elapsed().as_secs() > 40 {
                    break;
                }
                for (m, c) in [(*n, &mut b), (*n / TIMES, &mut a)] {
                    if let Some(Child::Done(o)) = children(&[job(name, m, *tree, 2 + k)], false, LIMIT).pop() {
                        if let Some(x) = figures(&o) {
                            c.secs = c.secs.min(x.secs);
                        }
                    }
                }
                if !over(&a, &b) {
                    break;
                }
            }
        }
        if verbose {
            eprintln!("{:50} time {:.3} {:.3} x{:.1} memory x{:.1} allocations x{:.1}", name, a.secs, b.secs, b.secs / a.secs, b.peak / a.peak, b.allocations / a.allocations);
        }
        if over(&a, &b) {
            return Err(format!("{} times as many of {:?} ({} rather than {}) take {:.1} times the time, {:.3} s rather than {:.3} s", TIMES, name, n, n / TIMES, b.secs / a.secs, b.secs, a.secs));
        }
        if b.peak > MORE_MEMORY * a.peak + 2_000_000.0 {
            return Err(format!("{} times as many of {:?} ({} rather than {}) take {:.1} times the memory, {} bytes rather than {}", TIMES, name, n, n / TIMES, b.peak / a.peak, b.peak, a.peak));
        }
        if b.allocations > MORE_ALLOCATIONS * a.allocations + 20_000.0 {
            return Err(format!("{} times as many of {:?} ({} rather than {}) take {:.1} times the allocations", TIMES, name, n, n / TIMES, b.allocations / a.allocations));
        }
        par.add("families measured", 1);
        par.add("repetitions measured", *n as u64);
        if b.secs > 0.1 && b.secs / a.secs > worst.0 {
            worst = (b.secs / a.secs, name.clone());
        }
    }
    par.notes.push(format!("largest growth in time: {:.1} for {:?}", worst.0, worst.1));
    Ok(())
}
