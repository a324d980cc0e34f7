//! Symbolic execution of LLVM IR (as text) with z3 as the deciding solver.
//!
//! usage: engine FILE.ll OUT.json [--threads N] [--steps N] [--seed N] JOB...
//! where JOB is HARNESS:PARAM:SECONDS
mod exec;
mod expr;
mod ir;
mod lower;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    q: Mutex<Vec<(Vec<Dec>, Vec<u64>)>>,
    cv: Condvar,
    waiting: AtomicUsize,
    queued: AtomicUsize,
    done: AtomicBool,
    threads: usize,
    deadline: Instant,
    expired: AtomicBool,
    stop: AtomicBool,
}

impl Sink for Shared {
    fn idle(&self) -> bool {
        self.waiting.load(Relaxed) > self.queued.load(Relaxed)
    }
    fn export(&self, t: Vec<Dec>, model: Vec<u64>) {
        let mut q = self.q.lock().unwrap();
        q.push((t, model));
        self.queued.store(q.len(), Relaxed);
        self.cv.notify_one();
    }
    fn stop(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if Instant::now() > self.deadline {
            self.expired.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            self.cv.notify_all();
            return true;
        }
        false
    }
    fn want_violation(&self) -> bool {
        true
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f && (c as u32) < 0xa0 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut threads = 8usize;
    let mut steps = 20_000_000u64;
    let mut seed = 1u64;
    let mut budget = f64::INFINITY;
    let mut jobs: Vec<(u64, u64, f64)> = vec![];
    // stop after a job with a counterexample that is not of a known class
    let mut first = false;
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--threads" => {
                i += 1;
                threads = args[i].parse().unwrap();
            }
            "--steps" => {
                i += 1;
                steps = args[i].parse().unwrap();
            }
            "--budget" => {
                i += 1;
                budget = args[i].parse().unwrap();
            }
            "--first" => first = true,
            "--seed" => {
                i += 1;
                seed = args[i].parse().unwrap();
            }
            a if pos.len() < 2 => pos.push(a.to_string()),
            a => {
                let p: Vec<&str> = a.split(':').collect();
                jobs.push((p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap()));
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&pos[0]).expect("cannot read the IR");
    let m = ir::Module::load(text);
    let load_s = t0.elapsed().as_secs_f64();
    eprintln!("loaded {} functions in {:.2} s", m.funcs.len(), load_s);
    let mut out = vec![];
    let mut weight: f64 = jobs.iter().map(|j| j.2).sum();
    for (h, p, secs) in jobs {
        // what is left of the budget is shared by the jobs still to come
        let left = budget - t0.elapsed().as_secs_f64();
        // (most need far less than their share)
        let share = (4.0 * left * secs / weight).min(left / 3.0).max(2.0);
        weight -= secs;
        let secs = if share < secs { share } else { secs };
        let (r, found) = job(&m, h, p, secs, threads, steps, seed);
        out.push(r);
        std::fs::write(&pos[1], format!("{{\"z3\":{},\"load_s\":{:.3},\"jobs\":[{}]}}\n", js(&z3::version()), load_s, out.join(",\n"))).unwrap();
        if found && first {
            break;
        }
    }
}

fn job(m: &ir::Module, h: u64, p: u64, secs: f64, threads: usize, steps: u64, seed: u64) -> (String, bool) {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let cfg = Config { entry: "vs_entry".into(), harness: h, param: p, max_steps: steps, deadline, max_viol: 64, sample_every: 0, seed, cache: Cache::new() };
    let sh = Shared {
        q: Mutex::new(vec![]),
        cv: Condvar::new(),
        waiting: AtomicUsize::new(0),
        queued: AtomicUsize::new(0),
        done: AtomicBool::new(false),
        threads,
        deadline,
        expired: AtomicBool::new(false),
        stop: AtomicBool::new(false),
    };
    struct Res {
        stats: Stats,
        viol: Vec<Violation>,
        errors: Vec<String>,
        covers: BTreeMap<u32, u64>,
        samples: Vec<Sample>,
        inconclusive: u64,
        queries: u64,
        solver_s: f64,
        unknowns: u64,
        used: std::collections::HashSet<u32>,
        hot: Vec<(u64, u32)>,
    }
    let results: Mutex<Vec<Res>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for id in 0..threads {
            let (sh, cfg, results) = (&sh, &cfg, &results);
            let b = std::thread::Builder::new().stack_size(256 << 20);
            b.spawn_scoped(sc, move || {
                let mut w = Worker::new(m, cfg, seed * 1000 + id as u64);
                let mut ok = true;
                if let Err(e) = w.prepare() {
                    if id == 0 {
                        w.errors.push(format!("setup: {e}"));
                    }
                    ok = false;
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                }
                if ok {
                    if id == 0 {
                        w.root();
                        w.drain(sh);
                    }
                    let mut q = sh.q.lock().unwrap();
                    loop {
                        if sh.stop() || sh.done.load(Relaxed) {
                            break;
                        }
                        if let Some((t, model)) = q.pop() {
                            sh.queued.store(q.len(), Relaxed);
                            drop(q);
                            w.import(t, model);
                            w.drain(sh);
                            q = sh.q.lock().unwrap();
                            continue;
                        }
                        let n = sh.waiting.fetch_add(1, Relaxed) + 1;
                        if n == sh.threads {
                            sh.done.store(true, Relaxed);
                            sh.cv.notify_all();
                            break;
                        }
                        let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap();
                        q = g;
                        if sh.done.load(Relaxed) {
                            break;
                        }
                        sh.waiting.fetch_sub(1, Relaxed);
                    }
                }
                let mut hot: Vec<(u64, u32)> = w.hot.iter().map(|(k, v)| (*v, k.0)).collect();
                hot.sort();
                hot.reverse();
                results.lock().unwrap().push(Res {
                    stats: std::mem::take(&mut w.stats),
                    viol: std::mem::take(&mut w.violations),
                    errors: std::mem::take(&mut w.errors),
                    covers: std::mem::take(&mut w.covers),
                    samples: std::mem::take(&mut w.samples),
                    inconclusive: w.inconclusive,
                    queries: w.z3.queries,
                    solver_s: w.z3.time.as_secs_f64(),
                    unknowns: w.z3.unknowns,
                    used: std::mem::take(&mut w.used),
                    hot,
                });
            })
            .unwrap();
        }
    });
    let rs = results.into_inner().unwrap();
    let sum = |f: &dyn Fn(&Res) -> u64| rs.iter().map(f).sum::<u64>();
    let mut covers: BTreeMap<u32, u64> = BTreeMap::new();
    let mut used: std::collections::BTreeSet<u32> = Default::default();
    let mut viol: Vec<&Violation> = vec![];
    let mut errors: Vec<&String> = vec![];
    let mut samples: Vec<&Sample> = vec![];
    for r in &rs {
        for (k, v) in &r.covers {
            *covers.entry(*k).or_default() += v;
        }
        used.extend(r.used.iter());
        viol.extend(r.viol.iter());
        errors.extend(r.errors.iter());
        samples.extend(r.samples.iter());
    }
    viol.sort_by(|a, b| (a.inputs.len(), &a.inputs, &a.msg).cmp(&(b.inputs.len(), &b.inputs, &b.msg)));
    errors.truncate(8);
    // the functions of the repository's crates that were executed
    let names: Vec<&str> = used.iter().map(|f| m.funcs[*f as usize].name.as_str()).collect();
    if std::env::var_os("VS_PROFILE").is_some() || std::env::var_os("VS_QPROF").is_some() {
        let mut h: BTreeMap<u32, u64> = BTreeMap::new();
        for r in &rs {
            for (n, f) in &r.hot {
                *h.entry(*f).or_default() += n;
            }
        }
        let mut h: Vec<_> = h.into_iter().map(|(f, n)| (n, f)).collect();
        h.sort();
        for (n, f) in h.iter().rev().take(25) {
            eprintln!("{n:>12} {}", m.funcs[*f as usize].name);
        }
    }
    let exhaustive = !sh.expired.load(Relaxed) && errors.is_empty();
    let wall = t0.elapsed().as_secs_f64();
    eprintln!(
        "job {h}:{p}: {} paths, {} assumed away, {} violations, {} errors, {} steps, {} queries, {:.2} s solver, {:.2} s wall{}",
        sum(&|r| r.stats.paths),
        sum(&|r| r.stats.assumed),
        viol.len(),
        errors.len(),
        sum(&|r| r.stats.steps),
        sum(&|r| r.queries),
        rs.iter().map(|r| r.solver_s).sum::<f64>(),
        wall,
        if exhaustive { "" } else { " (not exhausted)" }
    );
    let hex = |b: &Vec<u8>| js(&b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    let found = viol.iter().any(|v| v.known.is_none() && !v.msg.contains("step limit"));
    let text = format!(
        "{{\"harness\":{h},\"param\":{p},\"exhaustive\":{exhaustive},\"wall_s\":{wall:.3},\"paths\":{},\"assumed\":{},\"forks\":{},\"branches\":{},\"steps\":{},\"checks\":{},\"checks_solver\":{},\"lemmas\":{},\"cache_hits\":{},\"guesses\":{},\"limits\":{},\"exported\":{},\"queries\":{},\"unknowns\":{},\"inconclusive\":{},\"solver_s\":{:.3},\"covers\":{{{}}},\"functions\":{},\"violations\":{},\"errors\":{},\"samples\":{}}}",
        sum(&|r| r.stats.paths),
        sum(&|r| r.stats.assumed),
        sum(&|r| r.stats.forks),
        sum(&|r| r.stats.branches),
        sum(&|r| r.stats.steps),
        sum(&|r| r.stats.checks),
        sum(&|r| r.stats.checks_solver),
        sum(&|r| r.stats.lemmas),
        sum(&|r| r.stats.cache_hits),
        sum(&|r| r.stats.guesses),
        sum(&|r| r.stats.limits),
        sum(&|r| r.stats.exported),
        sum(&|r| r.queries),
        sum(&|r| r.unknowns),
        sum(&|r| r.inconclusive),
        rs.iter().map(|r| r.solver_s).sum::<f64>(),
        covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        jl(&names, |n| js(n)),
        jl(&viol, |v| format!(
            "{{\"msg\":{},\"inputs\":{:?},\"notes\":{},\"known\":{},\"bt\":{}}}",
            js(&v.msg),
            v.inputs,
            jl(&v.notes, |n| js(n)),
            v.known.as_ref().map(|k| js(k)).unwrap_or("null".into()),
            jl(&v.bt, |n| js(n))
        )),
        jl(&errors, |e| js(e)),
        jl(&samples, |s| format!("{{\"inputs\":{:?},\"notes\":{}}}", s.inputs, jl(&s.notes, |n| hex(n)))),
    );
    (text, found)
}
