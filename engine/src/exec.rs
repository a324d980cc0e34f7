//! The symbolic executor: one worker explores a set of paths depth first.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Sat, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, Default)]
pub struct V {
    pub c: u64,
    pub e: E,
}
#[inline]
fn cv(c: u64) -> V {
    V { c, e: 0 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec {
    Br(bool),
    Conc(u64, bool),
}

pub struct TNode {
    d: Dec,
    prev: Option<Rc<TNode>>,
}
impl Drop for TNode {
    fn drop(&mut self) {
        // iterative, a path can have many decisions
        let mut p = self.prev.take();
        while let Some(n) = p {
            match Rc::try_unwrap(n) {
                Ok(mut x) => p = x.prev.take(),
                Err(_) => break,
            }
        }
    }
}

pub struct Frame {
    fid: u32,
    code: Arc<FuncCode>,
    regs: Vec<V>,
    pc: u32,
    sp: u64,
}
impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame { fid: self.fid, code: self.code.clone(), regs: self.regs.clone(), pc: self.pc, sp: self.sp }
    }
}

#[derive(Clone)]
pub struct State {
    top: Box<Frame>,
    stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    doms: Vec<[u64; 4]>,
    cons: Vec<(E, bool)>,
    coupled: u128,
    pub model: Vec<u64>,
    order: Vec<u8>,
    n64: u32,
    n8: u32,
    trace: Option<Rc<TNode>>,
    forced: Vec<Dec>, // reversed
    pub steps: u64,
    notes: Vec<Vec<(u8, E)>>,
    known: Option<Rc<str>>,
    checks: u32,
    begun: bool,
    errno: u64,
}

pub enum End {
    Done,
    Assumed,
    Violation(String),
    Limit,
    Error(String),
    Killed,
}

enum Flow {
    End(End),
}
type R<T> = Result<T, Flow>;

impl From<Fault> for Flow {
    fn from(f: Fault) -> Flow {
        Flow::End(End::Error(format!("memory fault at {:#x}", f.0)))
    }
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Flow::End(End::Error(s.into())))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Alloc, AllocZ, Realloc, Dealloc, Nop, Zero,
    Panic, Abort,
    HashOne, RandKeys,
    Memcmp, Strlen,
    Malloc, Calloc,
    VsVar, VsAssume, VsCheck, VsFail, VsNote, VsCover, VsConc, VsKnown, VsBegin, VsSym, VsDepth,
    Errno,
    External,
}

#[derive(Clone)]
pub struct Violation {
    pub msg: String,
    pub inputs: Vec<u64>,
    pub notes: Vec<String>,
    pub known: Option<String>,
    pub bt: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub notes: Vec<Vec<u8>>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub branches: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub lemmas: u64,
    pub cache_hits: u64,
    pub guesses: u64,
    pub limits: u64,
    pub exported: u64,
}

pub struct Config {
    pub entry: String,
    pub harness: u64,
    pub param: u64,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub max_viol: usize,
    pub sample_every: u64,
    pub seed: u64,
    pub cache: Cache,
}

pub const SHARDS: usize = 64;
/// Solver answers, shared by the workers.
pub struct Cache {
    q: Vec<Mutex<FxMap<u128, (Sat, Vec<(u32, u64)>)>>>,
    l: Vec<Mutex<HashSet<u128>>>,
}
impl Cache {
    pub fn new() -> Cache {
        Cache { q: (0..SHARDS).map(|_| Default::default()).collect(), l: (0..SHARDS).map(|_| Default::default()).collect() }
    }
}

pub trait Sink {
    fn idle(&self) -> bool;
    fn export(&self, t: Vec<Dec>, model: Vec<u64>);
    fn stop(&self) -> bool;
    fn want_violation(&self) -> bool;
}

pub struct Worker<'m> {
    m: &'m Module,
    cfg: &'m Config,
    pub ar: Arena,
    /// the deadline has passed
    late: bool,
    pub z3: Solver,
    bi: Vec<Bi>,
    pub used: HashSet<u32>,
    pub stats: Stats,
    pub local: Vec<State>,
    pub base: Option<State>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<u32, u64>,
    pub samples: Vec<Sample>,
    pub inconclusive: u64,
    lemmas: FxMap<(E, [u64; 4], bool), ()>,
    rng: u64,
    pool: Vec<Vec<V>>,
    // decisions made during the current instruction
    inst_decs: Vec<Dec>,
    inst_trace: Option<Rc<TNode>>,
    pub hot: HashMap<(u32, u32), u64>,
    pub profile: bool,
    pub qprof: bool,
}

fn builtin(name: &str, has_body: bool) -> Bi {
    if name.starts_with("__vs_") {
        return match name {
            "__vs_var" => Bi::VsVar,
            "__vs_assume" => Bi::VsAssume,
            "__vs_check" => Bi::VsCheck,
            "__vs_fail" => Bi::VsFail,
            "__vs_note" => Bi::VsNote,
            "__vs_cover" => Bi::VsCover,
            "__vs_conc" => Bi::VsConc,
            "__vs_known" => Bi::VsKnown,
            "__vs_begin" => Bi::VsBegin,
            "__vs_depth" => Bi::VsDepth,
            "__vs_symbolic" => Bi::VsSym,
            _ => Bi::None,
        };
    }
    if name.contains("___rustc") || name.starts_with("__rust_") || name.starts_with("__rdl_") {
        for (p, b) in [
            ("_rust_alloc_zeroed", Bi::AllocZ),
            ("_rdl_alloc_zeroed", Bi::AllocZ),
            ("_rust_alloc_error_handler", Bi::Panic),
            ("_rust_alloc", Bi::Alloc),
            ("_rdl_alloc", Bi::Alloc),
            ("_rust_realloc", Bi::Realloc),
            ("_rdl_realloc", Bi::Realloc),
            ("_rust_dealloc", Bi::Dealloc),
            ("_rdl_dealloc", Bi::Dealloc),
        ] {
            if name.ends_with(p) {
                return b;
            }
        }
        if name.contains("rust_no_alloc_shim") {
            return Bi::Nop;
        }
        if name.ends_with("rust_panic") || name.ends_with("rust_begin_unwind") || name.ends_with("rust_start_panic") {
            return Bi::Panic;
        }
    }
    if name.contains("4core9panicking") && !name.contains("drop_glue") && (name.starts_with("_RNvNtC") || name.starts_with("_RINvNtC") || name.starts_with("_RNvNtNtC")) {
        return Bi::Panic;
    }
    if name.contains("3std9panicking11begin_panic") || name.contains("18handle_alloc_error") || name.contains("17rust_panic_with_hook") {
        return Bi::Panic;
    }
    if name.contains("11BuildHasher8hash_one") {
        return Bi::HashOne;
    }
    if name.contains("hashmap_random_keys") {
        return Bi::RandKeys;
    }
    match name {
        "memcmp" | "bcmp" => Bi::Memcmp,
        "strlen" => Bi::Strlen,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "free" => Bi::Dealloc,
        "abort" => Bi::Abort,
        "__cxa_thread_atexit_impl" | "pthread_self" | "getenv" | "sched_yield" => Bi::Zero,
        "__errno_location" => Bi::Errno,
        _ if has_body => Bi::None,
        _ => Bi::External,
    }
}

fn bit(d: &[u64; 4], i: u64) -> bool {
    d[(i / 64) as usize & 3] >> (i % 64) & 1 == 1
}
fn and4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn not4(a: &[u64; 4]) -> [u64; 4] {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn empty4(a: &[u64; 4]) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn count4(a: &[u64; 4]) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn first4(a: &[u64; 4]) -> u64 {
    for i in 0..4 {
        if a[i] != 0 {
            return i as u64 * 64 + a[i].trailing_zeros() as u64;
        }
    }
    0
}

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, cfg: &'m Config, seed: u64) -> Worker<'m> {
        let bi = m.funcs.iter().map(|f| builtin(&f.name, f.body.is_some())).collect();
        Worker {
            m,
            cfg,
            ar: Arena::new(),
            late: false,
            z3: Solver::new(8_000),
            bi,
            used: HashSet::new(),
            stats: Stats::default(),
            local: vec![],
            base: None,
            violations: vec![],
            errors: vec![],
            covers: BTreeMap::new(),
            samples: vec![],
            inconclusive: 0,
            lemmas: Default::default(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            pool: vec![],
            inst_decs: vec![],
            inst_trace: None,
            hot: HashMap::new(),
            qprof: std::env::var_os("VS_QPROF").is_some(),
            profile: std::env::var_os("VS_PROFILE").is_some(),
        }
    }

    /// Run the entry point up to `__vs_begin`.
    pub fn prepare(&mut self) -> Result<(), String> {
        let f = *self.m.by_name.get(&self.cfg.entry).ok_or("no entry function")?;
        let code = self.m.code(f).clone();
        let mem = Mem::new(&self.m.image);
        let sp = mem.sp;
        let mut regs = vec![V::default(); code.nregs as usize];
        regs[code.params[0].0 as usize] = cv(self.cfg.harness);
        regs[code.params[1].0 as usize] = cv(self.cfg.param);
        self.used.insert(f);
        let st = State {
            top: Box::new(Frame { fid: f, code, regs, pc: 0, sp }),
            stack: vec![],
            mem,
            doms: vec![],
            cons: vec![],
            coupled: 0,
            model: vec![],
            order: vec![],
            n64: 0,
            n8: 0,
            trace: None,
            forced: vec![],
            steps: 0,
            notes: vec![],
            known: None,
            checks: 0,
            begun: false,
            errno: 0,
        };
        struct No;
        impl Sink for No {
            fn idle(&self) -> bool {
                false
            }
            fn export(&self, _: Vec<Dec>, _: Vec<u64>) {}
            fn stop(&self) -> bool {
                false
            }
            fn want_violation(&self) -> bool {
                true
            }
        }
        self.local.push(st);
        let s = self.local.pop().unwrap();
        match self.run(s, &No) {
            Some((End::Killed, _)) if self.base.is_some() => Ok(()),
            None => Err("the harness returned".into()),
            Some((End::Error(e), s)) => Err(format!("{e}\n{}", self.backtrace(&s).join("\n"))),
            Some((End::Violation(e), s)) => Err(format!("setup panics: {e}\n{}", self.backtrace(&s).join("\n"))),
            Some((_, _)) => Err("the harness ended before __vs_begin".into()),
        }
    }

    pub fn root(&mut self) {
        let mut s = self.base.clone().unwrap();
        s.begun = true;
        self.local.push(s);
    }
    pub fn import(&mut self, t: Vec<Dec>, model: Vec<u64>) {
        let mut s = self.base.clone().unwrap();
        s.begun = true;
        s.forced = t.into_iter().rev().collect();
        s.model = model;
        self.local.push(s);
    }

    fn backtrace(&self, s: &State) -> Vec<String> {
        let mut v = vec![format!("{} pc {}", self.m.funcs[s.top.fid as usize].name, s.top.pc)];
        for f in s.stack.iter().rev() {
            v.push(format!("{} pc {}", self.m.funcs[f.fid as usize].name, f.pc));
        }
        v
    }

    /// Explore everything on the local stack.
    pub fn drain(&mut self, sink: &dyn Sink) {
        while let Some(s) = self.local.pop() {
            if sink.stop() {
                self.local.clear();
                return;
            }
            if let Some((end, s)) = self.run(s, sink) {
                self.stats.steps += s.steps;
                match end {
                    End::Done => {
                        self.stats.paths += 1;
                        self.stats.checks += s.checks as u64;
                        self.sample(&s);
                    }
                    End::Assumed => self.stats.assumed += 1,
                    End::Violation(msg) => {
                        self.stats.paths += 1;
                        let v = self.violation(&s, msg);
                        self.add_violation(v);
                    }
                    End::Limit => {
                        self.stats.limits += 1;
                        let v = self.violation(&s, "step limit reached: the call may not return".into());
                        self.add_violation(v);
                    }
                    End::Error(e) => {
                        let v = self.violation(&s, String::new());
                        self.errors.push(format!("{e}; inputs {:?}; notes {:?}\n  {}", v.inputs, v.notes, v.bt.join("\n  ")));
                    }
                    End::Killed => {}
                }
            }
            while sink.idle() && self.local.len() > 1 {
                let s = self.local.remove(0);
                self.export(s, sink);
            }
        }
    }

    fn export(&mut self, s: State, sink: &dyn Sink) {
        let mut t = vec![];
        let mut p = &s.trace;
        while let Some(n) = p {
            t.push(n.d);
            p = &n.prev;
        }
        t.reverse();
        t.extend(s.forced.iter().rev());
        self.stats.exported += 1;
        sink.export(t, s.model);
    }

    fn add_violation(&mut self, v: Violation) {
        // a few per message and known key
        let n = self.violations.iter().filter(|x| x.msg == v.msg && x.known == v.known).count();
        if n < 3 {
            self.violations.push(v);
        }
    }

    fn violation(&mut self, s: &State, msg: String) -> Violation {
        let notes = s.notes.iter().map(|n| String::from_utf8_lossy(&self.note_bytes(s, n)).into_owned()).collect();
        let inputs = self.inputs(s);
        Violation { msg, inputs, notes, known: s.known.as_ref().map(|x| x.to_string()), bt: self.backtrace(s) }
    }

    fn note_bytes(&self, s: &State, n: &[(u8, E)]) -> Vec<u8> {
        let mut memo = Default::default();
        n.iter().map(|&(b, e)| if e == 0 { b } else { self.ar.eval(e, &s.model, &mut memo) as u8 }).collect()
    }

    /// The values of the variables in the order of their creation.
    fn inputs(&self, s: &State) -> Vec<u64> {
        s.order.iter().map(|&i| s.model[i as usize]).collect()
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn sample(&mut self, s: &State) {
        // reservoir of at most 16 per worker
        let n = self.stats.paths;
        let k = if n <= 16 { Some(self.samples.len()) } else {
            let j = self.rnd() % n;
            if j < 16 { Some(j as usize) } else { None }
        };
        if let Some(k) = k {
            let notes = s.notes.iter().map(|n| self.note_bytes(s, n)).collect();
            let inputs = self.inputs(s);
            let x = Sample { inputs, notes };
            if k < self.samples.len() {
                self.samples[k] = x;
            } else {
                self.samples.push(x);
            }
        }
    }

    // ----------------------------------------------------------- decisions

    fn push_dec(&mut self, s: &mut State, d: Dec) {
        self.inst_decs.push(d);
        s.trace = Some(Rc::new(TNode { d, prev: s.trace.take() }));
    }

    fn add_con(&mut self, s: &mut State, e: E, pos: bool) {
        let n = self.ar.n[e as usize];
        match n.op {
            Op::Const => return,
            Op::Not => return self.add_con(s, n.a, !pos),
            Op::And if n.w == 1 && pos => {
                self.add_con(s, n.a, true);
                return self.add_con(s, n.b, true);
            }
            Op::Or if n.w == 1 && !pos => {
                self.add_con(s, n.a, false);
                return self.add_con(s, n.b, false);
            }
            _ => {}
        }
        if let Some(v) = self.ar.single_small(e) {
            let t = self.ar.truth(e);
            let t = if pos { t } else { not4(&t) };
            let d = &mut s.doms[v as usize];
            *d = and4(d, &t);
        } else {
            if !s.cons.contains(&(e, pos)) {
                s.cons.push((e, pos));
            }
            s.coupled |= self.ar.vars[e as usize];
        }
    }

    fn slice(&self, s: &State, mut mask: u128) -> (Vec<(E, bool)>, u128) {
        let mut used = vec![false; s.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &(e, p)) in s.cons.iter().enumerate() {
                if !used[i] && self.ar.vars[e as usize] & mask != 0 {
                    used[i] = true;
                    mask |= self.ar.vars[e as usize];
                    out.push((e, p));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (out, mask)
    }

    /// Is (path and e == pos) satisfiable?  Returns a model of the slice.
    fn query(&mut self, s: &State, e: E, pos: bool) -> (Sat, Vec<(u32, u64)>) {
        let (mut cs, mask) = self.slice(s, self.ar.vars[e as usize]);
        cs.sort();
        cs.push((e, pos));
        let mut doms = vec![];
        let mut want = vec![];
        for v in 0..128u32 {
            if mask >> v & 1 == 1 {
                want.push(v);
                if self.ar.var_w[v as usize] <= 8 {
                    doms.push((v, s.doms[v as usize]));
                }
            }
        }
        // the key does not depend on the order of the constraints
        let mut key = 0u128;
        for &(e, p) in &cs {
            key = key.wrapping_add(mix(self.ar.sh[e as usize], p as u128));
        }
        for (v, d) in &doms {
            key = mix(key, *v as u128);
            key = mix(key, d[0] as u128 | (d[1] as u128) << 64);
            key = mix(key, d[2] as u128 | (d[3] as u128) << 64);
        }
        let shard = &self.cfg.cache.q[(key >> 3) as usize % SHARDS];
        if let Some(r) = shard.lock().unwrap().get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        if self.qprof {
            *self.hot.entry((s.top.fid, s.top.pc as u32)).or_default() += 1;
            if self.z3.queries % 500 == 0 {
                let mut t = format!("Q {} {}: {} GIVEN {:?}", self.m.funcs[s.top.fid as usize].name, pos, self.ar.show(e), cs.iter().map(|x| self.ar.show(x.0)).collect::<Vec<_>>());
                t.truncate(900);
                eprintln!("{t}");
            }
        }
        let r = match self.guess(s, &cs, &want) {
            Some(m) => (Sat::Sat, m),
            None => self.z3.check(&mut self.ar, &cs, &doms, &want),
        };
        if r.0 == Sat::Unknown || self.z3.queries & 15 == 0 {
            self.late = std::time::Instant::now() > self.cfg.deadline;
        }
        let mut g = shard.lock().unwrap();
        if g.len() > 2_000_000 / SHARDS {
            g.clear();
        }
        g.insert(key, r.clone());
        drop(g);
        r
    }

    /// A model of floating point constraints by changing one or two variables
    /// of the current one: the solver is slow to find what is easy to try.
    fn guess(&mut self, s: &State, cs: &[(E, bool)], want: &[u32]) -> Option<Vec<(u32, u64)>> {
        if !cs.iter().any(|x| self.ar.fp[x.0 as usize]) {
            return None;
        }
        let mut m = s.model.clone();
        m.resize(self.ar.var_w.len().max(m.len()), 0);
        let holds = |ar: &Arena, m: &[u64]| {
            let mut memo = Default::default();
            cs.iter().all(|&(e, p)| (ar.eval(e, m, &mut memo) == 1) == p)
        };
        // the comparisons
        let (mut cmps, mut seen, mut todo) = (vec![], vec![], cs.iter().map(|x| x.0).collect::<Vec<E>>());
        while let Some(e) = todo.pop() {
            if e == 0 || seen.len() > 400 || seen.contains(&e) || !self.ar.fp[e as usize] {
                continue;
            }
            seen.push(e);
            let n = self.ar.n[e as usize];
            match n.op {
                Op::FEq | Op::FLt | Op::FLe if self.ar.w(n.a) == 64 => cmps.push((n.a, n.b)),
                Op::And | Op::Or | Op::Not | Op::Xor | Op::Eq | Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => {}
            }
        }
        let around = |f: f64| {
            let b = f.to_bits();
            [f, f64::from_bits(b.wrapping_add(1)), f64::from_bits(b.wrapping_sub(1)), -f, 0.0, 1.5, -1.5, 1e300, -1e300]
        };
        // (variable, value) that may settle a comparison under `m`
        let moves = |ar: &Arena, m: &[u64]| {
            let mut out: Vec<(u32, u64)> = vec![];
            let mut memo = Default::default();
            for &(a, b) in &cmps {
                for (x, y) in [(a, b), (b, a)] {
                    let t = f64::from_bits(ar.eval(y, m, &mut memo) as u64);
                    let n = ar.n[x as usize];
                    match n.op {
                        Op::Var => out.extend(around(t).map(|f| (n.k as u32, f.to_bits()))),
                        Op::SToF | Op::UToF => {
                            let i = ar.n[n.a as usize];
                            let (v, off) = match i.op {
                                Op::Var => (n.a, 0),
                                Op::Add if ar.n[i.a as usize].op == Op::Var && ar.n[i.b as usize].op == Op::Const => (i.a, ar.n[i.b as usize].k),
                                _ => continue,
                            };
                            if ar.w(v) != 64 {
                                continue;
                            }
                            let k = if n.op == Op::SToF { t as i64 as u64 } else { t as u64 };
                            for c in [k, k.wrapping_add(1), k.wrapping_sub(1), 0, 1, u64::MAX] {
                                out.push((ar.n[v as usize].k as u32, c.wrapping_sub(off)))
                            }
                        }
                        _ => {}
                    }
                }
            }
            out
        };
        let done = |m: &[u64]| Some(want.iter().map(|&v| (v, m[v as usize])).collect());
        if holds(&self.ar, &m) {
            return done(&m);
        }
        let first = moves(&self.ar, &m);
        for two in [false, true] {
            for &(v, x) in first.iter().take(if two { 40 } else { 400 }) {
                let old = std::mem::replace(&mut m[v as usize], x);
                if !two {
                    if holds(&self.ar, &m) {
                        self.stats.guesses += 1;
                        return done(&m);
                    }
                } else {
                    for (v2, x2) in moves(&self.ar, &m).into_iter().take(60) {
                        if v2 != v {
                            let old2 = std::mem::replace(&mut m[v2 as usize], x2);
                            if holds(&self.ar, &m) {
                                self.stats.guesses += 1;
                                return done(&m);
                            }
                            m[v2 as usize] = old2;
                        }
                    }
                }
                m[v as usize] = old;
            }
        }
        None
    }

    /// Unsat if no value in `d` of the variable gives `pos`.
    fn refuted(&mut self, e: E, pos: bool, v: u32, d: [u64; 4]) -> Sat {
        if !self.ar.wide_inside(e) || count4(&d) > 32 {
            return self.z3.check(&mut self.ar, &[(e, pos)], &[(v, d)], &[]).0;
        }
        // wide arithmetic: one value at a time
        for i in 0..256u64 {
            if bit(&d, i) {
                let mut p = [0; 4];
                p[i as usize >> 6] = 1 << (i & 63);
                let r = self.z3.check(&mut self.ar, &[(e, pos)], &[(v, p)], &[]).0;
                if r != Sat::Unsat {
                    return r;
                }
            }
        }
        Sat::Unsat
    }

    fn certify(&mut self, v: u32, d: [u64; 4], e: E, pos: bool) -> R<()> {
        // the solver confirms that no value of the variable's set gives `pos`
        if self.lemmas.contains_key(&(e, d, pos)) {
            return Ok(());
        }
        let mut key = mix(mix(self.ar.sh[e as usize], v as u128), pos as u128);
        key = mix(key, d[0] as u128 | (d[1] as u128) << 64);
        key = mix(key, d[2] as u128 | (d[3] as u128) << 64);
        let shard = &self.cfg.cache.l[(key >> 3) as usize % SHARDS];
        if shard.lock().unwrap().contains(&key) {
            self.lemmas.insert((e, d, pos), ());
            return Ok(());
        }
        let r = self.refuted(e, pos, v, d);
        if r != Sat::Unsat {
            return err(format!("internal: pruning lemma not confirmed ({:?})", r));
        }
        self.stats.lemmas += 1;
        shard.lock().unwrap().insert(key);
        self.lemmas.insert((e, d, pos), ());
        Ok(())
    }

    /// A Boolean that the sets of its variables decide is that constant;
    /// the solver confirms it.
    fn fold(&mut self, s: &State, v: V) -> R<V> {
        let r = self.ar.range(v.e, &s.doms, &mut Default::default());
        if r.0 != r.1 {
            return Ok(v);
        }
        let pos = r.0 == 0;
        let mut doms = vec![];
        let mut key = mix(self.ar.sh[v.e as usize], 5 + pos as u128);
        let mask = self.ar.vars[v.e as usize];
        for v in 0..128u32 {
            if mask >> v & 1 == 1 && self.ar.var_w[v as usize] <= 8 {
                let d = s.doms[v as usize];
                doms.push((v, d));
                key = mix(key, v as u128);
                key = mix(key, d[0] as u128 | (d[1] as u128) << 64);
                key = mix(key, d[2] as u128 | (d[3] as u128) << 64);
            }
        }
        let shard = &self.cfg.cache.l[(key >> 3) as usize % SHARDS];
        if !shard.lock().unwrap().contains(&key) {
            let r = match doms[..] {
                [(x, d)] if self.ar.single_small(v.e).is_some() => self.refuted(v.e, pos, x, d),
                _ => self.z3.check(&mut self.ar, &[(v.e, pos)], &doms, &[]).0,
            };
            match r {
                Sat::Unsat => {}
                Sat::Unknown => return Ok(v),
                Sat::Sat => return err("internal: folding lemma refuted"),
            }
            self.stats.lemmas += 1;
            shard.lock().unwrap().insert(key);
        }
        Ok(cv(r.0))
    }

    fn singleton(&self, s: &State, mask: u128) -> bool {
        let mut m = mask;
        while m != 0 {
            let v = m.trailing_zeros();
            m &= m - 1;
            if self.ar.var_w[v as usize] > 8 || count4(&s.doms[v as usize]) != 1 {
                return false;
            }
        }
        true
    }

    fn spawn(&mut self, s: &State, d: Dec, upd: &[(u32, u64)], steps_at: u64) {
        let mut n = s.clone();
        for &(v, x) in upd {
            n.model[v as usize] = x;
        }
        n.trace = self.inst_trace.clone();
        let mut f: Vec<Dec> = self.inst_decs.clone();
        f.push(d);
        f.reverse();
        n.forced = f;
        n.steps = steps_at;
        self.stats.forks += 1;
        self.local.push(n);
    }

    /// Decide a Boolean; forks when both outcomes are possible.
    fn decide(&mut self, s: &mut State, e: E, mk: &dyn Fn(bool) -> Dec) -> R<bool> {
        self.stats.branches += 1;
        if let Some(v) = self.ar.single_small(e) {
            let t = self.ar.truth(e);
            let d = s.doms[v as usize];
            let dt = and4(&d, &t);
            let df = and4(&d, &not4(&t));
            if empty4(&df) {
                self.certify(v, d, e, false)?;
                self.push_dec(s, mk(true));
                return Ok(true);
            }
            if empty4(&dt) {
                self.certify(v, d, e, true)?;
                self.push_dec(s, mk(false));
                return Ok(false);
            }
            let mv = s.model[v as usize];
            let dir = bit(&t, mv);
            let other = if dir { df } else { dt };
            if s.coupled >> v & 1 == 0 {
                self.spawn(s, mk(!dir), &[(v, first4(&other))], s.steps);
            } else {
                let (r, m) = self.query(s, e, !dir);
                match r {
                    Sat::Sat => self.spawn(s, mk(!dir), &m, s.steps),
                    Sat::Unsat => {}
                    Sat::Unknown => self.inconclusive += 1,
                }
            }
            s.doms[v as usize] = if dir { dt } else { df };
            self.push_dec(s, mk(dir));
            return Ok(dir);
        }
        let dir = self.ar.eval(e, &s.model, &mut Default::default()) == 1;
        if self.singleton(s, self.ar.vars[e as usize]) {
            self.push_dec(s, mk(dir));
            return Ok(dir);
        }
        let (r, m) = self.query(s, e, !dir);
        match r {
            Sat::Sat => {
                self.spawn(s, mk(!dir), &m, s.steps);
                self.add_con(s, e, dir);
            }
            Sat::Unsat => {}
            Sat::Unknown => {
                self.inconclusive += 1;
                self.add_con(s, e, dir);
            }
        }
        self.push_dec(s, mk(dir));
        Ok(dir)
    }

    fn branch(&mut self, s: &mut State, e: E) -> R<bool> {
        if let Some(k) = self.ar.kst(e) {
            return Ok(k == 1);
        }
        if let Some(d) = s.forced.pop() {
            return match d {
                Dec::Br(b) => {
                    self.add_con(s, e, b);
                    self.push_dec(s, d);
                    Ok(b)
                }
                _ => err("internal: replayed decision of the wrong kind"),
            };
        }
        self.decide(s, e, &Dec::Br)
    }

    fn conc(&mut self, s: &mut State, v: V, w: u8) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        loop {
            if let Some(d) = s.forced.pop() {
                match d {
                    Dec::Conc(k, b) => {
                        let c = self.ar.c(w, k);
                        let e = self.ar.cmp(Op::Eq, v.e, c);
                        self.add_con(s, e, b);
                        self.push_dec(s, d);
                        if b {
                            return Ok(k);
                        }
                        continue;
                    }
                    _ => return err("internal: replayed decision of the wrong kind"),
                }
            }
            let k = self.ar.eval(v.e, &s.model, &mut Default::default()) as u64;
            let c = self.ar.c(w, k);
            let e = self.ar.cmp(Op::Eq, v.e, c);
            if let Some(x) = self.ar.kst(e) {
                debug_assert_eq!(x, 1);
                return Ok(k);
            }
            if self.decide(s, e, &|b| Dec::Conc(k, b))? {
                return Ok(k);
            }
        }
    }

    /// Splits by the values of the 8-bit variables an expression depends on.
    fn conc_vars(&mut self, s: &mut State, e: E) -> R<()> {
        let mut m = self.ar.vars[e as usize];
        while m != 0 {
            let v = m.trailing_zeros();
            m &= m - 1;
            let w = self.ar.var_w[v as usize];
            if w > 8 {
                continue;
            }
            let x = self.ar.var(v, w);
            self.conc(s, V { c: 0, e: x }, w)?;
        }
        Ok(())
    }

    fn cond(&mut self, s: &mut State, v: V) -> R<bool> {
        if v.e == 0 {
            Ok(v.c & 1 == 1)
        } else {
            self.branch(s, v.e)
        }
    }

    // ------------------------------------------------------------- values

    #[inline]
    fn ex(&mut self, v: V, w: u8) -> E {
        if v.e != 0 {
            debug_assert_eq!(self.ar.w(v.e), w);
            v.e
        } else {
            self.ar.c(w, v.c)
        }
    }
    #[inline]
    fn mk(&self, e: E) -> V {
        match self.ar.kst(e) {
            Some(k) => cv(k),
            None => V { c: 0, e },
        }
    }

    fn load(&mut self, s: &mut State, p: V, w: u8) -> R<V> {
        let nb = (w as usize + 7) / 8;
        if p.e != 0 {
            if let Some(v) = self.ar.single_small(p.e) {
                if let Some(r) = self.table_load(s, v, p.e, w, nb) {
                    return Ok(r);
                }
            }
            let a = self.conc(s, p, 64)?;
            return self.load(s, cv(a), w);
        }
        match s.mem.read(p.c, nb)? {
            Some(v) => Ok(cv(v & mask(w))),
            None => {
                let mut acc: E = 0;
                for k in 0..nb {
                    let (b, e) = s.mem.byte(p.c + k as u64)?;
                    let e = if e == 0 { self.ar.c(8, b as u64) } else { e };
                    acc = if acc == 0 { e } else { self.ar.concat(e, acc) };
                }
                if (w as usize) < nb * 8 {
                    acc = self.ar.extract(acc, 0, w);
                }
                Ok(self.mk(acc))
            }
        }
    }

    fn table_load(&mut self, s: &State, v: u32, pe: E, w: u8, nb: usize) -> Option<V> {
        let vals = self.ar.values(pe);
        let d = s.doms[v as usize];
        let mut t = [0u64; 256];
        let mut same: Option<u64> = None;
        let mut all = true;
        for i in 0..256u64 {
            if bit(&d, i) {
                let x = match s.mem.read(vals[i as usize], nb) {
                    Ok(Some(x)) => x & mask(w),
                    _ => return None,
                };
                t[i as usize] = x;
                match same {
                    None => same = Some(x),
                    Some(y) if y != x => all = false,
                    _ => {}
                }
            }
        }
        if all {
            return Some(cv(same?));
        }
        let ve = self.ar.var(v, self.ar.var_w[v as usize]);
        let e = self.ar.tbl(ve, w, t);
        Some(self.mk(e))
    }

    fn store(&mut self, s: &mut State, p: u64, v: V, w: u8) -> R<()> {
        let nb = (w as usize + 7) / 8;
        if v.e == 0 {
            s.mem.write(p, nb, v.c)?;
        } else {
            let e = if (w as usize) < nb * 8 { self.ar.zext(v.e, nb as u8 * 8) } else { v.e };
            for k in 0..nb {
                let b = self.ar.extract(e, k as u8 * 8, 8);
                match self.ar.kst(b) {
                    Some(c) => s.mem.set_byte(p + k as u64, c as u8, 0)?,
                    None => s.mem.set_byte(p + k as u64, 0, b)?,
                }
            }
        }
        Ok(())
    }

    fn bin(&mut self, s: &mut State, op: BinOp, w: u8, a: V, b: V) -> R<V> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        if a.e == 0 && b.e == 0 {
            return match fold(o, w, a.c, b.c) {
                Some(x) => Ok(cv(x)),
                None => err("division by zero"),
            };
        }
        let _ = s;
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.ar.bin(o, x, y);
        Ok(self.mk(r))
    }

    fn icmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 {
            return cv(icmp_c(p, w, a.c, b.c) as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.icmp_e(p, x, y);
        self.mk(r)
    }
    fn icmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.ar.cmp(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.cmp(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.cmp(Op::Ult, x, y),
            Pred::Ule => self.ar.cmp(Op::Ule, x, y),
            Pred::Ugt => self.ar.cmp(Op::Ult, y, x),
            Pred::Uge => self.ar.cmp(Op::Ule, y, x),
            Pred::Slt => self.ar.cmp(Op::Slt, x, y),
            Pred::Sle => self.ar.cmp(Op::Sle, x, y),
            Pred::Sgt => self.ar.cmp(Op::Slt, y, x),
            Pred::Sge => self.ar.cmp(Op::Sle, y, x),
        }
    }
    fn wide(&mut self, lo: V, hi: V, w: u8) -> E {
        let l = self.ex(lo, 64);
        let h = self.ex(hi, w - 64);
        self.ar.concat(h, l)
    }
    fn unwide(&mut self, e: E, w: u8) -> (V, V) {
        let l = self.ar.extract(e, 0, 64);
        let h = self.ar.extract(e, 64, w - 64);
        (self.mk(l), self.mk(h))
    }

    fn fcmp(&mut self, p: FPred, dbl: bool, a: V, b: V) -> V {
        let w = if dbl { 64 } else { 32 };
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let r = match p {
            FPred::False => ar.c(1, 0),
            FPred::True => ar.c(1, 1),
            FPred::Oeq => ar.fbin(Op::FEq, x, y),
            FPred::Une => {
                let e = ar.fbin(Op::FEq, x, y);
                ar.not(e)
            }
            FPred::Olt => ar.fbin(Op::FLt, x, y),
            FPred::Ogt => ar.fbin(Op::FLt, y, x),
            FPred::Ole => ar.fbin(Op::FLe, x, y),
            FPred::Oge => ar.fbin(Op::FLe, y, x),
            FPred::Uge => {
                let e = ar.fbin(Op::FLt, x, y);
                ar.not(e)
            }
            FPred::Ule => {
                let e = ar.fbin(Op::FLt, y, x);
                ar.not(e)
            }
            FPred::Ugt => {
                let e = ar.fbin(Op::FLe, x, y);
                ar.not(e)
            }
            FPred::Ult => {
                let e = ar.fbin(Op::FLe, y, x);
                ar.not(e)
            }
            FPred::Uno => ar.fbin(Op::FUno, x, y),
            FPred::Ord => {
                let e = ar.fbin(Op::FUno, x, y);
                ar.not(e)
            }
            FPred::One => {
                let e = ar.fbin(Op::FLt, x, y);
                let f = ar.fbin(Op::FLt, y, x);
                ar.bin(Op::Or, e, f)
            }
            FPred::Ueq => {
                let e = ar.fbin(Op::FLt, x, y);
                let f = ar.fbin(Op::FLt, y, x);
                let g = ar.bin(Op::Or, e, f);
                ar.not(g)
            }
        };
        self.mk(r)
    }

    fn cast(&mut self, k: Cast, from: u8, to: u8, a: V) -> V {
        match k {
            Cast::Trunc => {
                if a.e == 0 {
                    return cv(a.c & mask(to));
                }
                let e = self.ar.extract(a.e, 0, to);
                self.mk(e)
            }
            Cast::ZExt => {
                if a.e == 0 {
                    return a;
                }
                let e = self.ar.zext(a.e, to);
                self.mk(e)
            }
            Cast::SExt => {
                if a.e == 0 {
                    return cv(sx(a.c, from) as u64 & mask(to));
                }
                let e = self.ar.sext(a.e, to);
                self.mk(e)
            }
            _ => {
                let op = match k {
                    Cast::FpToSi | Cast::FpToSiSat => Op::FToS,
                    Cast::FpToUi | Cast::FpToUiSat => Op::FToU,
                    Cast::SiToFp => Op::SToF,
                    Cast::UiToFp => Op::UToF,
                    Cast::FpExt => Op::FExt,
                    _ => Op::FTrunc,
                };
                let x = self.ex(a, from);
                let e = self.ar.un(op, to, x, 0);
                self.mk(e)
            }
        }
    }

    // ---------------------------------------------------------- main loop

    /// Runs until the path ends (Some) or was stashed as base (None).
    fn run(&mut self, mut st: State, sink: &dyn Sink) -> Option<(End, State)> {
        let r = self.run_inner(&mut st, sink);
        match r {
            Ok(()) => None,
            Err(Flow::End(e)) => Some((e, st)),
        }
    }

    fn run_inner(&mut self, s: &mut State, sink: &dyn Sink) -> R<()> {
        let mut budget = 0u32;
        loop {
            // The code is kept alive by the frame; the raw pointer avoids a
            // reference count per instruction.
            let code: *const FuncCode = &*s.top.code;
            let code: &FuncCode = unsafe { &*code };
            budget += 1;
            if self.late {
                return Err(Flow::End(End::Killed));
            }
            if budget & 0xfff == 0 {
                if s.steps > self.cfg.max_steps {
                    return Err(Flow::End(End::Limit));
                }
                if budget & 0xffff == 0 {
                    if sink.stop() {
                        return Err(Flow::End(End::Killed));
                    }
                    while sink.idle() && !self.local.is_empty() {
                        let x = self.local.remove(0);
                        self.export(x, sink);
                    }
                }
            }
            s.steps += 1;
            if !self.inst_decs.is_empty() {
                self.inst_decs.clear();
            }
            self.inst_trace = s.trace.clone();
            let pc = s.top.pc;
            let inst = &code.code[pc as usize];
            if self.profile {
                *self.hot.entry((s.top.fid, 0)).or_default() += 1;
            }
            macro_rules! get {
                ($o:expr) => {{
                    let o = $o;
                    if o & CBIT != 0 {
                        cv(unsafe { *code.consts.get_unchecked((o & !CBIT) as usize) })
                    } else {
                        unsafe { *s.top.regs.get_unchecked(o as usize) }
                    }
                }};
            }
            macro_rules! set {
                ($r:expr, $v:expr) => {{
                    let v = $v;
                    unsafe { *s.top.regs.get_unchecked_mut($r as usize) = v };
                }};
            }
            match inst {
                Inst::Bin { op, w, dst, a, b, n } => {
                    if *n == 1 {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e == 0 && y.e == 0 {
                            let m = mask(*w);
                            let r = match op {
                                BinOp::Add => x.c.wrapping_add(y.c) & m,
                                BinOp::Sub => x.c.wrapping_sub(y.c) & m,
                                BinOp::And => x.c & y.c,
                                BinOp::Or => x.c | y.c,
                                BinOp::Xor => x.c ^ y.c,
                                BinOp::Mul => x.c.wrapping_mul(y.c) & m,
                                _ => self.bin(s, *op, *w, x, y)?.c,
                            };
                            set!(*dst, cv(r));
                        } else {
                            let y = if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y.e != 0 {
                                y
                            } else {
                                y
                            };
                            let r = self.bin(s, *op, *w, x, y)?;
                            set!(*dst, r);
                        }
                    } else {
                        for k in 0..*n {
                            let (x, y) = (get!(*a + k), get!(*b + k));
                            let r = self.bin(s, *op, *w, x, y)?;
                            set!(*dst + k, r);
                        }
                    }
                    s.top.pc = pc + 1;
                }
                Inst::ICmp { p, w, dst, a, b, n } => {
                    for k in 0..*n {
                        let (x, y) = (get!(*a + k), get!(*b + k));
                        let r = if x.e == 0 && y.e == 0 { cv(icmp_c(*p, *w, x.c, y.c) as u64) } else { self.icmp(*p, *w, x, y) };
                        let r = if r.e != 0 { self.fold(s, r)? } else { r };
                        set!(*dst + k, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Load { dst, p, w } => {
                    let p = get!(*p);
                    let r = self.load(s, p, *w)?;
                    set!(*dst, r);
                    s.top.pc = pc + 1;
                }
                Inst::Store { v, p, w } => {
                    let (v, p) = (get!(*v), get!(*p));
                    let p = self.conc(s, p, 64)?;
                    self.store(s, p, v, *w)?;
                    s.top.pc = pc + 1;
                }
                Inst::Gep { dst, base, off, idx } => {
                    let b = get!(*base);
                    let mut acc = b.c.wrapping_add(*off);
                    let mut sym = b.e != 0;
                    for (i, w, sc) in idx.iter() {
                        let v = get!(*i);
                        if v.e != 0 {
                            sym = true;
                        } else {
                            acc = acc.wrapping_add((sx(v.c, *w) as u64).wrapping_mul(*sc));
                        }
                    }
                    if !sym {
                        set!(*dst, cv(acc));
                    } else {
                        if b.e != 0 {
                            acc = acc.wrapping_sub(b.c);
                        }
                        let mut e = self.ar.c(64, acc);
                        if b.e != 0 {
                            e = self.ar.bin(Op::Add, b.e, e);
                        }
                        for (i, _, sc) in idx.iter() {
                            let v = get!(*i);
                            if v.e != 0 {
                                let x = self.ar.sext(v.e, 64);
                                let k = self.ar.c(64, *sc);
                                let t = self.ar.bin(Op::Mul, x, k);
                                e = self.ar.bin(Op::Add, t, e);
                            }
                        }
                        let r = self.mk(e);
                        set!(*dst, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::CondBr { c, t, f } => {
                    let c = get!(*c);
                    let d = self.cond(s, c)?;
                    let e = if d { t } else { f };
                    take_edge(s, code, e);
                }
                Inst::Br(e) => take_edge(s, code, e),
                Inst::Copy { dst, a, n } => {
                    for k in 0..*n {
                        let v = get!(*a + k);
                        set!(*dst + k, v);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Cast { k, from, to, dst, a, n } => {
                    for i in 0..*n {
                        let v = get!(*a + i);
                        let r = self.cast(*k, *from, *to, v);
                        set!(*dst + i, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Select { n, vec, w, dst, c, a, b } => {
                    for i in 0..*n {
                        let cnd = get!(if *vec { *c + i } else { *c });
                        let (x, y) = (get!(*a + i), get!(*b + i));
                        let r = if cnd.e == 0 {
                            if cnd.c & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        } else if x.e == 0 && y.e == 0 && x.c == y.c {
                            x
                        } else {
                            let ww = w[i as usize];
                            let (p, q) = (self.ex(x, ww), self.ex(y, ww));
                            let e = self.ar.ite(cnd.e, p, q);
                            self.mk(e)
                        };
                        set!(*dst + i, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Call(ci) => self.call(s, code, ci, pc)?,
                Inst::Ret { a, n } => {
                    let mut tmp = [V::default(); 8];
                    let mut big = vec![];
                    let n = *n as usize;
                    if n <= 8 {
                        for k in 0..n {
                            tmp[k] = get!(*a + k as u32);
                        }
                    } else {
                        for k in 0..n {
                            big.push(get!(*a + k as u32));
                        }
                    }
                    s.mem.sp = s.top.sp;
                    match s.stack.pop() {
                        None => return Err(Flow::End(End::Done)),
                        Some(f) => {
                            let f = match Rc::try_unwrap(f) {
                                Ok(f) => f,
                                Err(rc) => {
                                    let mut regs = self.pool.pop().unwrap_or_default();
                                    regs.clear();
                                    regs.extend_from_slice(&rc.regs);
                                    Frame { fid: rc.fid, code: rc.code.clone(), regs, pc: rc.pc, sp: rc.sp }
                                }
                            };
                            let old = std::mem::replace(&mut *s.top, f);
                            if self.pool.len() < 256 {
                                self.pool.push(old.regs);
                            }
                            let vals: &[V] = if n <= 8 { &tmp[..n] } else { &big };
                            self.ret(s, vals);
                        }
                    }
                }
                Inst::Switch { w, v, cases, edges } => {
                    let x = get!(*v);
                    let mut k = 0usize;
                    if x.e == 0 {
                        if let Ok(i) = cases.binary_search_by(|c| c.0.cmp(&x.c)) {
                            k = cases[i].1 as usize;
                        }
                    } else {
                        // group the cases by destination
                        let mut conds: Vec<E> = vec![0; edges.len()];
                        for (c, g) in cases.iter() {
                            let kc = self.ar.c(*w, *c);
                            let e = self.ar.cmp(Op::Eq, x.e, kc);
                            let g = *g as usize;
                            conds[g] = if conds[g] == 0 { e } else { self.ar.bin(Op::Or, conds[g], e) };
                        }
                        for g in 1..edges.len() {
                            if conds[g] != 0 && self.branch(s, conds[g])? {
                                k = g;
                                break;
                            }
                        }
                    }
                    take_edge(s, code, &edges[k]);
                }
                Inst::Intr { k, w, n, dst, args } => {
                    self.intr(s, code, *k, *w, *n, *dst, args)?;
                    s.top.pc = pc + 1;
                }
                Inst::Alloca { dst, size, align, cnt } => {
                    let c = get!(*cnt);
                    let c = self.conc(s, c, 64)?;
                    let sz = size.wrapping_mul(c);
                    let a = s.mem.sp.wrapping_sub(sz) & !((*align).max(8) as u64 - 1);
                    if a < STACK_MIN || sz > 1 << 26 {
                        return Err(Flow::End(End::Violation("stack overflow".into())));
                    }
                    s.mem.sp = a;
                    set!(*dst, cv(a));
                    s.top.pc = pc + 1;
                }
                Inst::LoadN { dst, p, lay, bitpack } => {
                    let p = get!(*p);
                    let p = self.conc(s, p, 64)?;
                    if *bitpack > 0 {
                        let v = self.load(s, cv(p), *bitpack)?;
                        if v.e != 0 {
                            return err("symbolic bit vector load");
                        }
                        for k in 0..*bitpack as u32 {
                            set!(*dst + k, cv(v.c >> k & 1));
                        }
                    } else {
                        for (i, (o, w)) in lay.iter().enumerate() {
                            let r = self.load(s, cv(p + *o as u64), *w)?;
                            set!(*dst + i as u32, r);
                        }
                    }
                    s.top.pc = pc + 1;
                }
                Inst::StoreN { v, p, lay, bitpack } => {
                    let p = get!(*p);
                    let p = self.conc(s, p, 64)?;
                    if *bitpack > 0 {
                        let mut acc = 0;
                        for k in 0..*bitpack as u32 {
                            let x = get!(*v + k);
                            if x.e != 0 {
                                return err("symbolic bit vector store");
                            }
                            acc |= (x.c & 1) << k;
                        }
                        self.store(s, p, cv(acc), *bitpack)?;
                    } else {
                        for (i, (o, w)) in lay.iter().enumerate() {
                            let x = get!(*v + i as u32);
                            self.store(s, p + *o as u64, x, *w)?;
                        }
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Insert { dst, agg, n, v, off, k } => {
                    let mut t: Vec<V> = (0..*n).map(|i| get!(*agg + i)).collect();
                    for i in 0..*k {
                        t[(*off + i) as usize] = get!(*v + i);
                    }
                    for (i, x) in t.into_iter().enumerate() {
                        set!(*dst + i as u32, x);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::ExtractEl { dst, a, n, k, idx } => {
                    let i = get!(*idx);
                    let i = self.conc(s, i, 64)?;
                    if i >= *n as u64 {
                        return err("extractelement index");
                    }
                    for j in 0..*k {
                        let v = get!(*a + i as u32 * *k + j);
                        set!(*dst + j, v);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::InsertEl { dst, a, n, k, v, idx } => {
                    let i = get!(*idx);
                    let i = self.conc(s, i, 64)?;
                    let mut t: Vec<V> = (0..*n * *k).map(|j| get!(*a + j)).collect();
                    for j in 0..*k {
                        t[i as usize * *k as usize + j as usize] = get!(*v + j);
                    }
                    for (j, x) in t.into_iter().enumerate() {
                        set!(*dst + j as u32, x);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Shuffle { dst, a, b, n, mask } => {
                    let t: Vec<V> = mask
                        .iter()
                        .map(|&m| {
                            if m < 0 {
                                V::default()
                            } else if (m as u32) < *n {
                                get!(*a + m as u32)
                            } else {
                                get!(*b + (m as u32 - *n))
                            }
                        })
                        .collect();
                    for (j, x) in t.into_iter().enumerate() {
                        set!(*dst + j as u32, x);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Repack { dst, a, fw, fn_, tw, tn } => {
                    let src: Vec<V> = (0..*fn_).map(|i| get!(*a + i)).collect();
                    let out = self.repack(&src, *fw, *tw, *tn)?;
                    for (j, x) in out.into_iter().enumerate() {
                        set!(*dst + j as u32, x);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Bin128 { op, w, dst, a, b } => {
                    let (al, ah, bl, bh) = (get!(*a), get!(*a + 1), get!(*b), get!(*b + 1));
                    let o = match op {
                        BinOp::Add => Op::Add,
                        BinOp::Sub => Op::Sub,
                        BinOp::Mul => Op::Mul,
                        BinOp::UDiv => Op::UDiv,
                        BinOp::SDiv => Op::SDiv,
                        BinOp::URem => Op::URem,
                        BinOp::SRem => Op::SRem,
                        BinOp::Shl => Op::Shl,
                        BinOp::LShr => Op::LShr,
                        BinOp::AShr => Op::AShr,
                        BinOp::And => Op::And,
                        BinOp::Or => Op::Or,
                        BinOp::Xor => Op::Xor,
                    };
                    let (l, h) = if al.e | ah.e | bl.e | bh.e == 0 {
                        let x = (ah.c as u128) << 64 | al.c as u128;
                        let y = (bh.c as u128) << 64 | bl.c as u128;
                        let r = bin128(o, *w, x, y);
                        match r {
                            Some(r) => (cv(r as u64), cv((r >> 64) as u64)),
                            None => return err("division by zero"),
                        }
                    } else {
                        let (mut l, mut h) = (None, None);
                        // constant shifts and masks stay simple
                        if bl.e | bh.e == 0 && matches!(o, Op::Shl | Op::LShr) {
                            let x = self.wide(al, ah, *w);
                            let sft = bl.c;
                            let e = if sft == 0 {
                                x
                            } else if o == Op::LShr {
                                let hi = self.ar.extract(x, sft as u8, *w - sft as u8);
                                self.ar.zext(hi, *w)
                            } else {
                                let lo = self.ar.extract(x, 0, *w - sft as u8);
                                let mut z = self.ar.c((sft as u8).min(64), 0);
                                if sft > 64 {
                                    let z2 = self.ar.c(sft as u8 - 64, 0);
                                    z = self.ar.concat(z2, z);
                                    // a concat of zeros is a zero-extension of zero
                                }
                                self.ar.concat(lo, z)
                            };
                            let (a, b) = self.unwide(e, *w);
                            l = Some(a);
                            h = Some(b);
                        } else if matches!(o, Op::And | Op::Or | Op::Xor) && *w == 128 {
                            let (x, y) = (self.ex(al, 64), self.ex(bl, 64));
                            let e = self.ar.bin(o, x, y);
                            l = Some(self.mk(e));
                            let (x, y) = (self.ex(ah, 64), self.ex(bh, 64));
                            let e = self.ar.bin(o, x, y);
                            h = Some(self.mk(e));
                        }
                        match (l, h) {
                            (Some(l), Some(h)) => (l, h),
                            _ => {
                                let x = self.wide(al, ah, *w);
                                let y = self.wide(bl, bh, *w);
                                let r = self.ar.bin(o, x, y);
                                self.unwide(r, *w)
                            }
                        }
                    };
                    set!(*dst, l);
                    set!(*dst + 1, h);
                    s.top.pc = pc + 1;
                }
                Inst::ICmp128 { p, w, dst, a, b } => {
                    let (al, ah, bl, bh) = (get!(*a), get!(*a + 1), get!(*b), get!(*b + 1));
                    let r = if al.e | ah.e | bl.e | bh.e == 0 {
                        let x = (ah.c as u128) << 64 | al.c as u128;
                        let y = (bh.c as u128) << 64 | bl.c as u128;
                        let sg = |v: u128| (v << (128 - *w)) as i128 >> (128 - *w);
                        cv(match p {
                            Pred::Eq => x == y,
                            Pred::Ne => x != y,
                            Pred::Ult => x < y,
                            Pred::Ule => x <= y,
                            Pred::Ugt => x > y,
                            Pred::Uge => x >= y,
                            Pred::Slt => sg(x) < sg(y),
                            Pred::Sle => sg(x) <= sg(y),
                            Pred::Sgt => sg(x) > sg(y),
                            Pred::Sge => sg(x) >= sg(y),
                        } as u64)
                    } else {
                        let x = self.wide(al, ah, *w);
                        let y = self.wide(bl, bh, *w);
                        let e = self.icmp_e(*p, x, y);
                        self.mk(e)
                    };
                    set!(*dst, r);
                    s.top.pc = pc + 1;
                }
                Inst::CastW { k, from, to, dst, a } => {
                    let lo = get!(*a);
                    match (k, *from > 64, *to > 64) {
                        (Cast::Trunc, true, false) => {
                            let r = self.cast(Cast::Trunc, 64, *to, lo);
                            let r = if *to == 64 { lo } else { r };
                            set!(*dst, r);
                        }
                        (Cast::Trunc, true, true) => {
                            let hi = get!(*a + 1);
                            let hi = if *to == *from { hi } else { self.cast(Cast::Trunc, *from - 64, *to - 64, hi) };
                            set!(*dst, lo);
                            set!(*dst + 1, hi);
                        }
                        (Cast::ZExt, false, true) => {
                            let lo = if *from < 64 { self.cast(Cast::ZExt, *from, 64, lo) } else { lo };
                            set!(*dst, lo);
                            set!(*dst + 1, cv(0));
                        }
                        (Cast::ZExt, true, true) => {
                            let hi = get!(*a + 1);
                            let hi = self.cast(Cast::ZExt, *from - 64, *to - 64, hi);
                            set!(*dst, lo);
                            set!(*dst + 1, hi);
                        }
                        (Cast::SExt, false, true) => {
                            let l2 = if *from < 64 { self.cast(Cast::SExt, *from, 64, lo) } else { lo };
                            let hi = if l2.e == 0 {
                                cv(((l2.c as i64) >> 63) as u64 & mask(*to - 64))
                            } else {
                                let sgn = self.ar.extract(l2.e, 63, 1);
                                let e = self.ar.sext(sgn, *to - 64);
                                self.mk(e)
                            };
                            set!(*dst, l2);
                            set!(*dst + 1, hi);
                        }
                        _ => return err("wide cast"),
                    }
                    s.top.pc = pc + 1;
                }
                Inst::FBin { op, dbl, dst, a, b, n } => {
                    let o = match op {
                        crate::ir::FBin::Add => Op::FAdd,
                        crate::ir::FBin::Sub => Op::FSub,
                        crate::ir::FBin::Mul => Op::FMul,
                        crate::ir::FBin::Div => Op::FDiv,
                        crate::ir::FBin::Rem => Op::FRem,
                    };
                    let w = if *dbl { 64 } else { 32 };
                    for k in 0..*n {
                        let (mut x, mut y) = (get!(*a + k), get!(*b + k));
                        if x.e | y.e != 0 {
                            // arithmetic on values built from small variables is split by value
                            if x.e != 0 && (o == Op::FRem || self.smallish(s, x.e)) {
                                self.conc_vars(s, x.e)?;
                                x = cv(self.conc(s, x, w)?);
                            }
                            if y.e != 0 && (o == Op::FRem || self.smallish(s, y.e)) {
                                self.conc_vars(s, y.e)?;
                                y = cv(self.conc(s, y, w)?);
                            }
                        }
                        let (p, q) = (self.ex(x, w), self.ex(y, w));
                        let e = self.ar.fbin(o, p, q);
                        let r = self.mk(e);
                        set!(*dst + k, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::FCmp { p, dbl, dst, a, b, n } => {
                    for k in 0..*n {
                        let (x, y) = (get!(*a + k), get!(*b + k));
                        let r = self.fcmp(*p, *dbl, x, y);
                        set!(*dst + k, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::FNeg { dbl, dst, a, n } => {
                    let w = if *dbl { 64 } else { 32 };
                    for k in 0..*n {
                        let x = get!(*a + k);
                        let p = self.ex(x, w);
                        let c = self.ar.c(w, 1 << (w - 1));
                        let e = self.ar.bin(Op::Xor, p, c);
                        let r = self.mk(e);
                        set!(*dst + k, r);
                    }
                    s.top.pc = pc + 1;
                }
                Inst::Rmw { op, w, dst, p, v } => {
                    let p = get!(*p);
                    let v = get!(*v);
                    let p = self.conc(s, p, 64)?;
                    let old = self.load(s, cv(p), *w)?;
                    let new = match op {
                        Rmw::Xchg => v,
                        Rmw::Add => self.bin(s, BinOp::Add, *w, old, v)?,
                        Rmw::Sub => self.bin(s, BinOp::Sub, *w, old, v)?,
                        Rmw::And => self.bin(s, BinOp::And, *w, old, v)?,
                        Rmw::Or => self.bin(s, BinOp::Or, *w, old, v)?,
                        Rmw::Xor => self.bin(s, BinOp::Xor, *w, old, v)?,
                        _ => return err("atomic min/max"),
                    };
                    self.store(s, p, new, *w)?;
                    set!(*dst, old);
                    s.top.pc = pc + 1;
                }
                Inst::CmpXchg { w, dst, p, c, v } => {
                    let p = get!(*p);
                    let (c, v) = (get!(*c), get!(*v));
                    let p = self.conc(s, p, 64)?;
                    let old = self.load(s, cv(p), *w)?;
                    let eq = self.icmp(Pred::Eq, *w, old, c);
                    let ok = self.cond(s, eq)?;
                    if ok {
                        self.store(s, p, v, *w)?;
                    }
                    set!(*dst, old);
                    set!(*dst + 1, cv(ok as u64));
                    s.top.pc = pc + 1;
                }
                Inst::Unreachable => return err("reached `unreachable`"),
                Inst::Bad(m) => return err(format!("unsupported: {m}")),
            }
        }
    }

    /// all variables small and few enough values to split
    fn smallish(&self, _s: &State, e: E) -> bool {
        let mut m = self.ar.vars[e as usize];
        while m != 0 {
            let v = m.trailing_zeros();
            m &= m - 1;
            if self.ar.var_w[v as usize] > 8 {
                return false;
            }
        }
        true
    }

    fn repack(&mut self, src: &[V], fw: u8, tw: u8, tn: u32) -> R<Vec<V>> {
        if src.iter().all(|v| v.e == 0) {
            let mut bits: Vec<u64> = vec![];
            if fw >= 8 && tw >= 8 && fw % 8 == 0 && tw % 8 == 0 {
                let mut by = vec![];
                for v in src {
                    by.extend_from_slice(&v.c.to_le_bytes()[..fw as usize / 8]);
                }
                for k in 0..tn as usize {
                    let n = tw as usize / 8;
                    let mut x = [0u8; 8];
                    x[..n].copy_from_slice(&by[k * n..(k + 1) * n]);
                    bits.push(u64::from_le_bytes(x));
                }
                return Ok(bits.into_iter().map(cv).collect());
            }
            let get = |i: usize| src[i / fw as usize].c >> (i % fw as usize) & 1;
            let mut out = vec![];
            for k in 0..tn as usize {
                let mut x = 0u64;
                for j in 0..tw as usize {
                    x |= get(k * tw as usize + j) << j;
                }
                out.push(cv(x));
            }
            return Ok(out);
        }
        // symbolic: concatenations and extractions
        let mut out = vec![];
        if tw >= fw {
            let per = (tw / fw) as usize;
            for k in 0..tn as usize {
                let mut acc: E = 0;
                for j in 0..per {
                    let e = self.ex(src[k * per + j], fw);
                    acc = if acc == 0 { e } else { self.ar.concat(e, acc) };
                }
                out.push(self.mk(acc));
            }
        } else {
            let per = (fw / tw) as usize;
            for k in 0..tn as usize {
                let e = self.ex(src[k / per], fw);
                let x = self.ar.extract(e, (k % per) as u8 * tw, tw);
                out.push(self.mk(x));
            }
        }
        Ok(out)
    }

    fn ret(&mut self, s: &mut State, vals: &[V]) {
        let code: *const FuncCode = &*s.top.code;
        let code: &FuncCode = unsafe { &*code };
        if let Inst::Call(ci) = &code.code[s.top.pc as usize] {
            for k in 0..ci.nret as usize {
                s.top.regs[ci.dst as usize + k] = vals.get(k).copied().unwrap_or_default();
            }
            match &ci.normal {
                Some(e) => take_edge(s, code, e),
                None => s.top.pc += 1,
            }
        } else {
            unreachable!()
        }
    }

    fn call(&mut self, s: &mut State, code: &FuncCode, ci: &CallI, _pc: u32) -> R<()> {
        macro_rules! get {
            ($o:expr) => {{
                let o = $o;
                if o & CBIT != 0 {
                    cv(code.consts[(o & !CBIT) as usize])
                } else {
                    s.top.regs[o as usize]
                }
            }};
        }
        let fid = match &ci.callee {
            Callee::Func(f) => *f,
            Callee::Ind(o) => {
                let v = get!(*o);
                let a = self.conc(s, v, 64)?;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return err(format!("call through bad pointer {a:#x}"));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let b = self.bi[fid as usize];
        if b != Bi::None {
            let mut args: Vec<V> = Vec::with_capacity(8);
            for &(o, n) in ci.args.iter() {
                for k in 0..n {
                    args.push(get!(o + k));
                }
            }
            let r = self.builtin(s, b, fid, &args)?;
            self.ret(s, &r);
            return Ok(());
        }
        self.used.insert(fid);
        let fc = self.m.code(fid).clone();
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(fc.nregs as usize, V::default());
        for (&(o, n), &(r, pn)) in ci.args.iter().zip(fc.params.iter()) {
            for k in 0..n.min(pn) {
                regs[(r + k) as usize] = get!(o + k);
            }
        }
        if s.stack.len() > 20_000 {
            return Err(Flow::End(End::Violation("call depth over 20000".into())));
        }
        let f = Frame { fid, code: fc, regs, pc: 0, sp: s.mem.sp };
        let old = std::mem::replace(&mut *s.top, f);
        s.stack.push(Rc::new(old));
        Ok(())
    }

    fn cstr(&self, s: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for k in 0..n.min(4096) {
            match s.mem.byte(p + k) {
                Ok((b, _)) => v.push(b),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn builtin(&mut self, s: &mut State, b: Bi, fid: u32, a: &[V]) -> R<Vec<V>> {
        let name = &self.m.funcs[fid as usize].name;
        Ok(match b {
            Bi::Alloc | Bi::AllocZ => {
                let n = self.conc(s, a[0], 64)?;
                let al = self.conc(s, a[1], 64)?;
                if n > 1 << 28 {
                    return Err(Flow::End(End::Violation(format!("allocation of {n} bytes"))));
                }
                vec![cv(s.mem.alloc(n, al))]
            }
            Bi::Realloc => {
                let p = self.conc(s, a[0], 64)?;
                let old = self.conc(s, a[1], 64)?;
                let al = self.conc(s, a[2], 64)?;
                let n = self.conc(s, a[3], 64)?;
                if n > 1 << 28 {
                    return Err(Flow::End(End::Violation(format!("allocation of {n} bytes"))));
                }
                let q = s.mem.alloc(n, al);
                s.mem.copy(q, p, old.min(n))?;
                vec![cv(q)]
            }
            Bi::Malloc => {
                let n = self.conc(s, a[0], 64)?;
                vec![cv(s.mem.alloc(n, 16))]
            }
            Bi::Calloc => {
                let n = self.conc(s, a[0], 64)?;
                let k = self.conc(s, a[1], 64)?;
                vec![cv(s.mem.alloc(n * k, 16))]
            }
            Bi::Dealloc | Bi::Nop => vec![],
            Bi::Zero => vec![cv(0)],
            Bi::Errno => {
                if s.errno == 0 {
                    s.errno = s.mem.alloc(8, 8);
                }
                vec![cv(s.errno)]
            }
            Bi::Panic => {
                // the last argument is normally the source location
                let mut loc = String::new();
                if let Some(l) = a.last() {
                    if l.e == 0 && l.c >= GLOBAL_BASE && l.c < GLOBAL_BASE + s.mem.glen {
                        if let (Ok(Some(p)), Ok(Some(n)), Ok(Some(line))) = (s.mem.read(l.c, 8), s.mem.read(l.c + 8, 8), s.mem.read(l.c + 16, 4)) {
                            if n < 300 && p >= GLOBAL_BASE && p < GLOBAL_BASE + s.mem.glen {
                                loc = format!(" at {}:{}", self.cstr(s, p, n.saturating_sub(1)), line);
                            }
                        }
                    }
                }
                let short = name.rsplit("panicking").next().unwrap_or("");
                return Err(Flow::End(End::Violation(format!("panic ({}){}", short.trim_start_matches(|c: char| c.is_ascii_digit()), loc))));
            }
            Bi::Abort => return Err(Flow::End(End::Violation("abort".into()))),
            Bi::HashOne => vec![cv(0x5bd1_e995_1234_5678)],
            Bi::RandKeys => vec![cv(1), cv(2)],
            Bi::Memcmp => {
                let n = self.conc(s, a[2], 64)?;
                let p = self.conc(s, a[0], 64)?;
                let q = self.conc(s, a[1], 64)?;
                let is_b = name == "bcmp";
                // concrete prefix
                let mut i = 0;
                let mut pairs: Vec<(E, E)> = vec![];
                let mut res: Option<V> = None;
                while i < n {
                    let (x, xe) = s.mem.byte(p + i)?;
                    let (y, ye) = s.mem.byte(q + i)?;
                    if xe == 0 && ye == 0 {
                        if x != y {
                            let d = if x < y { 0xffff_ffffu64 } else { 1 };
                            res = Some(cv(d));
                            break;
                        }
                    } else {
                        let ea = if xe != 0 { xe } else { self.ar.c(8, x as u64) };
                        let eb = if ye != 0 { ye } else { self.ar.c(8, y as u64) };
                        pairs.push((ea, eb));
                    }
                    i += 1;
                }
                let tail = res.unwrap_or(cv(0));
                let mut acc = self.ar.c(32, tail.c);
                let one = self.ar.c(32, 1);
                let neg = self.ar.c(32, 0xffff_ffff);
                if is_b {
                    if tail.c != 0 {
                        return Ok(vec![cv(1)]);
                    }
                    let mut all = self.ar.c(1, 1);
                    for (x, y) in pairs {
                        let e = self.ar.cmp(Op::Eq, x, y);
                        all = self.ar.bin(Op::And, all, e);
                    }
                    let z = self.ar.c(32, 0);
                    let r = self.ar.ite(all, z, one);
                    return Ok(vec![self.mk(r)]);
                }
                for (x, y) in pairs.into_iter().rev() {
                    let e = self.ar.cmp(Op::Eq, x, y);
                    let l = self.ar.cmp(Op::Ult, x, y);
                    let d = self.ar.ite(l, neg, one);
                    acc = self.ar.ite(e, acc, d);
                }
                vec![self.mk(acc)]
            }
            Bi::Strlen => {
                let p = self.conc(s, a[0], 64)?;
                let mut n = 0;
                loop {
                    let (b, e) = s.mem.byte(p + n)?;
                    if e != 0 {
                        return err("strlen of symbolic data");
                    }
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                vec![cv(n)]
            }
            Bi::VsSym => vec![cv(1)],
            Bi::VsBegin => {
                if !s.begun {
                    // remember the state just before this call
                    self.base = Some(s.clone());
                    return Err(Flow::End(End::Killed));
                }
                vec![]
            }
            Bi::VsVar => {
                // Identifiers are the same on every path and worker: 0..16 are
                // 64 bits wide, 16..128 are 8 bits wide.
                let bits: u8 = if a[0].c <= 8 { 8 } else { 64 };
                let (lo, hi) = (a[1].c, a[2].c);
                let idx = if bits == 64 {
                    s.n64 += 1;
                    s.n64 - 1
                } else {
                    s.n8 += 1;
                    16 + s.n8 - 1
                };
                if s.n64 > 16 || s.n8 > 112 || lo > hi || (bits == 8 && hi > 255) {
                    return err("too many symbolic variables, or a bad range");
                }
                s.order.push(idx as u8);
                while s.doms.len() <= idx as usize {
                    s.doms.push([u64::MAX; 4]);
                }
                let e = self.ar.var(idx, bits);
                if s.model.len() <= idx as usize {
                    s.model.resize(idx as usize + 1, 0);
                }
                let mv = s.model[idx as usize];
                if mv < lo || mv > hi {
                    s.model[idx as usize] = lo;
                }
                if bits <= 8 {
                    let mut d = [0u64; 4];
                    for i in lo..=hi {
                        d[(i / 64) as usize] |= 1 << (i % 64);
                    }
                    s.doms[idx as usize] = d;
                } else if lo > 0 || hi < mask(bits) {
                    let l = self.ar.c(bits, lo);
                    let h = self.ar.c(bits, hi);
                    let c1 = self.ar.cmp(Op::Ule, l, e);
                    let c2 = self.ar.cmp(Op::Ule, e, h);
                    self.add_con(s, c1, true);
                    self.add_con(s, c2, true);
                }
                let z = if bits < 64 {
                    // the bits that every value of the range shares are constants
                    let k = (64 - (lo ^ hi).leading_zeros()) as u8;
                    if k > 0 && k < 8 {
                        let l = self.ar.extract(e, 0, k);
                        let h = self.ar.c(8 - k, lo >> k);
                        let e = self.ar.concat(h, l);
                        self.ar.zext(e, 64)
                    } else {
                        self.ar.zext(e, 64)
                    }
                } else {
                    e
                };
                let v = if lo == hi { cv(lo) } else { self.mk(z) };
                vec![v]
            }
            Bi::VsAssume => {
                let v = self.as_bool(a[0]);
                if v.e == 0 {
                    if v.c & 1 == 0 {
                        return Err(Flow::End(End::Assumed));
                    }
                    return Ok(vec![]);
                }
                if !self.branch(s, v.e)? {
                    return Err(Flow::End(End::Assumed));
                }
                vec![]
            }
            Bi::VsCheck => {
                let v = self.as_bool(a[0]);
                let p = a[1].c;
                let n = a[2].c;
                s.checks += 1;
                if v.e == 0 {
                    if v.c & 1 == 0 {
                        let m = self.cstr(s, p, n);
                        return Err(Flow::End(End::Violation(m)));
                    }
                    return Ok(vec![]);
                }
                // the solver decides the assertion
                if s.forced.is_empty() {
                    self.stats.checks_solver += 1;
                    let (r, m) = self.query(s, v.e, false);
                    match r {
                        Sat::Unsat => {}
                        Sat::Unknown => self.inconclusive += 1,
                        Sat::Sat => {
                            let mut t = s.clone();
                            for (x, val) in m {
                                t.model[x as usize] = val;
                            }
                            let msg = self.cstr(s, p, n);
                            let vv = self.violation(&t, msg);
                            self.add_violation(vv);
                            // go on where it holds
                            let (r, m) = self.query(s, v.e, true);
                            if r != Sat::Sat {
                                return Err(Flow::End(End::Killed));
                            }
                            for (x, val) in m {
                                s.model[x as usize] = val;
                            }
                            self.add_con(s, v.e, true);
                        }
                    }
                } else {
                    self.add_con(s, v.e, true);
                }
                vec![]
            }
            Bi::VsFail => {
                let m = self.cstr(s, a[0].c, a[1].c);
                return Err(Flow::End(End::Violation(m)));
            }
            Bi::VsNote => {
                let n = self.conc(s, a[1], 64)?;
                let p = self.conc(s, a[0], 64)?;
                let mut v = vec![];
                for k in 0..n.min(4096) {
                    v.push(s.mem.byte(p + k)?);
                }
                s.notes.push(v);
                vec![]
            }
            Bi::VsCover => {
                let i = self.conc(s, a[0], 32)?;
                *self.covers.entry(i as u32).or_default() += 1;
                vec![]
            }
            Bi::VsConc => {
                let v = self.conc(s, a[0], 64)?;
                vec![cv(v)]
            }
            Bi::VsDepth => vec![cv(s.stack.len() as u64 * 64)],
            Bi::VsKnown => {
                let k = self.cstr(s, a[0].c, a[1].c);
                s.known = if k.is_empty() { None } else { Some(k.into()) };
                vec![]
            }
            Bi::External => {
                return err(format!("external function {name}"));
            }
            Bi::None => unreachable!(),
        })
    }

    fn as_bool(&mut self, v: V) -> V {
        if v.e == 0 {
            return cv(v.c & 1);
        }
        let e = if self.ar.w(v.e) > 1 { self.ar.extract(v.e, 0, 1) } else { v.e };
        self.mk(e)
    }

    fn intr(&mut self, s: &mut State, code: &FuncCode, k: Intr, w: u8, n: u32, dst: Reg, args: &[Opd]) -> R<()> {
        macro_rules! get {
            ($o:expr) => {{
                let o = $o;
                if o & CBIT != 0 {
                    cv(code.consts[(o & !CBIT) as usize])
                } else {
                    s.top.regs[o as usize]
                }
            }};
        }
        match k {
            Intr::Nop | Intr::Assume => return Ok(()),
            Intr::Memcpy => {
                let (d, p, l) = (get!(args[0]), get!(args[1]), get!(args[2]));
                let l = self.conc(s, l, 64)?;
                let d = self.conc(s, d, 64)?;
                let p = self.conc(s, p, 64)?;
                s.mem.copy(d, p, l)?;
                return Ok(());
            }
            Intr::Memset => {
                let (d, v, l) = (get!(args[0]), get!(args[1]), get!(args[2]));
                let l = self.conc(s, l, 64)?;
                let d = self.conc(s, d, 64)?;
                s.mem.fill(d, l, v.c as u8, v.e)?;
                return Ok(());
            }
            Intr::Tls => {
                let v = get!(args[0]);
                s.top.regs[dst as usize] = v;
                return Ok(());
            }
            Intr::Trap => return Err(Flow::End(End::Violation("trap".into()))),
            Intr::Zero => {
                s.top.regs[dst as usize] = cv(0);
                return Ok(());
            }
            Intr::IsConst => {
                s.top.regs[dst as usize] = cv(0);
                return Ok(());
            }
            Intr::Expect => {
                let v = get!(args[0]);
                s.top.regs[dst as usize] = v;
                return Ok(());
            }
            Intr::PshufB => {
                let src: Vec<V> = (0..n).map(|i| get!(args[0] + i)).collect();
                let idx: Vec<V> = (0..n).map(|i| get!(args[1] + i)).collect();
                for i in 0..n as usize {
                    let ix = self.conc(s, idx[i], 8)?;
                    let v = if ix & 0x80 != 0 { cv(0) } else { src[(i & !15) + (ix as usize & 15)] };
                    s.top.regs[dst as usize + i] = v;
                }
                return Ok(());
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    return err("wide overflow intrinsic");
                }
                if n != 1 {
                    return err("vector overflow intrinsic");
                }
                let (a, b) = (get!(args[0]), get!(args[1]));
                let (r, o) = self.overflow(k, w, a, b);
                s.top.regs[dst as usize] = r;
                s.top.regs[dst as usize + 1] = o;
                return Ok(());
            }
            _ => {}
        }
        if w > 64 && !matches!(k, Intr::FpToSiSat | Intr::FpToUiSat) {
            // 128-bit min/max
            let (al, ah, bl, bh) = (get!(args[0]), get!(args[0] + 1), get!(args[1]), get!(args[1] + 1));
            if al.e | ah.e | bl.e | bh.e == 0 && w == 128 {
                let x = (ah.c as u128) << 64 | al.c as u128;
                let y = (bh.c as u128) << 64 | bl.c as u128;
                let r = match k {
                    Intr::UMax => x.max(y),
                    Intr::UMin => x.min(y),
                    Intr::SMax => (x as i128).max(y as i128) as u128,
                    Intr::SMin => (x as i128).min(y as i128) as u128,
                    _ => return err(format!("wide intrinsic {:?}", k)),
                };
                s.top.regs[dst as usize] = cv(r as u64);
                s.top.regs[dst as usize + 1] = cv((r >> 64) as u64);
                return Ok(());
            }
            let p = match k {
                Intr::UMax => Pred::Ugt,
                Intr::UMin => Pred::Ult,
                Intr::SMax => Pred::Sgt,
                Intr::SMin => Pred::Slt,
                _ => return err(format!("wide intrinsic {:?}", k)),
            };
            let x = self.wide(al, ah, w);
            let y = self.wide(bl, bh, w);
            let c = self.icmp_e(p, x, y);
            let r = self.ar.ite(c, x, y);
            let (l, h) = self.unwide(r, w);
            s.top.regs[dst as usize] = l;
            s.top.regs[dst as usize + 1] = h;
            return Ok(());
        }
        for i in 0..n {
            let a = get!(args[0] + i);
            let two = !matches!(
                k,
                Intr::Ctpop | Intr::Ctlz | Intr::Cttz | Intr::Bswap | Intr::Bitreverse | Intr::Abs | Intr::Fabs | Intr::FFloor | Intr::FCeil | Intr::FTrunc | Intr::FRound | Intr::FRint | Intr::FSqrt | Intr::FpToSiSat | Intr::FpToUiSat
            );
            let b = if two && args.len() > 1 { get!(args[1] + i) } else { V::default() };
            let c = if args.len() > 2 { get!(args[2] + i) } else { V::default() };
            let r = self.intr1(s, k, w, a, b, c)?;
            s.top.regs[(dst + i) as usize] = r;
        }
        Ok(())
    }

    fn overflow(&mut self, k: Intr, w: u8, a: V, b: V) -> (V, V) {
        if a.e == 0 && b.e == 0 {
            let m = mask(w);
            let (x, y) = (a.c, b.c);
            let (sx_, sy) = (sx(x, w) as i128, sx(y, w) as i128);
            let (ux, uy) = (x as u128, y as u128);
            let (full, signed) = match k {
                Intr::UAddO => (ux as i128 + uy as i128, false),
                Intr::USubO => (ux as i128 - uy as i128, false),
                Intr::UMulO => {
                    let p = ux * uy;
                    return (cv(p as u64 & m), cv((p > m as u128) as u64));
                }
                Intr::SAddO => (sx_ + sy, true),
                Intr::SSubO => (sx_ - sy, true),
                _ => (sx_ * sy, true),
            };
            let r = full as u64 & m;
            let o = if signed { sx(r, w) as i128 != full } else { r as i128 != full };
            return (cv(r), cv(o as u64));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let (r, o) = match k {
            Intr::UAddO => {
                let r = ar.bin(Op::Add, x, y);
                let o = ar.cmp(Op::Ult, r, x);
                (r, o)
            }
            Intr::USubO => {
                let r = ar.bin(Op::Sub, x, y);
                let o = ar.cmp(Op::Ult, x, y);
                (r, o)
            }
            Intr::SAddO | Intr::SSubO => {
                let sub = k == Intr::SSubO;
                let r = ar.bin(if sub { Op::Sub } else { Op::Add }, x, y);
                // overflow: operand signs agree (differ for sub) and the result's differs from x
                let s1 = ar.bin(Op::Xor, x, y);
                let s1 = if sub { s1 } else { ar.not(s1) };
                let s2 = ar.bin(Op::Xor, x, r);
                let t = ar.bin(Op::And, s1, s2);
                let o = ar.extract(t, w - 1, 1);
                (r, o)
            }
            _ => {
                let r = ar.bin(Op::Mul, x, y);
                let (fx, fy, fr) = if k == Intr::UMulO {
                    (ar.zext(x, 2 * w), ar.zext(y, 2 * w), ar.zext(r, 2 * w))
                } else {
                    (ar.sext(x, 2 * w), ar.sext(y, 2 * w), ar.sext(r, 2 * w))
                };
                let p = ar.bin(Op::Mul, fx, fy);
                let e = ar.cmp(Op::Eq, p, fr);
                (r, ar.not(e))
            }
        };
        (self.mk(r), self.mk(o))
    }

    fn intr1(&mut self, s: &mut State, k: Intr, w: u8, a: V, b: V, c: V) -> R<V> {
        let conc = a.e == 0 && b.e == 0 && c.e == 0;
        let m = if w >= 64 { u64::MAX } else { mask(w) };
        Ok(match k {
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz | Intr::Bitreverse => {
                if a.e == 0 {
                    let x = a.c;
                    return Ok(cv(match k {
                        Intr::Ctpop => x.count_ones() as u64,
                        Intr::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - w as u64).min(w as u64),
                        Intr::Cttz => (x.trailing_zeros() as u64).min(w as u64),
                        _ => x.reverse_bits() >> (64 - w),
                    }));
                }
                let ar = &mut self.ar;
                let mut acc = ar.c(w, if matches!(k, Intr::Ctlz | Intr::Cttz) { w as u64 } else { 0 });
                match k {
                    Intr::Ctpop => {
                        for i in 0..w {
                            let bt = ar.extract(a.e, i, 1);
                            let z = ar.zext(bt, w);
                            acc = ar.bin(Op::Add, acc, z);
                        }
                    }
                    Intr::Ctlz => {
                        for i in 0..w {
                            let bt = ar.extract(a.e, i, 1);
                            let v = ar.c(w, (w - 1 - i) as u64);
                            acc = ar.ite(bt, v, acc);
                        }
                    }
                    Intr::Cttz => {
                        for i in (0..w).rev() {
                            let bt = ar.extract(a.e, i, 1);
                            let v = ar.c(w, i as u64);
                            acc = ar.ite(bt, v, acc);
                        }
                    }
                    _ => {
                        let mut r = ar.extract(a.e, 0, 1);
                        for i in 1..w {
                            let bt = ar.extract(a.e, i, 1);
                            r = ar.concat(r, bt);
                        }
                        acc = r;
                    }
                }
                self.mk(acc)
            }
            Intr::Bswap => {
                if a.e == 0 {
                    return Ok(cv(a.c.swap_bytes() >> (64 - w)));
                }
                let mut r = self.ar.extract(a.e, 0, 8);
                for i in 1..w / 8 {
                    let x = self.ar.extract(a.e, i * 8, 8);
                    r = self.ar.concat(r, x);
                }
                self.mk(r)
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match k {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                if conc {
                    return Ok(if icmp_c(p, w, a.c, b.c) { a } else { b });
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let cnd = self.icmp_e(p, x, y);
                let e = self.ar.ite(cnd, x, y);
                self.mk(e)
            }
            Intr::Abs => {
                if a.e == 0 {
                    return Ok(cv(sx(a.c, w).wrapping_abs() as u64 & m));
                }
                let z = self.ar.c(w, 0);
                let neg = self.ar.cmp(Op::Slt, a.e, z);
                let n = self.ar.bin(Op::Sub, z, a.e);
                let e = self.ar.ite(neg, n, a.e);
                self.mk(e)
            }
            Intr::Scmp | Intr::Ucmp => {
                let p = if k == Intr::Scmp { Pred::Slt } else { Pred::Ult };
                if conc {
                    return Ok(cv(if icmp_c(p, w, a.c, b.c) {
                        0xff
                    } else if a.c == b.c {
                        0
                    } else {
                        1
                    }));
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let lt = self.icmp_e(p, x, y);
                let eq = self.icmp_e(Pred::Eq, x, y);
                let (n1, z, p1) = (self.ar.c(8, 0xff), self.ar.c(8, 0), self.ar.c(8, 1));
                let t = self.ar.ite(eq, z, p1);
                let e = self.ar.ite(lt, n1, t);
                self.mk(e)
            }
            Intr::UAddSat | Intr::USubSat | Intr::SAddSat | Intr::SSubSat => {
                let kk = match k {
                    Intr::UAddSat => Intr::UAddO,
                    Intr::USubSat => Intr::USubO,
                    Intr::SAddSat => Intr::SAddO,
                    _ => Intr::SSubO,
                };
                let (r, o) = self.overflow(kk, w, a, b);
                let re = self.ex(r, w);
                let oe = self.ex(o, 1);
                let sat = match k {
                    Intr::UAddSat => self.ar.c(w, m),
                    Intr::USubSat => self.ar.c(w, 0),
                    _ => {
                        let ae = self.ex(a, w);
                        let sg = self.ar.extract(ae, w - 1, 1);
                        let (mn, mx) = (self.ar.c(w, 1 << (w - 1)), self.ar.c(w, m >> 1));
                        self.ar.ite(sg, mn, mx)
                    }
                };
                let e = self.ar.ite(oe, sat, re);
                self.mk(e)
            }
            Intr::Fshl | Intr::Fshr => {
                let sh = self.conc(s, c, w)? % w as u64;
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                // concat(a,b) shifted
                let sh = if k == Intr::Fshl { sh } else { w as u64 - sh };
                if conc {
                    let v = (a.c as u128) << w | b.c as u128;
                    return Ok(cv((v << sh >> w) as u64 & m));
                }
                if sh == 0 {
                    return Ok(self.mk(x));
                }
                if sh == w as u64 {
                    return Ok(self.mk(y));
                }
                let hi = self.ar.extract(x, 0, w - sh as u8);
                let lo = self.ar.extract(y, w - sh as u8, sh as u8);
                let e = self.ar.concat(hi, lo);
                self.mk(e)
            }
            Intr::Fabs => {
                if a.e == 0 {
                    return Ok(cv(a.c & (m >> 1)));
                }
                let kk = self.ar.c(w, m >> 1);
                let e = self.ar.bin(Op::And, a.e, kk);
                self.mk(e)
            }
            Intr::Copysign => {
                let kk = self.ar.c(w, m >> 1);
                let sg = self.ar.c(w, 1 << (w - 1));
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let p = self.ar.bin(Op::And, x, kk);
                let q = self.ar.bin(Op::And, y, sg);
                let e = self.ar.bin(Op::Or, p, q);
                self.mk(e)
            }
            Intr::FFloor | Intr::FCeil | Intr::FTrunc | Intr::FRound | Intr::FRint => {
                let mode = match k {
                    Intr::FTrunc => 0,
                    Intr::FFloor => 1,
                    Intr::FCeil => 2,
                    Intr::FRint => 3,
                    _ => 4,
                };
                let x = self.ex(a, w);
                let e = self.ar.un(Op::FRound, w, x, mode);
                self.mk(e)
            }
            Intr::FSqrt => {
                let x = self.ex(a, w);
                let e = self.ar.un(Op::FSqrt, w, x, 0);
                self.mk(e)
            }
            Intr::FpToSiSat | Intr::FpToUiSat => {
                let from = if w & 0x80 != 0 { 64 } else { 32 };
                let to = w & 0x7f;
                self.cast(if k == Intr::FpToSiSat { Cast::FpToSiSat } else { Cast::FpToUiSat }, from, to, a)
            }
            Intr::FMin | Intr::FMax | Intr::Fma | Intr::Fptest => {
                if conc && w == 64 && k != Intr::Fptest {
                    let (x, y, z) = (f64::from_bits(a.c), f64::from_bits(b.c), f64::from_bits(c.c));
                    return Ok(cv(match k {
                        Intr::FMin => x.min(y),
                        Intr::FMax => x.max(y),
                        _ => x.mul_add(y, z),
                    }
                    .to_bits()));
                }
                return err(format!("intrinsic {:?}", k));
            }
            _ => return err(format!("intrinsic {:?}", k)),
        })
    }
}

#[inline]
fn icmp_c(p: Pred, w: u8, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

fn bin128(op: Op, w: u8, x: u128, y: u128) -> Option<u128> {
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    let sg = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
    Some(
        match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => x.checked_div(y)?,
            Op::URem => x.checked_rem(y)?,
            Op::SDiv => sg(x).checked_div(sg(y))? as u128,
            Op::SRem => sg(x).checked_rem(sg(y))? as u128,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => (sg(x) >> y.min(w as u128 - 1)) as u128,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            _ => return None,
        } & m,
    )
}

#[inline]
fn take_edge(s: &mut State, code: &FuncCode, e: &Edge) {
    if !e.copies.is_empty() {
        let regs = &mut s.top.regs;
        let get = |regs: &Vec<V>, o: u32| -> V {
            if o & CBIT != 0 {
                cv(code.consts[(o & !CBIT) as usize])
            } else {
                regs[o as usize]
            }
        };
        if e.seq {
            for &(d, src, n) in e.copies.iter() {
                for k in 0..n {
                    regs[(d + k) as usize] = get(regs, src + k);
                }
            }
        } else {
            let mut tmp: Vec<V> = Vec::with_capacity(e.copies.len());
            for &(_, src, n) in e.copies.iter() {
                for k in 0..n {
                    tmp.push(get(regs, src + k));
                }
            }
            let mut i = 0;
            for &(d, _, n) in e.copies.iter() {
                for k in 0..n {
                    regs[(d + k) as usize] = tmp[i];
                    i += 1;
                }
            }
        }
    }
    s.top.pc = code.blocks[e.bb as usize];
}
