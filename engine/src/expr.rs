//! Hash-consed bit-vector / floating-point terms with light simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32; // 0 is never a valid expression

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Nil,
    Var,   // k = index
    Const, // k = value (w <= 64)
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Not, // bitwise complement
    Eq, Ult, Ule, Slt, Sle,
    Ite,
    ZExt, SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    Tbl,     // a = index expression (a variable), k = table id
    FAdd, FSub, FMul, FDiv, FRem,
    FEq, FLt, FLe, FUno, // operands: bit patterns
    SToF, UToF, // int -> float of width w
    FToS, FToU, // saturating, width w
    FExt, FTrunc,
    FRound, // k: 0 trunc 1 floor 2 ceil 3 nearest even 4 nearest away
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub struct Arena {
    pub n: Vec<Node>,
    pub vars: Vec<u128>,
    pub fp: Vec<bool>,
    /// structural hash, the same in every arena
    pub sh: Vec<u128>,
    /// an upper bound of the unsigned value, whatever the variables
    ub: Vec<u128>,
    map: FxMap<Node, E>,
    pub tables: Vec<std::rc::Rc<[u64; 256]>>,
    tblmap: FxMap<Vec<u64>, u64>,
    pub var_w: Vec<u8>,
    truth: FxMap<E, [u64; 4]>,
    tcache: FxMap<E, Box<[u64; 256]>>,
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn mask128(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sx128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fround(k: u64, x: f64) -> f64 {
    match k {
        0 => x.trunc(),
        1 => x.floor(),
        2 => x.ceil(),
        3 => x.round_ties_even(),
        _ => x.round(),
    }
}

#[inline]
pub fn mix(h: u128, x: u128) -> u128 {
    let a = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    (a ^ (a >> 61)).wrapping_mul(0xD6E8FEB86659FD93A0761D6478BD642F).rotate_left(43).wrapping_add(x)
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], vars: vec![], fp: vec![], sh: vec![], ub: vec![], map: Default::default(), tables: vec![], tblmap: Default::default(), var_w: vec![], truth: Default::default(), tcache: Default::default() };
        a.n.push(Node { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.vars.push(0);
        a.fp.push(false);
        a.sh.push(1);
        a.ub.push(0);
        a
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as E;
        let v = match nd.op {
            Op::Var => 1u128 << nd.k,
            _ => self.vars[nd.a as usize] | self.vars[nd.b as usize] | self.vars[nd.c as usize],
        };
        let f = (nd.op as u8 >= Op::FAdd as u8) || self.fp[nd.a as usize] || self.fp[nd.b as usize] || self.fp[nd.c as usize];
        let (x, y, z) = (self.sh[nd.a as usize], self.sh[nd.b as usize], self.sh[nd.c as usize]);
        let k = match nd.op {
            Op::Tbl => self.tables[nd.k as usize].iter().fold(7u128, |h, &t| mix(h, t as u128)),
            _ => nd.k as u128,
        };
        let h = mix(mix(77, nd.op as u128 | (nd.w as u128) << 8), k);
        let h = match nd.op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq => mix(h, x.wrapping_add(y)),
            _ => mix(mix(mix(h, x), y), z),
        };
        self.sh.push(h);
        let u = self.upper(&nd);
        self.ub.push(u);
        self.n.push(nd);
        self.vars.push(v);
        self.fp.push(f);
        self.map.insert(nd, id);
        id
    }
    fn upper(&self, n: &Node) -> u128 {
        let m = mask128(n.w);
        let (a, b, c) = (self.ub[n.a as usize], self.ub[n.b as usize], self.ub[n.c as usize]);
        match n.op {
            Op::Const => n.k as u128,
            Op::ZExt => a,
            Op::Concat => {
                let lw = self.w(n.b);
                (a << lw) + b
            }
            Op::Add => match a.checked_add(b) {
                Some(x) if x <= m => x,
                _ => m,
            },
            Op::Mul => match a.checked_mul(b) {
                Some(x) if x <= m => x,
                _ => m,
            },
            Op::And => a.min(b),
            Op::Ite => b.max(c),
            Op::LShr => a,
            _ => m,
        }
    }
    /// Negation: `0 - x`.
    fn neg_of(&self, e: E) -> Option<E> {
        let n = &self.n[e as usize];
        if n.op == Op::Sub && self.ub[n.a as usize] == 0 {
            Some(n.b)
        } else {
            None
        }
    }
    fn neg(&mut self, x: E) -> E {
        let z = self.c(self.w(x), 0);
        self.bin(Op::Sub, z, x)
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    #[inline]
    pub fn kst(&self, e: E) -> Option<u64> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, idx: u32, w: u8) -> E {
        while self.var_w.len() <= idx as usize {
            self.var_w.push(0);
        }
        self.var_w[idx as usize] = w;
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u64 })
    }
    pub fn c(&mut self, w: u8, v: u64) -> E {
        if w > 64 {
            let hi = self.c(w - 64, 0);
            let lo = self.c(64, v);
            return self.intern(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 });
        }
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        if n.op == Op::Const {
            return self.c(n.w, !n.k);
        }
        if n.op == Op::Not {
            return n.a;
        }
        self.intern(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }
    fn raw(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    /// The bits of a term from low to high: (constant, width) or (term, width).
    fn pieces(&self, e: E, out: &mut Vec<(Result<u64, E>, u8)>) {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => out.push((Ok(n.k), n.w)),
            Op::ZExt => {
                self.pieces(n.a, out);
                let mut k = n.w - self.w(n.a);
                while k > 0 {
                    out.push((Ok(0), k.min(64)));
                    k -= k.min(64);
                }
            }
            Op::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            _ => out.push((Err(e), n.w)),
        }
    }
    /// And / Or whose bits are constant on one side or the other.
    fn bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (mut x, mut y) = (vec![], vec![]);
        self.pieces(a, &mut x);
        self.pieces(b, &mut y);
        if x.len() > 8 || y.len() > 8 {
            return None;
        }
        let (mut i, mut j, mut p, mut q) = (0, 0, 0u8, 0u8);
        let mut out: Vec<(Result<u64, (E, u8)>, u8)> = vec![];
        let ones = op == Op::And; // the constant that keeps the other side
        while i < x.len() {
            let mut w = (x[i].1 - p).min(y[j].1 - q);
            let cell = match (x[i].0, y[j].0) {
                (Ok(c), Ok(d)) => Ok(if ones { (c >> p) & (d >> q) } else { (c >> p) | (d >> q) } & mask(w)),
                (Err(e), Err(f)) => {
                    if e == f && p == q {
                        Err((e, p))
                    } else {
                        return None;
                    }
                }
                (Ok(c), Err(f)) | (Err(f), Ok(c)) => {
                    let (cp, fp) = if x[i].0.is_ok() { (p, q) } else { (q, p) };
                    let c = c >> cp & mask(w);
                    let bit = c & 1 == 1;
                    let run = if bit { (!c).trailing_zeros() } else { c.trailing_zeros() }.min(w as u32) as u8;
                    w = run;
                    if bit == ones {
                        Err((f, fp))
                    } else if bit {
                        Ok(mask(w))
                    } else {
                        Ok(0)
                    }
                }
            };
            out.push((cell, w));
            if out.len() > 10 {
                return None;
            }
            p += w;
            q += w;
            if p == x[i].1 {
                i += 1;
                p = 0;
            }
            if q == y[j].1 {
                j += 1;
                q = 0;
            }
        }
        let mut acc: Option<E> = None;
        for (cell, w) in out {
            let e = match cell {
                Ok(c) => self.c(w, c),
                Err((e, lo)) => self.extract(e, lo, w),
            };
            acc = Some(match acc {
                None => e,
                Some(l) => self.concat(e, l),
            });
        }
        acc
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ka, kb) = (self.kst(a), self.kst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = fold(op, w, x, y) {
                return self.c(w, r);
            }
        }
        let m = mask(w);
        if matches!(op, Op::And | Op::Or) && w > 1 && w <= 64 && !self.fp[a as usize] && !self.fp[b as usize] {
            if let Some(e) = self.bitwise(op, a, b) {
                return e;
            }
        }
        match op {
            Op::Add => {
                if ka == Some(0) {
                    return b;
                }
                if kb == Some(0) {
                    return a;
                }
                if ka.is_some() {
                    return self.bin(op, b, a);
                }
                if let (Some(x), Some(y)) = (self.neg_of(a), self.neg_of(b)) {
                    let r = self.bin(Op::Add, x, y);
                    return self.neg(r);
                }
                if let Some(y) = kb {
                    let n = self.n[a as usize];
                    // no carry into the free low part of a concatenation
                    if w <= 64 {
                        let inner = if n.op == Op::ZExt { n.a } else { a };
                        let i = self.n[inner as usize];
                        if i.op == Op::Concat && self.kst(i.a).is_some() {
                            let lw = self.w(i.b);
                            if y & mask(lw) == 0 && lw < w {
                                let h = self.kst(i.a).unwrap().wrapping_add(y >> lw);
                                let h = self.c(w - lw, h);
                                return self.concat(h, i.b);
                            }
                        }
                    }
                    if n.op == Op::Add {
                        if let Some(z) = self.kst(n.b) {
                            let c = self.c(w, y.wrapping_add(z));
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                    if n.op == Op::Ite {
                        if let (Some(p), Some(q)) = (self.kst(n.b), self.kst(n.c)) {
                            let p = self.c(w, p.wrapping_add(y));
                            let q = self.c(w, q.wrapping_add(y));
                            return self.ite(n.a, p, q);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b && w <= 64 {
                    return self.c(w, 0);
                }
                if let (Some(y), true) = (kb, w <= 64) {
                    let c = self.c(w, (0u64).wrapping_sub(y));
                    return self.bin(Op::Add, a, c);
                }
                if self.ub[a as usize] == 0 {
                    if let Some(x) = self.neg_of(b) {
                        return x;
                    }
                }
                if let Some(x) = self.neg_of(a) {
                    let r = self.bin(Op::Add, x, b);
                    return self.neg(r);
                }
                if let Some(x) = self.neg_of(b) {
                    return self.bin(Op::Add, a, x);
                }
            }
            Op::Mul => {
                if ka.is_some() && kb.is_none() {
                    return self.bin(op, b, a);
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                match (self.neg_of(a), self.neg_of(b)) {
                    (Some(x), Some(y)) => return self.bin(Op::Mul, x, y),
                    (Some(x), None) => {
                        let r = self.bin(Op::Mul, x, b);
                        return self.neg(r);
                    }
                    (None, Some(y)) => {
                        let r = self.bin(Op::Mul, a, y);
                        return self.neg(r);
                    }
                    _ => {}
                }
                if w > 64 {
                    // a product that fits 64 bits
                    let (x, y) = (self.ub[a as usize], self.ub[b as usize]);
                    if x >> 64 == 0 && y >> 64 == 0 && x.checked_mul(y).map_or(false, |p| p >> 64 == 0) {
                        let x = self.extract(a, 0, 64);
                        let y = self.extract(b, 0, 64);
                        let r = self.bin(Op::Mul, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if ka.is_some() && kb.is_none() {
                    return self.bin(op, b, a);
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) && w <= 64 {
                    return a;
                }
                if let Some(y) = kb {
                    let n = self.n[a as usize];
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if iw <= 64 && y & mask(iw) == mask(iw) {
                            return a;
                        }
                        if iw <= 64 {
                            let c = self.c(iw, y);
                            let r = self.bin(Op::And, n.a, c);
                            return self.zext(r, w);
                        }
                    }
                    if n.op == Op::And {
                        if let Some(z) = self.kst(n.b) {
                            let c = self.c(w, y & z);
                            return self.bin(Op::And, n.a, c);
                        }
                    }
                }
                if w == 1 && (self.is_not(a, b)) {
                    return self.c(1, 0);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if ka.is_some() && kb.is_none() {
                    return self.bin(op, b, a);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) && w <= 64 {
                    return b;
                }
                if w == 1 && (self.is_not(a, b)) {
                    return self.c(1, 1);
                }
            }
            Op::Xor => {
                if a == b && w <= 64 {
                    return self.c(w, 0);
                }
                if ka.is_some() && kb.is_none() {
                    return self.bin(op, b, a);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) && w <= 64 {
                    return self.not(a);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(0) {
                    return a;
                }
                if let Some(s) = kb {
                    if w <= 64 && s >= w as u64 && op != Op::AShr {
                        return self.c(w, 0);
                    }
                    if w <= 128 && s < w as u64 {
                        if op == Op::LShr {
                            // (zext of the high part)
                            let h = self.extract(a, s as u8, w - s as u8);
                            return self.zext(h, w);
                        }
                        if op == Op::Shl {
                            let l = self.extract(a, 0, w - s as u8);
                            let z = self.c(s as u8, 0);
                            return self.concat(l, z);
                        }
                    }
                }
            }
            Op::UDiv | Op::SDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let (Op::UDiv, Some(y)) = (op, kb) {
                    if y.is_power_of_two() {
                        let s = self.c(w, y.trailing_zeros() as u64);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if kb == Some(1) {
                    return self.c(w, 0);
                }
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let s = self.c(w, y - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            _ => {}
        }
        // Or of a zero-extended low part and a shifted high part is a concatenation
        if matches!(op, Op::Or | Op::Add | Op::Xor) {
            for (x, y) in [(a, b), (b, a)] {
                let n = self.n[x as usize];
                let m2 = self.n[y as usize];
                if n.op == Op::Concat && self.kst(n.b) == Some(0) && self.w(n.b) <= 64 && m2.op == Op::ZExt {
                    let lw = self.w(n.b);
                    let iw = self.w(m2.a);
                    if iw <= lw {
                        let lo = self.zext(m2.a, lw);
                        return self.concat(n.a, lo);
                    }
                }
            }
        }
        let (a, b) = if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) && kb.is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(op, w, a, b)
    }
    fn is_not(&self, a: E, b: E) -> bool {
        let (x, y) = (self.n[a as usize], self.n[b as usize]);
        (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ka, kb) = (self.kst(a), self.kst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = match op {
                Op::Eq => x == y,
                Op::Ult => x < y,
                Op::Ule => x <= y,
                Op::Slt => sx(x, w) < sx(y, w),
                Op::Sle => sx(x, w) <= sx(y, w),
                _ => unreachable!(),
            };
            return self.c(1, r as u64);
        }
        if a == b {
            return self.c(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u64);
        }
        match op {
            Op::Eq => {
                if ka.is_some() {
                    return self.cmp(op, b, a);
                }
                if let (Some(x), Some(y)) = (self.neg_of(a), self.neg_of(b)) {
                    return self.cmp(Op::Eq, x, y);
                }
                if let Some(y) = kb {
                    let n = self.n[a as usize];
                    if self.ub[a as usize] < y as u128 {
                        return self.c(1, 0);
                    }
                    if let (Some(x), true) = (self.neg_of(a), w <= 64) {
                        let c = self.c(w, (0u64).wrapping_sub(y));
                        return self.cmp(Op::Eq, x, c);
                    }
                    if y == 0 && w <= 64 && n.op == Op::Add && self.ub[n.a as usize] + self.ub[n.b as usize] <= mask(w) as u128 {
                        let z = self.c(w, 0);
                        let p = self.cmp(Op::Eq, n.a, z);
                        let q = self.cmp(Op::Eq, n.b, z);
                        return self.bin(Op::And, p, q);
                    }
                    if let (0, true, Op::Mul, Some(k)) = (y, w <= 64, n.op, self.kst(n.b)) {
                        if k != 0 && self.ub[n.a as usize].checked_mul(k as u128).map_or(false, |p| p <= mask(w) as u128) {
                            let z = self.c(w, 0);
                            return self.cmp(Op::Eq, n.a, z);
                        }
                    }
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if iw <= 64 {
                                if y & !mask(iw) != 0 {
                                    return self.c(1, 0);
                                }
                                let c = self.c(iw, y);
                                return self.cmp(Op::Eq, n.a, c);
                            }
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if iw <= 64 && w <= 64 {
                                if (sx(y & mask(iw), iw) as u64) & mask(w) != y {
                                    return self.c(1, 0);
                                }
                                let c = self.c(iw, y);
                                return self.cmp(Op::Eq, n.a, c);
                            }
                        }
                        Op::Add => {
                            if let Some(z) = self.kst(n.b) {
                                let c = self.c(w, y.wrapping_sub(z));
                                return self.cmp(Op::Eq, n.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.kst(n.b) {
                                let c = self.c(w, y ^ z);
                                return self.cmp(Op::Eq, n.a, c);
                            }
                        }
                        Op::Not => {
                            let c = self.c(w, !y);
                            return self.cmp(Op::Eq, n.a, c);
                        }
                        Op::Ite => {
                            if self.kst(n.b).is_some() || self.kst(n.c).is_some() {
                                let p = self.cmp(Op::Eq, n.b, b);
                                let q = self.cmp(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        Op::Concat => {
                            if self.w(n.b) <= 64 && w <= 64 {
                                let lw = self.w(n.b);
                                let hw = self.w(n.a);
                                let ch = self.c(hw, y >> lw);
                                let cl = self.c(lw, y);
                                let p = self.cmp(Op::Eq, n.a, ch);
                                if self.kst(p) == Some(0) {
                                    return p;
                                }
                                let q = self.cmp(Op::Eq, n.b, cl);
                                return self.bin(Op::And, p, q);
                            }
                        }
                        _ => {}
                    }
                }
                if kb.is_none() {
                    let (n, m) = (self.n[a as usize], self.n[b as usize]);
                    if n.op == Op::ZExt && m.op == Op::ZExt && self.w(n.a) == self.w(m.a) {
                        return self.cmp(Op::Eq, n.a, m.a);
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.raw(Op::Eq, 1, a, b);
            }
            Op::Ult => {
                if kb == Some(0) {
                    return self.c(1, 0);
                }
                if kb == Some(1) {
                    let z = self.c(w, 0);
                    return self.cmp(Op::Eq, a, z);
                }
                if ka == Some(mask(w)) && w <= 64 {
                    return self.c(1, 0);
                }
                if let Some(y) = kb {
                    if self.ub[a as usize] < y as u128 {
                        return self.c(1, 1);
                    }
                }
                if let Some(x) = ka {
                    if self.ub[b as usize] <= x as u128 {
                        return self.c(1, 0);
                    }
                }
                if let Some(r) = self.zcmp(op, a, b, w) {
                    return r;
                }
            }
            Op::Ule => {
                if ka == Some(0) {
                    return self.c(1, 1);
                }
                if w <= 64 {
                    let r = self.cmp(Op::Ult, b, a);
                    return self.not(r);
                }
            }
            Op::Sle => {
                let r = self.cmp(Op::Slt, b, a);
                return self.not(r);
            }
            Op::Slt => {
                // both known non-negative: unsigned
                if self.nonneg(a) && self.nonneg(b) {
                    return self.cmp(Op::Ult, a, b);
                }
                let ia = self.n[a as usize];
                if ia.op == Op::Ite && kb.is_some() && self.kst(ia.b).is_some() && self.kst(ia.c).is_some() {
                    let p = self.cmp(op, ia.b, b);
                    let q = self.cmp(op, ia.c, b);
                    return self.ite(ia.a, p, q);
                }
            }
            _ => {}
        }
        self.raw(op, 1, a, b)
    }
    fn nonneg(&self, a: E) -> bool {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => sx(n.k, n.w) >= 0,
            Op::ZExt => true,
            Op::Concat => self.nonneg(n.a),
            _ => self.ub[a as usize] < 1u128 << (n.w - 1),
        }
    }
    fn zcmp(&mut self, op: Op, a: E, b: E, w: u8) -> Option<E> {
        if w > 64 {
            return None;
        }
        let (n, m) = (self.n[a as usize], self.n[b as usize]);
        if n.op == Op::ZExt {
            let iw = self.w(n.a);
            if let Some(y) = self.kst(b) {
                if y > mask(iw) {
                    return Some(self.c(1, 1));
                }
                let c = self.c(iw, y);
                return Some(self.cmp(op, n.a, c));
            }
            if m.op == Op::ZExt && self.w(m.a) == iw {
                return Some(self.cmp(op, n.a, m.a));
            }
        }
        if m.op == Op::ZExt {
            let iw = self.w(m.a);
            if let Some(x) = self.kst(a) {
                if x >= mask(iw) {
                    return Some(self.c(1, 0));
                }
                let c = self.c(iw, x);
                return Some(self.cmp(op, c, m.a));
            }
        }
        if n.op == Op::Ite && self.kst(b).is_some() && self.kst(n.b).is_some() && self.kst(n.c).is_some() {
            let p = self.cmp(op, n.b, b);
            let q = self.cmp(op, n.c, b);
            return Some(self.ite(n.a, p, q));
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.kst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let n = self.n[c as usize];
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        if w == 1 {
            match (self.kst(a), self.kst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        if n.op == Op::Const {
            return self.c(w, n.k);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Extract && n.k == 0 && self.w(n.a) == w && self.ub[n.a as usize] <= mask128(n.w) {
            return n.a;
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        if n.op == Op::Const && w <= 64 {
            return self.c(w, sx(n.k, n.w) as u64);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        let half = 1u128 << (n.w - 1);
        if self.ub[a as usize] < half {
            return self.zext(a, w);
        }
        if n.w > 1 {
            if let Some(x) = self.neg_of(a) {
                if self.ub[x as usize] < half {
                    let x = self.zext(x, w);
                    return self.neg(x);
                }
            }
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n[a as usize];
        if lo == 0 && n.w == w {
            return a;
        }
        if self.ub[a as usize] >> lo == 0 {
            return self.c(w, 0);
        }
        if let Some(x) = self.neg_of(a) {
            if lo == 0 {
                let x = self.extract(x, 0, w);
                return self.neg(x);
            }
            if w == 1 && lo == n.w - 1 && n.w <= 64 && self.ub[x as usize] <= 1u128 << lo {
                let z = self.c(n.w, 0);
                let e = self.cmp(Op::Eq, x, z);
                return self.not(e);
            }
        }
        match n.op {
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let x = self.extract(n.a, lo, 1);
                let y = self.extract(n.b, lo, 1);
                return self.bin(n.op, x, y);
            }
            Op::Not if w == 1 => {
                let x = self.extract(n.a, lo, 1);
                return self.not(x);
            }
            Op::Const => return self.c(w, n.k >> lo),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Extract => return self.extract(n.a, n.k as u8 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor if lo == 0 => {
                if self.kst(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.kst(n.b).is_some() || self.kst(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u64 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n[h as usize], self.n[l as usize]);
        let w = hn.w + ln.w;
        if hn.op == Op::Const && hn.k == 0 && hn.w <= 64 {
            return self.zext(l, w);
        }
        if hn.op == Op::Const && ln.op == Op::Const && w <= 64 {
            return self.c(w, hn.k << ln.w | ln.k);
        }
        if hn.op == Op::ZExt {
            let i = self.concat(hn.a, l);
            return self.zext(i, w);
        }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + ln.w as u64 {
            return self.extract(hn.a, ln.k as u8, w);
        }
        if hn.op == Op::Extract && hn.k == ln.w as u64 {
            let e = self.extract(hn.a, 0, ln.w);
            if e == l {
                return self.extract(hn.a, 0, w);
            }
        }
        // high part continues a value whose low part is the whole of l
        if hn.op == Op::Extract && hn.a == l && hn.k == ln.w as u64 {
            return l;
        }
        if ln.op == Op::Concat {
            // right-nest: concat(h, concat(a,b)) -> try to join h with a
            let hn2 = self.n[ln.a as usize];
            if hn.op == Op::Extract && hn2.op == Op::Extract && hn.a == hn2.a && hn.k == hn2.k + hn2.w as u64 {
                let j = self.concat(h, ln.a);
                return self.concat(j, ln.b);
            }
        }
        self.intern(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn un(&mut self, op: Op, w: u8, a: E, k: u64) -> E {
        if let Some(x) = self.kst(a) {
            let r = eval_un(op, w, self.w(a), x, k);
            return self.c(w, r);
        }
        self.intern(Node { op, w, a, b: 0, c: 0, k })
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let rw = if matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FUno) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.kst(a), self.kst(b)) {
            let r = eval_f(op, w, x, y);
            return self.c(rw, r);
        }
        if rw == 1 && w == 64 {
            for (x, k, int_left) in [(a, self.kst(b), true), (b, self.kst(a), false)] {
                if let Some(k) = k {
                    if matches!(self.n[x as usize].op, Op::SToF | Op::UToF) {
                        return self.int_vs_float(op, x, f64::from_bits(k), int_left);
                    }
                }
            }
        }
        if rw == 1 && w == 64 && op != Op::FUno {
            const INF: u64 = 0x7ff0_0000_0000_0000;
            // numbers that are not negative are ordered as their bits are
            let small = |s: &Self, e: E| s.ub[e as usize] < 1 << 63;
            if let Some(k) = self.kst(b) {
                if k <= INF && small(self, a) {
                    return match op {
                        Op::FEq => self.cmp(Op::Eq, a, b),
                        Op::FLt => self.cmp(Op::Ult, a, b),
                        _ => {
                            let t = self.c(64, k + 1);
                            self.cmp(Op::Ult, a, t)
                        }
                    };
                }
            }
            if let Some(k) = self.kst(a) {
                if k <= INF && small(self, b) {
                    let t = self.c(64, INF + 1);
                    let num = self.cmp(Op::Ult, b, t);
                    let r = match op {
                        Op::FEq => return self.cmp(Op::Eq, a, b),
                        Op::FLt => self.cmp(Op::Ult, a, b),
                        _ => {
                            let r = self.cmp(Op::Ult, b, a);
                            self.not(r)
                        }
                    };
                    return self.bin(Op::And, num, r);
                }
            }
        }
        self.raw(op, rw, a, b)
    }
    /// A converted integer compared with a constant: the conversion is monotone,
    /// so the comparison is one of the integer with a threshold.
    fn int_vs_float(&mut self, op: Op, x: E, k: f64, int_left: bool) -> E {
        let (signed, i) = (self.n[x as usize].op == Op::SToF, self.n[x as usize].a);
        if op == Op::FUno || k.is_nan() {
            return self.c(1, (op == Op::FUno && k.is_nan()) as u64);
        }
        match (op, int_left) {
            (Op::FLt, true) => self.below(i, signed, k, false),
            (Op::FLe, true) => self.below(i, signed, k, true),
            (Op::FLt, false) => {
                let r = self.below(i, signed, k, true);
                self.not(r)
            }
            (Op::FLe, false) => {
                let r = self.below(i, signed, k, false);
                self.not(r)
            }
            _ => {
                let le = self.below(i, signed, k, true);
                let lt = self.below(i, signed, k, false);
                let ge = self.not(lt);
                self.bin(Op::And, le, ge)
            }
        }
    }
    /// `i as f64 < k` (or `<= k`).
    fn below(&mut self, i: E, signed: bool, k: f64, or_eq: bool) -> E {
        let aw = self.w(i);
        let (min, n): (i128, i128) = (if signed { -(1i128 << (aw - 1)) } else { 0 }, 1i128 << aw);
        let p = |v: i128| {
            let f = if signed { v as i64 as f64 } else { v as u64 as f64 };
            f < k || or_eq && f == k
        };
        let (mut lo, mut hi) = (0i128, n); // values below `min + lo` satisfy p, those from `min + hi` do not
        while lo < hi {
            let m = (lo + hi) / 2;
            if p(min + m) {
                lo = m + 1;
            } else {
                hi = m;
            }
        }
        if lo == n {
            return self.c(1, 1);
        }
        let t = self.c(aw, (min + lo) as u64 & mask(aw));
        self.cmp(if signed { Op::Slt } else { Op::Ult }, i, t)
    }
    pub fn tbl(&mut self, idx: E, w: u8, t: [u64; 256]) -> E {
        let key: Vec<u64> = t.to_vec();
        let id = match self.tblmap.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.tables.len() as u64;
                self.tables.push(std::rc::Rc::new(t));
                self.tblmap.insert(key, i);
                i
            }
        };
        self.intern(Node { op: Op::Tbl, w, a: idx, b: 0, c: 0, k: id })
    }

    /// Evaluate under a full assignment.
    pub fn eval(&self, e: E, m: &[u64], memo: &mut FxMap<E, u128>) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.k as u128,
            Op::Var => return (m.get(n.k as usize).copied().unwrap_or(0) & mask(n.w)) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, m, memo) == 1 {
                    self.eval(n.b, m, memo)
                } else {
                    self.eval(n.c, m, memo)
                }
            }
            _ => {
                let a = self.eval(n.a, m, memo);
                let b = if n.b != 0 { self.eval(n.b, m, memo) } else { 0 };
                self.apply(&n, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    fn apply(&self, n: &Node, a: u128, b: u128) -> u128 {
        let w = n.w;
        let mm = mask128(w);
        let aw = self.w(n.a);
        match n.op {
            Op::Add => a.wrapping_add(b) & mm,
            Op::Sub => a.wrapping_sub(b) & mm,
            Op::Mul => a.wrapping_mul(b) & mm,
            Op::UDiv => {
                if b == 0 {
                    mm
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                if b == 0 {
                    if sx128(a, w) < 0 { 1 } else { mm }
                } else {
                    (sx128(a, w).wrapping_div(sx128(b, w))) as u128 & mm
                }
            }
            Op::SRem => {
                if b == 0 {
                    a
                } else {
                    (sx128(a, w).wrapping_rem(sx128(b, w))) as u128 & mm
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b & mm
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = b.min(w as u128 - 1);
                (sx128(a, w) >> s) as u128 & mm
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Not => !a & mm,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx128(a, aw) < sx128(b, aw)) as u128,
            Op::Sle => (sx128(a, aw) <= sx128(b, aw)) as u128,
            Op::ZExt => a,
            Op::SExt => sx128(a, aw) as u128 & mm,
            Op::Extract => a >> n.k & mm,
            Op::Concat => a << self.w(n.b) | b,
            Op::Tbl => self.tables[n.k as usize][a as usize & 255] as u128 & mm,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FUno => eval_f(n.op, aw, a as u64, b as u64) as u128,
            _ => eval_un(n.op, w, aw, a as u64, n.k) as u128,
        }
    }

    /// Is the support of e a single variable of at most 8 bits?
    pub fn single_small(&self, e: E) -> Option<u32> {
        let v = self.vars[e as usize];
        if v != 0 && v & (v - 1) == 0 {
            let i = v.trailing_zeros();
            if self.var_w[i as usize] <= 8 {
                return Some(i);
            }
        }
        None
    }
    fn table_of(&mut self, e: E) -> Box<[u64; 256]> {
        if let Some(t) = self.tcache.get(&e) {
            return t.clone();
        }
        let n = self.n[e as usize];
        let mut r = Box::new([0u64; 256]);
        match n.op {
            Op::Const => {
                for x in r.iter_mut() {
                    *x = n.k
                }
            }
            Op::Var => {
                for (i, x) in r.iter_mut().enumerate() {
                    *x = i as u64 & mask(n.w)
                }
            }
            Op::Ite => {
                let c = self.table_of(n.a);
                let a = self.table_of(n.b);
                let b = self.table_of(n.c);
                for i in 0..256 {
                    r[i] = if c[i] == 1 { a[i] } else { b[i] };
                }
            }
            _ => {
                let a = self.table_of(n.a);
                if n.b != 0 {
                    let b = self.table_of(n.b);
                    for i in 0..256 {
                        r[i] = self.apply(&n, a[i] as u128, b[i] as u128) as u64;
                    }
                } else {
                    for i in 0..256 {
                        r[i] = self.apply(&n, a[i] as u128, 0) as u64;
                    }
                }
            }
        }
        if self.tcache.len() > 10000 {
            self.tcache.clear();
        }
        self.tcache.insert(e, r.clone());
        r
    }
    pub fn wide_inside(&self, e: E) -> bool {
        // any sub-term wider than 64 bits (tables hold 64-bit values)
        let mut st = vec![e];
        let mut seen: FxMap<E, ()> = Default::default();
        while let Some(x) = st.pop() {
            if x == 0 || seen.insert(x, ()).is_some() {
                continue;
            }
            let n = self.n[x as usize];
            if n.w > 64 {
                return true;
            }
            st.push(n.a);
            st.push(n.b);
            st.push(n.c);
        }
        false
    }
    /// Values of e for each value of its only variable.
    pub fn values(&mut self, e: E) -> Box<[u64; 256]> {
        if self.wide_inside(e) {
            let v = self.vars[e as usize].trailing_zeros() as usize;
            let mut r = Box::new([0u64; 256]);
            let mut m = vec![0u64; v + 1];
            for i in 0..256 {
                m[v] = i as u64;
                r[i] = self.eval(e, &m, &mut Default::default()) as u64;
            }
            return r;
        }
        self.table_of(e)
    }
    /// Bounds of a term whose variables range over `doms`.
    pub fn range(&mut self, e: E, doms: &[[u64; 4]], memo: &mut FxMap<E, (u64, u64)>) -> (u64, u64) {
        let n = self.n[e as usize];
        let m = mask(n.w.min(64));
        if n.w > 64 || self.fp[e as usize] && n.w != 1 {
            return (0, m);
        }
        match n.op {
            Op::Const => return (n.k, n.k),
            Op::Var if n.w > 8 => return (0, m),
            _ => {}
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let r = if let (Some(v), false) = (self.single_small(e), self.fp[e as usize]) {
            let t = self.values(e);
            let d = doms[v as usize];
            let (mut lo, mut hi) = (u64::MAX, 0);
            for i in 0..256 {
                if d[i >> 6] >> (i & 63) & 1 == 1 {
                    lo = lo.min(t[i]);
                    hi = hi.max(t[i]);
                }
            }
            if lo > hi {
                (0, m)
            } else {
                (lo, hi)
            }
        } else {
            let full = (0, m);
            match n.op {
                Op::Add => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    match a.1.checked_add(b.1) {
                        Some(h) if h <= m => (a.0 + b.0, h),
                        // x + (-c)
                        _ if b.0 == b.1 && a.0 >= (b.0.wrapping_neg() & m) => {
                            let c = b.0.wrapping_neg() & m;
                            (a.0 - c, a.1 - c)
                        }
                        _ if a.0 == a.1 && b.0 >= (a.0.wrapping_neg() & m) => {
                            let c = a.0.wrapping_neg() & m;
                            (b.0 - c, b.1 - c)
                        }
                        _ => full,
                    }
                }
                Op::Sub => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    if a.0 >= b.1 {
                        (a.0 - b.1, a.1 - b.0)
                    } else {
                        full
                    }
                }
                Op::Mul => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    match a.1.checked_mul(b.1) {
                        Some(h) if h <= m => (a.0 * b.0, h),
                        _ => full,
                    }
                }
                Op::UDiv | Op::URem => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    if b.0 == b.1 && b.0 != 0 {
                        if n.op == Op::UDiv {
                            (a.0 / b.0, a.1 / b.0)
                        } else if a.1 < b.0 {
                            a
                        } else {
                            (0, b.0 - 1)
                        }
                    } else {
                        full
                    }
                }
                Op::And => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    let (a, b) = if a.0 == a.1 { (b, a) } else { (a, b) };
                    let k = b.0;
                    if b.0 == b.1 && k & k.wrapping_add(1) == 0 && a.0 & !k == a.1 & !k {
                        (a.0 & k, a.1 & k)
                    } else {
                        (0, a.1.min(b.1))
                    }
                }
                Op::Or | Op::Xor => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    let bits = 64 - (a.1 | b.1).leading_zeros();
                    let top = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
                    let tz = |s: &Self, x: E| {
                        let n = s.n[x as usize];
                        match n.op {
                            Op::Shl => s.kst(n.b).unwrap_or(0).min(63),
                            Op::Concat => s.kst(n.b).map_or(0, |k| if k == 0 { s.w(n.b) as u64 } else { 0 }),
                            _ => 0,
                        }
                    };
                    let (x, y) = (tz(self, n.a), tz(self, n.b));
                    let sum = x > 0 && b.1 >> x == 0 || y > 0 && a.1 >> y == 0;
                    if sum {
                        (a.0 + b.0, a.1 + b.1)
                    } else if n.op == Op::Or {
                        (a.0.max(b.0), top)
                    } else {
                        (0, top)
                    }
                }
                Op::Not if n.w == 1 => {
                    let a = self.range(n.a, doms, memo);
                    (1 - a.1, 1 - a.0)
                }
                Op::Shl => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    if b.0 == b.1 && b.0 < n.w as u64 && a.1 <= m >> b.0 {
                        (a.0 << b.0, a.1 << b.0)
                    } else {
                        full
                    }
                }
                Op::LShr => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    if b.0 == b.1 && b.0 < n.w as u64 {
                        (a.0 >> b.0, a.1 >> b.0)
                    } else {
                        (0, a.1)
                    }
                }
                Op::ZExt => self.range(n.a, doms, memo),
                Op::SExt => {
                    let a = self.range(n.a, doms, memo);
                    let aw = self.w(n.a);
                    if aw <= 64 && a.1 >> (aw - 1) == 0 {
                        a
                    } else {
                        full
                    }
                }
                Op::Extract => {
                    let aw = self.w(n.a);
                    if aw > 64 {
                        full
                    } else {
                        let a = self.range(n.a, doms, memo);
                        let (l, h) = (a.0 >> n.k, a.1 >> n.k);
                        if l & !m == h & !m {
                            (l & m, h & m)
                        } else {
                            full
                        }
                    }
                }
                Op::Concat => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    let k = self.w(n.b);
                    (a.0 << k | b.0, a.1 << k | b.1)
                }
                Op::Ite => {
                    let c = self.range(n.a, doms, memo);
                    if c == (1, 1) {
                        self.range(n.b, doms, memo)
                    } else if c == (0, 0) {
                        self.range(n.c, doms, memo)
                    } else {
                        let (a, b) = (self.range(n.b, doms, memo), self.range(n.c, doms, memo));
                        (a.0.min(b.0), a.1.max(b.1))
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle if self.w(n.a) <= 64 => {
                    let (a, b) = (self.range(n.a, doms, memo), self.range(n.b, doms, memo));
                    let w = self.w(n.a);
                    let signed = matches!(n.op, Op::Slt | Op::Sle);
                    let half = 1u64 << (w - 1);
                    if signed && (a.1 >= half || b.1 >= half) {
                        full
                    } else {
                        match n.op {
                            Op::Eq => {
                                if a.1 < b.0 || b.1 < a.0 {
                                    (0, 0)
                                } else if a.0 == a.1 && a == b {
                                    (1, 1)
                                } else {
                                    full
                                }
                            }
                            Op::Ult | Op::Slt => {
                                if a.1 < b.0 {
                                    (1, 1)
                                } else if a.0 >= b.1 {
                                    (0, 0)
                                } else {
                                    full
                                }
                            }
                            _ => {
                                if a.1 <= b.0 {
                                    (1, 1)
                                } else if a.0 > b.1 {
                                    (0, 0)
                                } else {
                                    full
                                }
                            }
                        }
                    }
                }
                _ => full,
            }
        };
        memo.insert(e, r);
        r
    }
    /// Truth set of a Boolean over one small variable.
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let t = self.values(e);
        let mut r = [0u64; 4];
        for i in 0..256 {
            if t[i] & 1 == 1 {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        self.truth.insert(e, r);
        r
    }
    pub fn show(&self, e: E) -> String {
        let n = self.n[e as usize];
        match n.op {
            Op::Nil => String::new(),
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}", n.k),
            _ => {
                let mut s = format!("({:?}{}", n.op, n.w);
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s.push(' ');
                        s.push_str(&self.show(x));
                    }
                }
                if n.k != 0 {
                    s.push_str(&format!(" #{}", n.k));
                }
                s.push(')');
                s
            }
        }
    }
}

pub fn fold(op: Op, w: u8, x: u64, y: u64) -> Option<u64> {
    if w > 64 {
        return None;
    }
    let m = mask(w);
    Some(
        match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                if y == 0 {
                    return None;
                }
                sx(x, w).wrapping_div(sx(y, w)) as u64
            }
            Op::SRem => {
                if y == 0 {
                    return None;
                }
                sx(x, w).wrapping_rem(sx(y, w)) as u64
            }
            Op::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            _ => return None,
        } & m,
    )
}

pub fn eval_f(op: Op, w: u8, x: u64, y: u64) -> u64 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        match op {
            Op::FAdd => (a + b).to_bits(),
            Op::FSub => (a - b).to_bits(),
            Op::FMul => (a * b).to_bits(),
            Op::FDiv => (a / b).to_bits(),
            Op::FRem => (a % b).to_bits(),
            Op::FEq => (a == b) as u64,
            Op::FLt => (a < b) as u64,
            Op::FLe => (a <= b) as u64,
            Op::FUno => (a.is_nan() || b.is_nan()) as u64,
            _ => unreachable!(),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            Op::FAdd => (a + b).to_bits() as u64,
            Op::FSub => (a - b).to_bits() as u64,
            Op::FMul => (a * b).to_bits() as u64,
            Op::FDiv => (a / b).to_bits() as u64,
            Op::FRem => (a % b).to_bits() as u64,
            Op::FEq => (a == b) as u64,
            Op::FLt => (a < b) as u64,
            Op::FLe => (a <= b) as u64,
            Op::FUno => (a.is_nan() || b.is_nan()) as u64,
            _ => unreachable!(),
        }
    }
}

pub fn eval_un(op: Op, w: u8, aw: u8, x: u64, k: u64) -> u64 {
    let asf = |x: u64, w: u8| -> f64 {
        if w == 64 {
            f64::from_bits(x)
        } else {
            f32::from_bits(x as u32) as f64
        }
    };
    match op {
        Op::SToF => {
            if w == 64 {
                (sx(x, aw) as f64).to_bits()
            } else {
                (sx(x, aw) as f32).to_bits() as u64
            }
        }
        Op::UToF => {
            if w == 64 {
                (x as f64).to_bits()
            } else {
                (x as f32).to_bits() as u64
            }
        }
        Op::FToS => {
            let f = asf(x, aw);
            if f.is_nan() {
                return 0;
            }
            let lo = -(2f64.powi(w as i32 - 1));
            let hi = 2f64.powi(w as i32 - 1);
            let v: i64 = if f < lo {
                if w == 64 { i64::MIN } else { -(1i64 << (w - 1)) }
            } else if f >= hi {
                if w == 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 }
            } else {
                f as i64
            };
            v as u64 & mask(w)
        }
        Op::FToU => {
            let f = asf(x, aw);
            if f.is_nan() || f <= 0.0 {
                return 0;
            }
            if f >= 2f64.powi(w as i32) {
                return mask(w);
            }
            f as u64
        }
        Op::FExt => (f32::from_bits(x as u32) as f64).to_bits(),
        Op::FTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
        Op::FRound => {
            if w == 64 {
                fround(k, f64::from_bits(x)).to_bits()
            } else {
                (fround(k, f32::from_bits(x as u32) as f64) as f32).to_bits() as u64
            }
        }
        Op::FSqrt => {
            if w == 64 {
                f64::from_bits(x).sqrt().to_bits()
            } else {
                f32::from_bits(x as u32).sqrt().to_bits() as u64
            }
        }
        _ => panic!("eval_un {:?}", op),
    }
}
