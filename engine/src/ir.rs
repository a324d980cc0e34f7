//! A reader for the textual LLVM IR of a whole program.
//!
//! The module is indexed once; function bodies are parsed and lowered to a
//! compact register code the first time they are called.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u64, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
}

fn align_to(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(b) => {
                let by = (*b as u64 + 7) / 8;
                align_to(by, self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                if let Ty::Int(b) = **t {
                    if b % 8 != 0 {
                        return (n * b as u64 + 7) / 8;
                    }
                }
                n * t.size()
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        o = align_to(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_to(o, self.align())
                }
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 1,
            Ty::Int(b) => match b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// Number of register slots.
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(b) => {
                if *b > 64 {
                    2
                } else {
                    1
                }
            }
            Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Vec(n, t) | Ty::Arr(n, t) => *n as usize * t.nslots(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nslots()).sum(),
        }
    }
    /// (byte offset, bit width) of each slot as laid out in memory.
    pub fn layout(&self, base: u64, out: &mut Vec<(u32, u8)>) {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => {}
            Ty::Int(b) => {
                if *b > 64 {
                    out.push((base as u32, 64));
                    out.push((base as u32 + 8, (*b - 64) as u8));
                } else {
                    out.push((base as u32, *b as u8));
                }
            }
            Ty::Ptr | Ty::F64 => out.push((base as u32, 64)),
            Ty::F32 => out.push((base as u32, 32)),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.layout(base + i * s, out);
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        o = align_to(o, t.align());
                    }
                    t.layout(base + o, out);
                    o += t.size();
                }
            }
        }
    }
    /// Byte offset and type of field i of an aggregate.
    pub fn field(&self, i: u64) -> (u64, usize, Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut s = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_to(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, s, t.clone());
                    }
                    o += t.size();
                    s += t.nslots();
                }
                panic!("field index out of range")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), i as usize * t.nslots(), (**t).clone()),
            _ => panic!("field of scalar {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn elem(&self) -> (&Ty, usize) {
        match self {
            Ty::Vec(n, t) => (t, *n as usize),
            t => (t, 1),
        }
    }
}

// ---------------------------------------------------------------------------
// tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta,
    Num(&'a str),
    CStr(&'a [u8]),
    Str(&'a str),
    P(u8),
    End,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    pub cur: Tok<'a>,
    /// a line break came before `cur`
    pub nl: bool,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), p: 0, cur: Tok::End, nl: true };
        l.next();
        l
    }
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    pub fn rest(&self) -> &'a str {
        self.st(self.p, self.s.len())
    }
    pub fn next(&mut self) -> Tok<'a> {
        self.nl = false;
        let t = self.lex();
        std::mem::replace(&mut self.cur, t)
    }
    fn quoted(&mut self) -> (usize, usize) {
        // at opening quote
        self.p += 1;
        let a = self.p;
        while self.p < self.s.len() && self.s[self.p] != b'"' {
            self.p += 1;
        }
        let b = self.p;
        self.p += 1;
        (a, b)
    }
    fn lex(&mut self) -> Tok<'a> {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            if self.s[self.p] == b'\n' {
                self.nl = true;
            }
            self.p += 1;
        }
        if self.p >= self.s.len() {
            return Tok::End;
        }
        let c = self.s[self.p];
        match c {
            b';' => {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                self.lex()
            }
            b'%' | b'@' => {
                self.p += 1;
                let (a, b) = if self.s[self.p] == b'"' {
                    self.quoted()
                } else {
                    let a = self.p;
                    while self.p < self.s.len() && is_id(self.s[self.p]) {
                        self.p += 1;
                    }
                    (a, self.p)
                };
                let t = self.st(a, b);
                if c == b'%' {
                    Tok::Local(t)
                } else {
                    Tok::Global(t)
                }
            }
            b'!' => {
                self.p += 1;
                while self.p < self.s.len() && is_id(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
                    self.p += 1;
                }
                Tok::P(b'#')
            }
            b'"' => {
                let (a, b) = self.quoted();
                Tok::Str(self.st(a, b))
            }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                let (a, b) = self.quoted();
                Tok::CStr(&self.s[a..b])
            }
            b'-' | b'0'..=b'9' | b'+' => {
                let a = self.p;
                self.p += 1;
                while self.p < self.s.len()
                    && (self.s[self.p].is_ascii_alphanumeric()
                        || self.s[self.p] == b'.'
                        || ((self.s[self.p] == b'+' || self.s[self.p] == b'-')
                            && (self.s[self.p - 1] == b'e' || self.s[self.p - 1] == b'E')))
                {
                    self.p += 1;
                }
                Tok::Num(self.st(a, self.p))
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let a = self.p;
                while self.p < self.s.len() && is_id(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::Word(self.st(a, self.p))
            }
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    /// The current token is a label (`name:`).
    pub fn is_label(&self) -> bool {
        matches!(self.cur, Tok::Word(_) | Tok::Num(_) | Tok::Str(_)) && self.p < self.s.len() && self.s[self.p] == b':'
    }
    pub fn skip_line(&mut self) {
        while !self.nl && self.cur != Tok::End {
            self.next();
        }
    }
    pub fn is(&self, c: u8) -> bool {
        self.cur == Tok::P(c)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("IR parse: expected '{}' found {:?} before: {}", c as char, self.cur, &self.rest()[..self.rest().len().min(120)]);
        }
    }
    pub fn word(&mut self, w: &str) -> bool {
        if self.cur == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(n) => n.parse::<i128>().unwrap_or_else(|_| n.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("num {n}"))),
            t => panic!("expected number, found {:?}", t),
        }
    }
    pub fn skip_group(&mut self, open: u8, close: u8) {
        // current token is `open`
        let mut d = 0;
        loop {
            if self.is(open) {
                d += 1;
            }
            if self.is(close) {
                d -= 1;
            }
            let t = self.next();
            if d == 0 || t == Tok::End {
                break;
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "double" => Ty::F64,
                "float" => Ty::F32,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {w}"),
            },
            Tok::P(b'{') => {
                let v = self.ty_list(b'}');
                Ty::Struct(v, false)
            }
            Tok::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P(b'<') => {
                if self.is(b'{') {
                    self.next();
                    let v = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("type token {:?} before {}", t, &self.rest()[..self.rest().len().min(100)]),
        }
    }
    fn ty_list(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(close) {
                return v;
            }
            self.expect(b',');
        }
    }
    /// Skip parameter/return attributes.
    pub fn attrs(&mut self) {
        loop {
            match self.cur {
                Tok::Word(w) => match w {
                    "undef" | "poison" | "null" | "true" | "false" | "zeroinitializer" | "splat" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc"
                    | "add" | "sub" | "xor" | "asm" | "i1" | "i8" | "i16" | "i32" | "i64" | "i128" | "ptr" | "double" | "float" | "void" | "mul" | "shl" => return,
                    "align" => {
                        self.next();
                        if self.is(b'(') {
                            self.skip_group(b'(', b')');
                        } else {
                            self.next();
                        }
                    }
                    _ => {
                        if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                            return;
                        }
                        self.next();
                        if self.is(b'(') {
                            self.skip_group(b'(', b')');
                        }
                    }
                },
                Tok::Str(_) => {
                    self.next();
                    if self.eat(b'=') {
                        self.next();
                    }
                }
                Tok::P(b'#') => {
                    self.next();
                }
                _ => return,
            }
        }
    }
}

// ---------------------------------------------------------------------------
// code

pub type Reg = u32;
/// Operand: high bit set = index into the function's constant pool.
pub type Opd = u32;
pub const CBIT: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FBin {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred {
    False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc, ZExt, SExt, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc, FpToSiSat, FpToUiSat,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Intr {
    Nop, Memcpy, Memset, Assume,
    Ctpop, Ctlz, Cttz, Bswap, Bitreverse,
    UMax, UMin, SMax, SMin, Abs, Scmp, Ucmp,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UAddSat, USubSat, SAddSat, SSubSat, Fshl, Fshr,
    Fabs, FFloor, FCeil, FTrunc, FRound, FRint, Fma, Copysign, FMin, FMax, FSqrt,
    IsConst, Tls, PshufB, Trap, Zero, Expect, Fptest,
    FpToSiSat, FpToUiSat,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub bb: u32,
    pub copies: Box<[(Reg, Opd, u32)]>,
    pub seq: bool, // copies can be done sequentially
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Reg,
    pub nret: u32,
    pub callee: Callee,
    pub args: Box<[(Opd, u32)]>,
    pub normal: Option<Edge>,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, dst: Reg, a: Opd, b: Opd, n: u32 },
    Bin128 { op: BinOp, w: u8, dst: Reg, a: Opd, b: Opd },
    ICmp { p: Pred, w: u8, dst: Reg, a: Opd, b: Opd, n: u32 },
    ICmp128 { p: Pred, w: u8, dst: Reg, a: Opd, b: Opd },
    FBin { op: FBin, dbl: bool, dst: Reg, a: Opd, b: Opd, n: u32 },
    FCmp { p: FPred, dbl: bool, dst: Reg, a: Opd, b: Opd, n: u32 },
    FNeg { dbl: bool, dst: Reg, a: Opd, n: u32 },
    Cast { k: Cast, from: u8, to: u8, dst: Reg, a: Opd, n: u32 },
    CastW { k: Cast, from: u8, to: u8, dst: Reg, a: Opd },
    Select { n: u32, vec: bool, w: Box<[u8]>, dst: Reg, c: Opd, a: Opd, b: Opd },
    Load { dst: Reg, p: Opd, w: u8 },
    LoadN { dst: Reg, p: Opd, lay: Box<[(u32, u8)]>, bitpack: u8 },
    Store { v: Opd, p: Opd, w: u8 },
    StoreN { v: Opd, p: Opd, lay: Box<[(u32, u8)]>, bitpack: u8 },
    Alloca { dst: Reg, size: u64, align: u32, cnt: Opd },
    Gep { dst: Reg, base: Opd, off: u64, idx: Box<[(Opd, u8, u64)]> },
    Copy { dst: Reg, a: Opd, n: u32 },
    Insert { dst: Reg, agg: Opd, n: u32, v: Opd, off: u32, k: u32 },
    ExtractEl { dst: Reg, a: Opd, n: u32, k: u32, idx: Opd },
    InsertEl { dst: Reg, a: Opd, n: u32, k: u32, v: Opd, idx: Opd },
    Shuffle { dst: Reg, a: Opd, b: Opd, n: u32, mask: Box<[i32]> },
    Repack { dst: Reg, a: Opd, fw: u8, fn_: u32, tw: u8, tn: u32 },
    Call(Box<CallI>),
    Intr { k: Intr, w: u8, n: u32, dst: Reg, args: Box<[Opd]> },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u8, v: Opd, cases: Box<[(u64, u32)]>, edges: Box<[Edge]> }, // edges[0] = default
    Ret { a: Opd, n: u32 },
    Unreachable,
    Rmw { op: Rmw, w: u8, dst: Reg, p: Opd, v: Opd },
    CmpXchg { w: u8, dst: Reg, p: Opd, c: Opd, v: Opd },
    Bad(Box<str>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin,
}

pub struct FuncCode {
    pub code: Vec<Inst>,
    pub blocks: Vec<u32>, // start pc of each block
    pub nregs: u32,
    pub params: Vec<(Reg, u32)>,
    pub consts: Vec<u64>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range in module text of define .. }
    pub code: OnceLock<Arc<FuncCode>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub by_name: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub glist: Vec<Global>,
    pub image: Vec<u8>, // memory image of globals, from GLOBAL_BASE
}

pub const FUNC_BASE: u64 = 0x1_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), funcs: vec![], by_name: HashMap::new(), globals: HashMap::new(), glist: vec![], image: vec![] };
        let bytes = text.as_bytes();
        let mut pos = 0;
        let mut gdefs: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let eol = memchr(b'\n', &bytes[pos..]).map(|k| pos + k).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            if line.starts_with('@') {
                gdefs.push((pos, eol));
                pos = eol + 1;
            } else if line.starts_with("define") {
                let name = func_name(line);
                // body up to a line that is exactly "}"
                let mut e = pos;
                loop {
                    let k = find(bytes, e, b"\n}\n").expect("end of function");
                    e = k + 3;
                    break;
                }
                let id = m.funcs.len() as u32;
                m.by_name.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: Some((pos, e)), code: OnceLock::new() });
                pos = e;
            } else if line.starts_with("declare") {
                let name = func_name(line);
                let id = m.funcs.len() as u32;
                m.by_name.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: None, code: OnceLock::new() });
                pos = eol + 1;
            } else {
                pos = eol + 1;
            }
        }
        // globals: first assign addresses
        struct G<'a> {
            ty: Ty,
            init: Option<Lex<'a>>,
            addr: u64,
        }
        let mut gs: Vec<G> = vec![];
        let mut addr = GLOBAL_BASE;
        let mut aliases: Vec<(String, String)> = vec![];
        for (a, b) in gdefs {
            let line = &text[a..b];
            let mut l = Lex::new(line);
            let name = match l.next() {
                Tok::Global(n) => n.to_string(),
                t => panic!("{:?}", t),
            };
            l.expect(b'=');
            let mut external = false;
            let mut alias = false;
            loop {
                match l.cur {
                    Tok::Word("global") | Tok::Word("constant") => {
                        l.next();
                        break;
                    }
                    Tok::Word("alias") => {
                        alias = true;
                        l.next();
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => {
                        external = true;
                        l.next();
                    }
                    Tok::P(b'(') => l.skip_group(b'(', b')'),
                    Tok::End => panic!("global {line}"),
                    _ => {
                        l.next();
                    }
                }
            }
            if alias {
                // `alias ty, ptr @target`
                let _ = l.ty();
                l.expect(b',');
                let _ = l.ty();
                if let Tok::Global(t) = l.next() {
                    aliases.push((name, t.to_string()));
                }
                continue;
            }
            let ty = l.ty();
            let size = ty.size().max(1);
            // alignment from the trailing ", align N"
            let al = line.rfind(", align ").map(|k| {
                let r = &line[k + 8..];
                r.bytes().take_while(|c| c.is_ascii_digit()).fold(0u64, |x, c| x * 10 + (c - b'0') as u64)
            });
            let al = al.unwrap_or(ty.align()).max(1);
            addr = align_to(addr, al.max(8));
            m.globals.insert(name.clone(), addr);
            m.glist.push(Global { name, addr, size });
            gs.push(G { ty, init: if external { None } else { Some(l) }, addr });
            addr += size + 8;
        }
        for (a, t) in aliases {
            if let Some(&x) = m.globals.get(&t) {
                m.globals.insert(a, x);
            } else if let Some(&f) = m.by_name.get(&t) {
                m.by_name.insert(a, f);
            }
        }
        let mut image = vec![0u8; (addr - GLOBAL_BASE) as usize + 64];
        for g in gs {
            if let Some(mut l) = g.init {
                let mut out = vec![];
                m.const_bytes(&mut l, &g.ty, &mut out);
                let o = (g.addr - GLOBAL_BASE) as usize;
                image[o..o + out.len()].copy_from_slice(&out);
            }
        }
        m.image = image;
        m.text = text;
        m
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&a) = self.globals.get(n) {
            return a;
        }
        if let Some(&f) = self.by_name.get(n) {
            return FUNC_BASE + 16 * f as u64;
        }
        0
    }

    /// Serialise a constant of type `t` to bytes.
    fn const_bytes(&self, l: &mut Lex, t: &Ty, out: &mut Vec<u8>) {
        let start = out.len();
        match t {
            Ty::Struct(ts, packed) if l.is(b'<') || l.is(b'{') => {
                let ang = l.eat(b'<');
                l.expect(b'{');
                for (i, ft) in ts.iter().enumerate() {
                    if i > 0 {
                        l.expect(b',');
                    }
                    let tt = l.ty();
                    debug_assert_eq!(&tt, ft);
                    if !packed {
                        while (out.len() - start) as u64 % ft.align() != 0 {
                            out.push(0);
                        }
                    }
                    self.const_bytes(l, ft, out);
                }
                l.expect(b'}');
                if ang {
                    l.expect(b'>');
                }
                while out.len() - start < t.size() as usize {
                    out.push(0);
                }
            }
            Ty::Arr(_, et) | Ty::Vec(_, et) if l.is(b'[') || l.is(b'<') => {
                let close = if l.is(b'[') { b']' } else { b'>' };
                l.next();
                let mut first = true;
                while !l.is(close) {
                    if !first {
                        l.expect(b',');
                    }
                    first = false;
                    let _ = l.ty();
                    self.const_bytes(l, et, out);
                }
                l.expect(close);
            }
            _ => match l.cur.clone() {
                Tok::CStr(s) => {
                    l.next();
                    out.extend(unescape(s));
                }
                Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") => {
                    l.next();
                    out.resize(start + t.size() as usize, 0);
                }
                _ => {
                    let mut v = vec![];
                    self.const_slots(l, t, &mut v);
                    let mut lay = vec![];
                    t.layout(0, &mut lay);
                    out.resize(start + t.size() as usize, 0);
                    for (x, (o, w)) in v.iter().zip(lay.iter()) {
                        let nb = (*w as usize + 7) / 8;
                        out[start + *o as usize..start + *o as usize + nb].copy_from_slice(&x.to_le_bytes()[..nb]);
                    }
                }
            },
        }
    }

    /// A constant as register slots.
    pub fn const_slots(&self, l: &mut Lex, t: &Ty, out: &mut Vec<u64>) {
        match l.cur.clone() {
            Tok::Word(w) => match w {
                "undef" | "poison" | "null" | "zeroinitializer" | "none" => {
                    l.next();
                    out.resize(out.len() + t.nslots(), 0);
                }
                "true" => {
                    l.next();
                    out.push(1);
                }
                "false" => {
                    l.next();
                    out.push(0);
                }
                "splat" => {
                    l.next();
                    l.expect(b'(');
                    let et = l.ty();
                    let mut v = vec![];
                    self.const_slots(l, &et, &mut v);
                    l.expect(b')');
                    if let Ty::Vec(n, _) = t {
                        for _ in 0..*n {
                            out.extend(&v);
                        }
                    } else {
                        panic!("splat")
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    l.next();
                    l.attrs();
                    l.expect(b'(');
                    let et = l.ty();
                    let mut v = vec![];
                    self.const_slots(l, &et, &mut v);
                    assert!(l.word("to"));
                    let tt = l.ty();
                    l.expect(b')');
                    let b = tt.bits();
                    out.push(if b < 64 { v[0] & ((1u64 << b) - 1) } else { v[0] });
                }
                "add" | "sub" | "xor" | "mul" => {
                    l.next();
                    while matches!(l.cur, Tok::Word(_)) {
                        l.next();
                    }
                    l.expect(b'(');
                    let et = l.ty();
                    let mut v = vec![];
                    self.const_slots(l, &et, &mut v);
                    l.expect(b',');
                    let et2 = l.ty();
                    self.const_slots(l, &et2, &mut v);
                    l.expect(b')');
                    let b = et.bits();
                    let r = match w {
                        "add" => v[0].wrapping_add(v[1]),
                        "sub" => v[0].wrapping_sub(v[1]),
                        "mul" => v[0].wrapping_mul(v[1]),
                        _ => v[0] ^ v[1],
                    };
                    out.push(if b < 64 { r & ((1u64 << b) - 1) } else { r });
                }
                "getelementptr" => {
                    l.next();
                    while !l.is(b'(') {
                        if let Tok::Word(_) = l.cur {
                            l.next();
                            if l.is(b'(') {
                                // inrange(...)
                                let save = l.rest().as_bytes().first().copied();
                                if matches!(save, Some(b'-') | Some(b'0'..=b'9')) {
                                    l.skip_group(b'(', b')');
                                }
                            }
                        } else {
                            l.next();
                        }
                    }
                    l.expect(b'(');
                    let bt = l.ty();
                    l.expect(b',');
                    let pt = l.ty();
                    let mut v = vec![];
                    self.const_slots(l, &pt, &mut v);
                    let mut a = v[0];
                    let mut cur = bt;
                    let mut first = true;
                    while l.eat(b',') {
                        l.attrs();
                        let it = l.ty();
                        let mut iv = vec![];
                        self.const_slots(l, &it, &mut iv);
                        let bits = it.bits();
                        let i = sext(iv[0], bits) as u64;
                        if first {
                            a = a.wrapping_add(i.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let (o, _, ft) = cur.field(i);
                                    a = a.wrapping_add(o);
                                    cur = ft;
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    a = a.wrapping_add(i.wrapping_mul(e.size()));
                                    cur = (**e).clone();
                                }
                                _ => panic!("gep const"),
                            }
                        }
                    }
                    l.expect(b')');
                    out.push(a);
                }
                _ if w.starts_with("f0x") => {
                    l.next();
                    out.push(u64::from_str_radix(&w[3..], 16).unwrap())
                }
                _ => panic!("constant word {w}"),
            },
            Tok::Num(n) => {
                l.next();
                match t {
                    Ty::Int(b) => {
                        let v: i128 = n.parse::<i128>().unwrap_or_else(|_| n.parse::<u128>().expect("int const") as i128);
                        if *b > 64 {
                            out.push(v as u64);
                            let hi = (v >> 64) as u64;
                            let hb = *b - 64;
                            out.push(if hb < 64 { hi & ((1u64 << hb) - 1) } else { hi });
                        } else if *b == 64 {
                            out.push(v as u64);
                        } else {
                            out.push(v as u64 & ((1u64 << *b) - 1));
                        }
                    }
                    Ty::F64 => {
                        if let Some(f) = special_float(n) {
                            out.push(f.to_bits())
                        } else if let Some(h) = n.strip_prefix("f0x").or(n.strip_prefix("0x")) {
                            out.push(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            out.push(n.parse::<f64>().unwrap().to_bits())
                        }
                    }
                    Ty::F32 => {
                        if let Some(f) = special_float(n) {
                            out.push((f as f32).to_bits() as u64)
                        } else if let Some(h) = n.strip_prefix("f0x") {
                            out.push(u64::from_str_radix(h, 16).unwrap())
                        } else if let Some(h) = n.strip_prefix("0x") {
                            let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                            out.push((d as f32).to_bits() as u64)
                        } else {
                            out.push(n.parse::<f32>().unwrap().to_bits() as u64)
                        }
                    }
                    _ => panic!("num const of {:?}", t),
                }
            }
            Tok::Global(g) => {
                l.next();
                let a = self.sym_addr(g);
                out.push(a);
            }
            Tok::P(b'<') | Tok::P(b'{') | Tok::P(b'[') => {
                let packed = l.is(b'<') && matches!(t, Ty::Struct(_, true));
                l.next();
                if packed {
                    l.expect(b'{');
                }
                let mut first = true;
                loop {
                    if l.is(b'>') || l.is(b'}') || l.is(b']') {
                        l.next();
                        if packed {
                            l.expect(b'>');
                        }
                        break;
                    }
                    if !first {
                        l.expect(b',');
                    }
                    first = false;
                    let et = l.ty();
                    self.const_slots(l, &et, out);
                }
            }
            Tok::CStr(s) => {
                l.next();
                out.extend(unescape(s).iter().map(|&b| b as u64));
            }
            t2 => panic!("constant {:?} of type {:?}", t2, t),
        }
    }

    pub fn code(&self, f: u32) -> &Arc<FuncCode> {
        let fd = &self.funcs[f as usize];
        fd.code.get_or_init(|| {
            let (a, b) = fd.body.expect("body");
            Arc::new(crate::lower::lower(self, &self.text[a..b]))
        })
    }
}

pub fn sext(v: u64, bits: u32) -> i64 {
    if bits >= 64 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}

fn func_name(line: &str) -> String {
    let a = line.find('@').unwrap() + 1;
    let r = &line[a..];
    if let Some(r) = r.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}

pub fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|&x| x == c)
}
fn find(s: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    let mut p = from;
    loop {
        let k = memchr(pat[0], &s[p..])?;
        p += k;
        if s[p..].starts_with(pat) {
            return Some(p);
        }
        p += 1;
    }
}

/// `+inf`, `-inf`, `+qnan`, `-qnan` as LLVM 22 prints them.
fn special_float(n: &str) -> Option<f64> {
    Some(match n {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" => f64::from_bits(0x7ff8 << 48),
        "-qnan" => f64::from_bits(0xfff8 << 48),
        _ => return None,
    })
}
