//! Lowering of one textual function body to register code.
use crate::ir::*;
use std::collections::HashMap;

struct Lo<'a> {
    m: &'a Module,
    l: Lex<'a>,
    regs: HashMap<&'a str, Reg>,
    nregs: u32,
    consts: Vec<u64>,
    cmap: HashMap<Vec<u64>, u32>,
    labels: HashMap<&'a str, u32>,
    code: Vec<Inst>,
    blocks: Vec<u32>,
    phis: HashMap<u32, Vec<(Reg, u32, Vec<(Opd, u32)>)>>,
    terms: Vec<(usize, u32)>, // (pc, bb)
}

pub fn lower(m: &Module, text: &str) -> FuncCode {
    let mut lo = Lo {
        m,
        l: Lex::new(text),
        regs: HashMap::new(),
        nregs: 0,
        consts: vec![],
        cmap: HashMap::new(),
        labels: HashMap::new(),
        code: vec![],
        blocks: vec![],
        phis: HashMap::new(),
        terms: vec![],
    };
    let params = lo.header();
    lo.body();
    lo.finish(params)
}

impl<'a> Lo<'a> {
    fn reg(&mut self, name: &'a str, n: usize) -> Reg {
        if let Some(&r) = self.regs.get(name) {
            return r;
        }
        let r = self.nregs;
        self.nregs += n as u32;
        self.regs.insert(name, r);
        r
    }
    fn tmp(&mut self, n: usize) -> Reg {
        let r = self.nregs;
        self.nregs += n as u32;
        r
    }
    fn label(&mut self, name: &'a str) -> u32 {
        let n = self.labels.len() as u32;
        *self.labels.entry(name).or_insert(n)
    }
    fn konst(&mut self, v: Vec<u64>) -> Opd {
        if let Some(&c) = self.cmap.get(&v) {
            return c | CBIT;
        }
        let i = self.consts.len() as u32;
        self.consts.extend(&v);
        self.cmap.insert(v, i);
        i | CBIT
    }
    /// operand value of a known type
    fn val(&mut self, t: &Ty) -> Opd {
        if let Tok::Local(n) = self.l.cur {
            self.l.next();
            return self.reg(n, t.nslots());
        }
        let mut v = vec![];
        self.m.const_slots(&mut self.l, t, &mut v);
        self.konst(v)
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.l.ty();
        self.l.attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn header(&mut self) -> Vec<(Reg, u32)> {
        // define [attrs] type @name(params) ... {
        self.l.next();
        loop {
            match self.l.cur {
                Tok::Word(w) if is_type_word(w) => break,
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => break,
                Tok::Word(_) => {
                    self.l.next();
                    if self.l.is(b'(') {
                        self.l.skip_group(b'(', b')');
                    }
                }
                Tok::Num(_) | Tok::Str(_) | Tok::P(_) => {
                    self.l.next();
                }
                _ => panic!("define header"),
            }
        }
        let _ret = self.l.ty();
        self.l.next(); // name
        self.l.expect(b'(');
        let mut ps = vec![];
        let mut unnamed = 0;
        if !self.l.eat(b')') {
            loop {
                if self.l.is(b'.') {
                    while !self.l.is(b')') {
                        self.l.next();
                    }
                    self.l.next();
                    break;
                }
                if let Tok::Word(w) = self.l.cur {
                    if w.starts_with("...") {
                        self.l.next();
                        self.l.expect(b')');
                        break;
                    }
                }
                let t = self.l.ty();
                self.l.attrs();
                let n = t.nslots();
                let r = if let Tok::Local(nm) = self.l.cur {
                    self.l.next();
                    if nm.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    self.reg(nm, n)
                } else {
                    self.tmp(n)
                };
                ps.push((r, n as u32));
                if self.l.eat(b')') {
                    break;
                }
                self.l.expect(b',');
            }
        }
        while !self.l.is(b'{') {
            self.l.next();
        }
        self.l.next();
        if !self.l.is_label() {
            let name: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
            let b = self.label(name);
            debug_assert_eq!(b, 0);
            self.blocks.push(0);
        }
        ps
    }

    fn body(&mut self) {
        let mut bb = 0u32;
        loop {
            if self.l.is(b'}') || self.l.cur == Tok::End {
                break;
            }
            if self.l.is_label() {
                let name = match self.l.next() {
                    Tok::Word(w) | Tok::Num(w) | Tok::Str(w) => w,
                    _ => unreachable!(),
                };
                self.l.next(); // ':'
                bb = self.label(name);
                while self.blocks.len() <= bb as usize {
                    self.blocks.push(u32::MAX);
                }
                self.blocks[bb as usize] = self.code.len() as u32;
                continue;
            }
            self.inst(bb);
        }
    }

    fn bad(&mut self, what: &str) {
        self.code.push(Inst::Bad(what.into()));
    }

    fn inst(&mut self, bb: u32) {
        let mut dname: Option<&'a str> = None;
        if let Tok::Local(n) = self.l.cur {
            dname = Some(n);
            self.l.next();
            self.l.expect(b'=');
        }
        let mut op = match self.l.next() {
            Tok::Word(w) => w,
            t => panic!("opcode {:?}", t),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match self.l.next() {
                Tok::Word(w) => w,
                _ => panic!(),
            };
        }
        let d = |s: &mut Self, n: usize| -> Reg {
            match dname {
                Some(x) => s.reg(x, n),
                None => s.tmp(n),
            }
        };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                while matches!(self.l.cur, Tok::Word("nuw" | "nsw" | "exact" | "disjoint")) {
                    self.l.next();
                }
                let t = self.l.ty();
                let a = self.val(&t);
                self.l.expect(b',');
                let b = self.val(&t);
                let (et, n) = t.elem();
                let w = et.bits();
                let dst = d(self, t.nslots());
                if w > 64 {
                    if n > 1 || w > 128 {
                        self.bad("wide vector");
                    } else {
                        self.code.push(Inst::Bin128 { op: o, w: w as u8, dst, a, b });
                    }
                } else {
                    self.code.push(Inst::Bin { op: o, w: w as u8, dst, a, b, n: n as u32 });
                }
            }
            "icmp" => {
                self.l.word("samesign");
                let p = match self.l.next() {
                    Tok::Word("eq") => Pred::Eq,
                    Tok::Word("ne") => Pred::Ne,
                    Tok::Word("ult") => Pred::Ult,
                    Tok::Word("ule") => Pred::Ule,
                    Tok::Word("ugt") => Pred::Ugt,
                    Tok::Word("uge") => Pred::Uge,
                    Tok::Word("slt") => Pred::Slt,
                    Tok::Word("sle") => Pred::Sle,
                    Tok::Word("sgt") => Pred::Sgt,
                    Tok::Word("sge") => Pred::Sge,
                    t => panic!("icmp {:?}", t),
                };
                let t = self.l.ty();
                let a = self.val(&t);
                self.l.expect(b',');
                let b = self.val(&t);
                let (et, n) = t.elem();
                let w = et.bits();
                let dst = d(self, n);
                if w > 64 {
                    self.code.push(Inst::ICmp128 { p, w: w as u8, dst, a, b });
                } else {
                    self.code.push(Inst::ICmp { p, w: w as u8, dst, a, b, n: n as u32 });
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let o = match op {
                    "fadd" => FBin::Add,
                    "fsub" => FBin::Sub,
                    "fmul" => FBin::Mul,
                    "fdiv" => FBin::Div,
                    _ => FBin::Rem,
                };
                self.fmf();
                let t = self.l.ty();
                let a = self.val(&t);
                self.l.expect(b',');
                let b = self.val(&t);
                let (et, n) = t.elem();
                let dbl = *et == Ty::F64;
                let dst = d(self, n);
                self.code.push(Inst::FBin { op: o, dbl, dst, a, b, n: n as u32 });
            }
            "fneg" => {
                self.fmf();
                let t = self.l.ty();
                let a = self.val(&t);
                let (et, n) = t.elem();
                let dbl = *et == Ty::F64;
                let dst = d(self, n);
                self.code.push(Inst::FNeg { dbl, dst, a, n: n as u32 });
            }
            "fcmp" => {
                self.fmf();
                let p = match self.l.next() {
                    Tok::Word(w) => match w {
                        "false" => FPred::False,
                        "oeq" => FPred::Oeq,
                        "ogt" => FPred::Ogt,
                        "oge" => FPred::Oge,
                        "olt" => FPred::Olt,
                        "ole" => FPred::Ole,
                        "one" => FPred::One,
                        "ord" => FPred::Ord,
                        "ueq" => FPred::Ueq,
                        "ugt" => FPred::Ugt,
                        "uge" => FPred::Uge,
                        "ult" => FPred::Ult,
                        "ule" => FPred::Ule,
                        "une" => FPred::Une,
                        "uno" => FPred::Uno,
                        "true" => FPred::True,
                        _ => panic!("fcmp {w}"),
                    },
                    t => panic!("fcmp {:?}", t),
                };
                let t = self.l.ty();
                let a = self.val(&t);
                self.l.expect(b',');
                let b = self.val(&t);
                let (et, n) = t.elem();
                let dbl = *et == Ty::F64;
                let dst = d(self, n);
                self.code.push(Inst::FCmp { p, dbl, dst, a, b, n: n as u32 });
            }
            "trunc" | "zext" | "sext" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while matches!(self.l.cur, Tok::Word("nuw" | "nsw" | "nneg")) {
                    self.l.next();
                }
                self.fmf();
                let t = self.l.ty();
                let a = self.val(&t);
                assert!(self.l.word("to"));
                let tt = self.l.ty();
                let dst = d(self, tt.nslots());
                if op == "bitcast" || op == "addrspacecast" {
                    let (fw, fnn) = shape(&t);
                    let (tw, tn) = shape(&tt);
                    if fw == tw && fnn == tn {
                        self.code.push(Inst::Copy { dst, a, n: fnn });
                    } else {
                        self.code.push(Inst::Repack { dst, a, fw, fn_: fnn, tw, tn });
                    }
                } else {
                    let (fe, n) = t.elem();
                    let (te, _) = tt.elem();
                    let (fb, tb) = (fe.bits(), te.bits());
                    let k = match op {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        "fptosi" => Cast::FpToSi,
                        "fptoui" => Cast::FpToUi,
                        "sitofp" => Cast::SiToFp,
                        "uitofp" => Cast::UiToFp,
                        "fpext" => Cast::FpExt,
                        "fptrunc" => Cast::FpTrunc,
                        _ => {
                            if tb < fb {
                                Cast::Trunc
                            } else {
                                Cast::ZExt
                            }
                        }
                    };
                    if fb == tb && matches!(k, Cast::Trunc | Cast::ZExt) {
                        self.code.push(Inst::Copy { dst, a, n: n as u32 });
                    } else if fb > 64 || tb > 64 {
                        if n > 1 || fb > 128 || tb > 128 {
                            self.bad("wide cast");
                        } else {
                            self.code.push(Inst::CastW { k, from: fb as u8, to: tb as u8, dst, a });
                        }
                    } else {
                        self.code.push(Inst::Cast { k, from: fb as u8, to: tb as u8, dst, a, n: n as u32 });
                    }
                }
            }
            "freeze" => {
                let (t, a) = self.tyval();
                let n = t.nslots();
                let dst = d(self, n);
                self.code.push(Inst::Copy { dst, a, n: n as u32 });
            }
            "select" => {
                self.fmf();
                let (ct, c) = self.tyval();
                self.l.expect(b',');
                let (t, a) = self.tyval();
                self.l.expect(b',');
                let (_, b) = self.tyval();
                let n = t.nslots();
                let dst = d(self, n);
                let mut lay = vec![];
                t.layout(0, &mut lay);
                self.code.push(Inst::Select { n: n as u32, vec: matches!(ct, Ty::Vec(..)), w: lay.iter().map(|x| x.1).collect(), dst, c, a, b });
            }
            "load" => {
                self.l.word("atomic");
                self.l.word("volatile");
                let t = self.l.ty();
                self.l.expect(b',');
                let (_, p) = self.tyval();
                let dst = d(self, t.nslots());
                let (lay, bp) = lay(&t);
                if lay.len() == 1 && bp == 0 {
                    self.code.push(Inst::Load { dst, p, w: lay[0].1 });
                } else {
                    self.code.push(Inst::LoadN { dst, p, lay, bitpack: bp });
                }
            }
            "store" => {
                self.l.word("atomic");
                self.l.word("volatile");
                let (t, v) = self.tyval();
                self.l.expect(b',');
                let (_, p) = self.tyval();
                let (lay, bp) = lay(&t);
                if lay.len() == 1 && bp == 0 {
                    self.code.push(Inst::Store { v, p, w: lay[0].1 });
                } else {
                    self.code.push(Inst::StoreN { v, p, lay, bitpack: bp });
                }
            }
            "alloca" => {
                self.l.word("inalloca");
                let t = self.l.ty();
                let mut cnt = self.konst(vec![1]);
                let mut align = t.align() as u32;
                while !self.l.nl && self.l.eat(b',') {
                    if self.l.word("align") {
                        align = self.l.num() as u32;
                    } else if self.l.cur == Tok::Meta {
                        break;
                    } else {
                        let (_, c) = self.tyval();
                        cnt = c;
                    }
                }
                let dst = d(self, 1);
                self.code.push(Inst::Alloca { dst, size: t.size(), align, cnt });
            }
            "getelementptr" => {
                while matches!(self.l.cur, Tok::Word("inbounds" | "nuw" | "nusw")) {
                    self.l.next();
                }
                let bt = self.l.ty();
                self.l.expect(b',');
                let (pt, base) = self.tyval();
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                let mut vecgep = matches!(pt, Ty::Vec(..));
                while !self.l.nl && self.l.is(b',') {
                    self.l.next();
                    if self.l.cur == Tok::Meta {
                        break;
                    }
                    let (it, io) = self.tyval();
                    if matches!(it, Ty::Vec(..)) {
                        vecgep = true;
                        continue;
                    }
                    let w = it.bits();
                    let cst = if io & CBIT != 0 { Some(sext(self.consts[(io & !CBIT) as usize], w)) } else { None };
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                let (o, _, ft) = cur.field(cst.expect("struct gep") as u64);
                                off = off.wrapping_add(o);
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                cur = *e;
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                    match cst {
                        Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(scale)),
                        None => idx.push((io, w as u8, scale)),
                    }
                }
                let dst = d(self, 1);
                if vecgep {
                    self.bad("vector gep");
                } else {
                    self.code.push(Inst::Gep { dst, base, off, idx: idx.into() });
                }
            }
            "extractvalue" => {
                let (t, a) = self.tyval();
                let mut cur = t;
                let mut so = 0;
                while !self.l.nl && self.l.eat(b',') {
                    if self.l.cur == Tok::Meta {
                        break;
                    }
                    let i = self.l.num() as u64;
                    let (_, s, ft) = cur.field(i);
                    so += s;
                    cur = ft;
                }
                let n = cur.nslots();
                let dst = d(self, n);
                self.code.push(Inst::Copy { dst, a: a + so as u32, n: n as u32 });
            }
            "insertvalue" => {
                let (t, a) = self.tyval();
                self.l.expect(b',');
                let (vt, v) = self.tyval();
                let mut cur = t.clone();
                let mut so = 0;
                while !self.l.nl && self.l.eat(b',') {
                    if self.l.cur == Tok::Meta {
                        break;
                    }
                    let i = self.l.num() as u64;
                    let (_, s, ft) = cur.field(i);
                    so += s;
                    cur = ft;
                }
                let n = t.nslots();
                let dst = d(self, n);
                self.code.push(Inst::Insert { dst, agg: a, n: n as u32, v, off: so as u32, k: vt.nslots() as u32 });
            }
            "extractelement" => {
                let (t, a) = self.tyval();
                self.l.expect(b',');
                let (_, idx) = self.tyval();
                let (et, n) = t.elem();
                let k = et.nslots();
                let dst = d(self, k);
                self.code.push(Inst::ExtractEl { dst, a, n: n as u32, k: k as u32, idx });
            }
            "insertelement" => {
                let (t, a) = self.tyval();
                self.l.expect(b',');
                let (_, v) = self.tyval();
                self.l.expect(b',');
                let (_, idx) = self.tyval();
                let (et, n) = t.elem();
                let k = et.nslots();
                let dst = d(self, t.nslots());
                self.code.push(Inst::InsertEl { dst, a, n: n as u32, k: k as u32, v, idx });
            }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.l.expect(b',');
                let (_, b) = self.tyval();
                self.l.expect(b',');
                let mt = self.l.ty();
                let mn = mt.elem().1;
                let mut mask: Vec<i32> = vec![];
                if self.l.eat(b'<') {
                    loop {
                        let _ = self.l.ty();
                        match self.l.next() {
                            Tok::Num(n) => mask.push(n.parse().unwrap()),
                            _ => mask.push(-1),
                        }
                        if self.l.eat(b'>') {
                            break;
                        }
                        self.l.expect(b',');
                    }
                } else if let Tok::Word(w) = self.l.next() {
                    if w == "splat" {
                        self.l.expect(b'(');
                        let _ = self.l.ty();
                        let k = self.l.num() as i32;
                        self.l.expect(b')');
                        mask = vec![k; mn];
                    } else {
                        mask = vec![if w == "zeroinitializer" { 0 } else { -1 }; mn];
                    }
                }
                let (et, n) = t.elem();
                let dst = d(self, mn * et.nslots());
                if et.nslots() != 1 {
                    self.bad("wide shuffle");
                } else {
                    self.code.push(Inst::Shuffle { dst, a, b, n: n as u32, mask: mask.into() });
                }
            }
            "phi" => {
                self.fmf();
                let t = self.l.ty();
                let n = t.nslots();
                let mut inc = vec![];
                loop {
                    self.l.expect(b'[');
                    let v = self.val(&t);
                    self.l.expect(b',');
                    let lb = match self.l.next() {
                        Tok::Local(x) => self.label(x),
                        t => panic!("phi label {:?}", t),
                    };
                    self.l.expect(b']');
                    inc.push((v, lb));
                    if self.l.nl || !self.l.is(b',') {
                        break;
                    }
                    self.l.next();
                    if self.l.cur == Tok::Meta {
                        break;
                    }
                }
                let dst = d(self, n);
                self.phis.entry(bb).or_default().push((dst, n as u32, inc));
            }
            "br" => {
                if self.l.word("label") {
                    let e = self.edge();
                    self.terms.push((self.code.len(), bb));
                    self.code.push(Inst::Br(e));
                } else {
                    let (_, c) = self.tyval();
                    self.l.expect(b',');
                    self.l.word("label");
                    let t = self.edge();
                    self.l.expect(b',');
                    self.l.word("label");
                    let f = self.edge();
                    self.terms.push((self.code.len(), bb));
                    self.code.push(Inst::CondBr { c, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.l.expect(b',');
                self.l.word("label");
                let mut edges = vec![self.edge()];
                self.l.expect(b'[');
                let mut cases = vec![];
                while !self.l.eat(b']') {
                    let ct = self.l.ty();
                    let mut cv = vec![];
                    self.m.const_slots(&mut self.l, &ct, &mut cv);
                    self.l.expect(b',');
                    self.l.word("label");
                    let e = self.edge();
                    let k = match edges.iter().position(|x| x.bb == e.bb) {
                        Some(k) => k,
                        None => {
                            edges.push(e);
                            edges.len() - 1
                        }
                    };
                    cases.push((cv[0], k as u32));
                }
                self.terms.push((self.code.len(), bb));
                if t.bits() > 64 {
                    self.bad("wide switch");
                } else {
                    cases.sort();
                    self.code.push(Inst::Switch { w: t.bits() as u8, v, cases: cases.into(), edges: edges.into() });
                }
            }
            "ret" => {
                let t = self.l.ty();
                if t == Ty::Void {
                    self.code.push(Inst::Ret { a: 0, n: 0 });
                } else {
                    self.l.attrs();
                    let a = self.val(&t);
                    self.code.push(Inst::Ret { a, n: t.nslots() as u32 });
                }
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "resume" => self.bad("resume"),
            "landingpad" => {
                let t = self.l.ty();
                let _ = d(self, t.nslots());
                self.bad("landingpad");
                // clauses are on following lines
                self.l.skip_line();
                while matches!(self.l.cur, Tok::Word("cleanup" | "catch" | "filter")) {
                    self.l.next();
                    self.l.skip_line();
                }
                return;
            }
            "fence" => {}
            "atomicrmw" => {
                self.l.word("volatile");
                let o = match self.l.next() {
                    Tok::Word("xchg") => Rmw::Xchg,
                    Tok::Word("add") => Rmw::Add,
                    Tok::Word("sub") => Rmw::Sub,
                    Tok::Word("and") => Rmw::And,
                    Tok::Word("or") => Rmw::Or,
                    Tok::Word("xor") => Rmw::Xor,
                    Tok::Word("max") => Rmw::Max,
                    Tok::Word("min") => Rmw::Min,
                    Tok::Word("umax") => Rmw::UMax,
                    Tok::Word("umin") => Rmw::UMin,
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tyval();
                self.l.expect(b',');
                let (t, v) = self.tyval();
                let dst = d(self, 1);
                self.code.push(Inst::Rmw { op: o, w: t.bits() as u8, dst, p, v });
            }
            "cmpxchg" => {
                self.l.word("weak");
                self.l.word("volatile");
                let (_, p) = self.tyval();
                self.l.expect(b',');
                let (t, c) = self.tyval();
                self.l.expect(b',');
                let (_, v) = self.tyval();
                let dst = d(self, 2);
                self.code.push(Inst::CmpXchg { w: t.bits() as u8, dst, p, c, v });
            }
            "call" | "invoke" => self.call(bb, dname, op == "invoke"),
            _ => {
                let s = format!("opcode {op}");
                self.bad(&s);
            }
        }
        self.l.skip_line();
    }

    fn fmf(&mut self) {
        while matches!(self.l.cur, Tok::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) {
            self.l.next();
        }
    }

    fn edge(&mut self) -> Edge {
        match self.l.next() {
            Tok::Local(x) => Edge { bb: self.label(x), copies: Box::new([]), seq: true },
            t => panic!("edge {:?}", t),
        }
    }

    fn call(&mut self, bb: u32, dname: Option<&'a str>, invoke: bool) {
        // [cc] [ret attrs] type [fnty] callee(args) [attrs] [bundles] [to label .. unwind ..]
        self.fmf();
        loop {
            match self.l.cur {
                Tok::Word(w) if is_type_word(w) => break,
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => break,
                Tok::Word("align") => {
                    self.l.next();
                    if self.l.is(b'(') {
                        self.l.skip_group(b'(', b')');
                    } else {
                        self.l.next();
                    }
                }
                Tok::Word(_) => {
                    self.l.next();
                    if self.l.is(b'(') {
                        self.l.skip_group(b'(', b')');
                    }
                }
                Tok::Str(_) | Tok::Num(_) | Tok::P(_) => {
                    self.l.next();
                }
                _ => panic!("call head {:?}", self.l.cur),
            }
        }
        let rt = self.l.ty();
        if self.l.is(b'(') {
            self.l.skip_group(b'(', b')');
        }
        let mut asm = None;
        enum C<'b> {
            G(&'b str),
            R(Opd),
        }
        let callee = match self.l.cur.clone() {
            Tok::Global(g) => {
                self.l.next();
                C::G(g)
            }
            Tok::Local(_) => C::R(self.val(&Ty::Ptr)),
            Tok::Word("asm") => {
                self.l.next();
                while let Tok::Word(_) = self.l.cur {
                    self.l.next();
                }
                let s = match self.l.next() {
                    Tok::Str(s) => s,
                    t => panic!("asm {:?}", t),
                };
                self.l.expect(b',');
                self.l.next();
                asm = Some(s);
                C::G("asm")
            }
            _ => {
                let mut v = vec![];
                self.m.const_slots(&mut self.l, &Ty::Ptr, &mut v);
                C::R(self.konst(v))
            }
        };
        self.l.expect(b'(');
        let mut args: Vec<(Opd, u32)> = vec![];
        let mut tys: Vec<Ty> = vec![];
        if !self.l.eat(b')') {
            loop {
                let t = self.l.ty();
                if t == Ty::Meta {
                    // metadata operand: skip to , or )
                    let mut depth = 0;
                    while !(depth == 0 && (self.l.is(b',') || self.l.is(b')'))) {
                        if self.l.is(b'(') || self.l.is(b'{') {
                            depth += 1;
                        }
                        if self.l.is(b')') || self.l.is(b'}') {
                            depth -= 1;
                        }
                        self.l.next();
                    }
                    args.push((CBIT, 0));
                } else {
                    self.l.attrs();
                    let v = self.val(&t);
                    args.push((v, t.nslots() as u32));
                }
                tys.push(t);
                if self.l.eat(b')') {
                    break;
                }
                self.l.expect(b',');
            }
        }
        let mut normal = None;
        if invoke {
            while self.l.cur != Tok::Word("to") {
                self.l.next();
            }
            self.l.next();
            self.l.word("label");
            normal = Some(self.edge());
            self.l.word("unwind");
            self.l.word("label");
            self.l.next();
        }
        let nret = rt.nslots();
        let dst = match dname {
            Some(x) => self.reg(x, nret),
            None => self.tmp(nret),
        };
        if let Some(s) = asm {
            if s.is_empty() {
                // an optimisation barrier: outputs equal inputs when tied
                if nret > 0 {
                    if args.len() == 1 && args[0].1 == nret as u32 {
                        self.code.push(Inst::Copy { dst, a: args[0].0, n: nret as u32 });
                    } else {
                        self.bad("asm barrier with output");
                    }
                }
            } else if s.contains("cpuid") {
                let z = self.konst(vec![0; nret]);
                self.code.push(Inst::Copy { dst, a: z, n: nret as u32 });
            } else {
                self.bad("inline asm");
            }
        } else {
            match callee {
                C::G(g) if g.starts_with("llvm.") => {
                    let k = intrinsic(g);
                    match k {
                        Some(Intr::Nop) => {}
                        Some(k) => {
                            let (w, n) = if args.is_empty() {
                                (0, 1)
                            } else {
                                match k {
                                    Intr::Memcpy | Intr::Memset | Intr::Assume | Intr::Tls => (0, 1),
                                    _ => {
                                        let (e, n) = tys[0].elem();
                                        (e.bits(), n)
                                    }
                                }
                            };
                            // saturating casts carry their target width in the return type
                            let w = match k {
                                Intr::FpToSiSat | Intr::FpToUiSat => (rt.bits() | if w == 64 { 0x80 } else { 0 }) as u32,
                                Intr::Scmp | Intr::Ucmp => w,
                                _ => w,
                            };
                            if w > 128 && !matches!(k, Intr::FpToSiSat | Intr::FpToUiSat) {
                                self.bad("wide intrinsic");
                            } else {
                                self.code.push(Inst::Intr { k, w: w as u8, n: n as u32, dst, args: args.iter().map(|x| x.0).collect() });
                            }
                        }
                        None => self.bad(&format!("intrinsic {g}")),
                    }
                }
                C::G(g) => {
                    let f = *self.m.by_name.get(g).unwrap_or_else(|| panic!("unknown callee {g}"));
                    if normal.is_some() {
                        self.terms.push((self.code.len(), bb));
                    }
                    self.code.push(Inst::Call(Box::new(CallI { dst, nret: nret as u32, callee: Callee::Func(f), args: args.into(), normal: normal.take() })));
                    self.l.skip_line();
                    return;
                }
                C::R(o) => {
                    if normal.is_some() {
                        self.terms.push((self.code.len(), bb));
                    }
                    self.code.push(Inst::Call(Box::new(CallI { dst, nret: nret as u32, callee: Callee::Ind(o), args: args.into(), normal: normal.take() })));
                    self.l.skip_line();
                    return;
                }
            }
        }
        if let Some(e) = normal {
            self.terms.push((self.code.len(), bb));
            self.code.push(Inst::Br(e));
        }
    }

    fn finish(mut self, params: Vec<(Reg, u32)>) -> FuncCode {
        let phis = std::mem::take(&mut self.phis);
        let fill = |e: &mut Edge, from: u32| {
            if let Some(ps) = phis.get(&e.bb) {
                let mut c: Vec<(Reg, Opd, u32)> = vec![];
                for (dst, n, inc) in ps {
                    let v = inc.iter().find(|x| x.1 == from).expect("phi incoming").0;
                    if v != *dst {
                        c.push((*dst, v, *n));
                    }
                }
                let mut seq = true;
                for i in 0..c.len() {
                    for j in i + 1..c.len() {
                        let (d, _, n) = c[i];
                        let (_, s, m) = c[j];
                        if s & CBIT == 0 && s < d + n && d < s + m {
                            seq = false;
                        }
                    }
                }
                e.copies = c.into();
                e.seq = seq;
            }
        };
        for (pc, bb) in self.terms.clone() {
            match &mut self.code[pc] {
                Inst::Br(e) => fill(e, bb),
                Inst::CondBr { t, f, .. } => {
                    fill(t, bb);
                    fill(f, bb);
                }
                Inst::Switch { edges, .. } => {
                    for e in edges.iter_mut() {
                        fill(e, bb);
                    }
                }
                Inst::Call(c) => {
                    if let Some(e) = &mut c.normal {
                        fill(e, bb)
                    }
                }
                _ => {}
            }
        }
        FuncCode { code: self.code, blocks: self.blocks, nregs: self.nregs, params, consts: self.consts }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn lay(t: &Ty) -> (Box<[(u32, u8)]>, u8) {
    let mut v = vec![];
    t.layout(0, &mut v);
    let mut bp = 0;
    if let Ty::Vec(n, e) = t {
        if **e == Ty::Int(1) {
            bp = *n as u8;
        }
    }
    (v.into(), bp)
}

/// (slot width, slots) for bitcasts
fn shape(t: &Ty) -> (u8, u32) {
    match t {
        Ty::Int(b) if *b > 64 => (64, 2),
        Ty::Vec(n, e) => (e.bits().min(64) as u8, *n as u32 * e.nslots() as u32),
        t => (t.bits() as u8, 1),
    }
}

fn intrinsic(g: &str) -> Option<Intr> {
    use Intr::*;
    let g = &g[5..];
    let tbl: &[(&str, Intr)] = &[
        ("experimental.noalias", Nop), ("lifetime.", Nop), ("dbg.", Nop), ("donothing", Nop), ("prefetch", Nop), ("x86.sse2.pause", Nop), ("invariant.", Nop),
        ("memcpy.", Memcpy), ("memmove.", Memcpy), ("memset.", Memset), ("assume", Assume),
        ("ctpop.", Ctpop), ("ctlz.", Ctlz), ("cttz.", Cttz), ("bswap.", Bswap), ("bitreverse.", Bitreverse),
        ("umax.", UMax), ("umin.", UMin), ("smax.", SMax), ("smin.", SMin), ("abs.", Abs), ("scmp.", Scmp), ("ucmp.", Ucmp),
        ("uadd.with.overflow", UAddO), ("usub.with.overflow", USubO), ("umul.with.overflow", UMulO),
        ("sadd.with.overflow", SAddO), ("ssub.with.overflow", SSubO), ("smul.with.overflow", SMulO),
        ("uadd.sat", UAddSat), ("usub.sat", USubSat), ("sadd.sat", SAddSat), ("ssub.sat", SSubSat),
        ("fshl.", Fshl), ("fshr.", Fshr),
        ("fabs.", Fabs), ("floor.", FFloor), ("ceil.", FCeil), ("trunc.", FTrunc), ("round.", FRound), ("rint.", FRint), ("roundeven.", FRint), ("nearbyint.", FRint), ("fma.", Fma), ("copysign.", Copysign),
        ("minnum.", FMin), ("maxnum.", FMax), ("sqrt.", FSqrt),
        ("is.constant", IsConst), ("threadlocal.address", Tls), ("x86.ssse3.pshuf.b", PshufB), ("x86.avx2.pshuf.b", PshufB),
        ("trap", Trap), ("debugtrap", Trap), ("x86.xgetbv", Zero), ("expect.", Expect), ("is.fpclass", Fptest),
        ("fptosi.sat", FpToSiSat), ("fptoui.sat", FpToUiSat),
    ];
    for (p, k) in tbl {
        if g.starts_with(p) {
            return Some(*k);
        }
    }
    None
}
