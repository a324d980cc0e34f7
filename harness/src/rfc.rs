//! A reference model of RFC 9535 (syntax, well-typedness, values), written from
//! the RFC's ABNF and tables.  It is the oracle of the harnesses.

#[derive(Debug, Clone, Copy, PartialEq)]
#[repr(u8)]
pub enum Ty {
    Logical,
    Nodes,
    Value,
}

pub struct Sig {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Ty,
}

pub fn standard() -> Vec<Sig> {
    let s = |n: &str, p: &[Ty], r| Sig { name: n.to_string(), params: p.to_vec(), ret: r };
    vec![
        s("length", &[Ty::Value], Ty::Value),
        s("count", &[Ty::Nodes], Ty::Value),
        s("match", &[Ty::Value, Ty::Value], Ty::Logical),
        s("search", &[Ty::Value, Ty::Value], Ty::Logical),
        s("value", &[Ty::Nodes], Ty::Value),
    ]
}

#[derive(Debug)]
pub struct Query {
    pub segs: Vec<Seg>,
}
#[derive(Debug)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}
#[derive(Debug)]
pub enum Sel {
    Name(Vec<u8>),
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Wild,
    Filter(Expr),
    /// the singular-selector crate's extension
    Singular(Query),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Cmp {
    Eq,
    Ne,
    Le,
    Ge,
    Lt,
    Gt,
}
#[derive(Debug)]
pub enum Num {
    Int(i64),
    Float(f64),
    Text(Vec<u8>),
}
#[derive(Debug)]
pub enum Expr {
    True,
    False,
    Null,
    Str(Vec<u8>),
    Num(Num),
    Not(Box<Expr>),
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    Cmp(Box<Expr>, Cmp, Box<Expr>),
    Rel(Query),
    Root(Query),
    Fn(Vec<u8>, Vec<Expr>),
}

// ------------------------------------------------------------------ parser

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    ext: bool,
    sigs: &'a [Sig],
    low_u: bool,
    /// tolerate blanks inside the brackets of singular queries
    lenient: bool,
}
type O<T> = Option<T>;

#[inline(never)]
fn class(b: u8) -> u8 {
    // 1 blank, 2 digit, 4 name-first, 8 lower-case, 16 hex digit
    CLASS[b as usize]
}
static CLASS: [u8; 256] = mk_class();
const fn mk_class() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        let b = i as u8;
        let mut c = 0;
        if b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d {
            c |= 1;
        }
        if b >= b'0' && b <= b'9' {
            c |= 2 | 16;
        }
        if (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || b == b'_' || b >= 0x80 {
            c |= 4;
        }
        if b >= b'a' && b <= b'z' {
            c |= 8;
        }
        if (b >= b'a' && b <= b'f') || (b >= b'A' && b <= b'F') {
            c |= 16;
        }
        t[i] = c;
        i += 1;
    }
    t
}
fn is(b: u8, m: u8) -> bool {
    class(b) & m != 0
}

pub fn parse(s: &str, ext: bool, sigs: &[Sig]) -> O<Query> {
    parse2(s, ext, sigs, false).0
}
/// The query, and whether a string literal spells a character below U+0020
/// as a `\u` escape (see known-findings.jsonl).
pub fn parse2(s: &str, ext: bool, sigs: &[Sig], lenient: bool) -> (O<Query>, bool) {
    let mut p = P { s: s.as_bytes(), i: 0, ext, sigs, low_u: false, lenient };
    let q = p.top();
    (q, p.low_u)
}

impl<'a> P<'a> {
    fn top(&mut self) -> O<Query> {
        let p = self;
        let ext = p.ext;
    let q = if p.eat(b'$') {
        p.segments(false)?
    } else if ext {
        // implicit root: a bracketed selection or a member name first
        let first = match p.peek()? {
            b'[' => Seg { desc: false, sels: p.bracketed()? },
            b if is(b, 4) => Seg { desc: false, sels: vec![Sel::Name(p.shorthand()?)] },
            _ => return None,
        };
        let mut q = p.segments(false)?;
        q.segs.insert(0, first);
        q
    } else {
        return None;
    };
    if p.i == p.s.len() {
        Some(q)
    } else {
        None
    }
    }

    fn peek(&self) -> O<u8> {
        self.s.get(self.i).copied()
    }
    fn at(&self, k: usize) -> O<u8> {
        self.s.get(self.i + k).copied()
    }
    fn eat(&mut self, b: u8) -> bool {
        if self.i < self.s.len() && self.s[self.i] == b {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, b: u8) -> O<()> {
        if self.eat(b) {
            Some(())
        } else {
            None
        }
    }
    fn lit(&mut self, t: &[u8]) -> bool {
        if self.s.len() - self.i < t.len() {
            return false;
        }
        for k in 0..t.len() {
            if self.s[self.i + k] != t[k] {
                return false;
            }
        }
        self.i += t.len();
        true
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && is(self.s[self.i], 1) {
            self.i += 1;
        }
    }

    /// `*(S segment)`; with `singular`, only name and index segments as the
    /// singular-query rules allow.  A trailing blank that no segment follows
    /// is left unread.
    fn segments(&mut self, singular: bool) -> O<Query> {
        let mut segs = vec![];
        loop {
            let save = self.i;
            self.ws();
            match self.peek() {
                Some(b'[') => {
                    if singular {
                        match self.singular_bracket() {
                            Some(s) => segs.push(s),
                            None => {
                                self.i = save;
                                break;
                            }
                        }
                    } else {
                        segs.push(Seg { desc: false, sels: self.bracketed()? })
                    }
                }
                Some(b'.') => {
                    self.i += 1;
                    if self.eat(b'.') {
                        if singular {
                            self.i = save;
                            break;
                        }
                        let sels = match self.peek()? {
                            b'[' => self.bracketed()?,
                            b'*' => {
                                self.i += 1;
                                vec![Sel::Wild]
                            }
                            _ => vec![Sel::Name(self.shorthand()?)],
                        };
                        segs.push(Seg { desc: true, sels });
                    } else if !singular && self.eat(b'*') {
                        segs.push(Seg { desc: false, sels: vec![Sel::Wild] });
                    } else {
                        match self.shorthand() {
                            Some(n) => segs.push(Seg { desc: false, sels: vec![Sel::Name(n)] }),
                            None if singular => {
                                self.i = save;
                                break;
                            }
                            None => return None,
                        }
                    }
                }
                _ => {
                    self.i = save;
                    break;
                }
            }
        }
        Some(Query { segs })
    }

    /// `"[" (name-selector / index-selector) "]"` without blanks.
    fn singular_bracket(&mut self) -> O<Seg> {
        self.need(b'[')?;
        if self.lenient {
            self.ws()
        }
        let sel = match self.peek()? {
            b'"' | b'\'' => Sel::Name(self.string()?),
            _ => Sel::Index(self.index_int()?),
        };
        if self.lenient {
            self.ws()
        }
        self.need(b']')?;
        Some(Seg { desc: false, sels: vec![sel] })
    }

    fn shorthand(&mut self) -> O<Vec<u8>> {
        let st = self.i;
        if !is(self.peek()?, 4) {
            return None;
        }
        while self.i < self.s.len() && is(self.s[self.i], 4 | 2) {
            self.i += 1;
        }
        Some(self.s[st..self.i].to_vec())
    }

    fn bracketed(&mut self) -> O<Vec<Sel>> {
        self.need(b'[')?;
        let mut v = vec![];
        loop {
            self.ws();
            v.push(self.selector()?);
            self.ws();
            if self.eat(b']') {
                return Some(v);
            }
            self.need(b',')?;
        }
    }

    fn selector(&mut self) -> O<Sel> {
        let b = self.peek()?;
        match b {
            b'"' | b'\'' => return Some(Sel::Name(self.string()?)),
            b'*' => {
                self.i += 1;
                return Some(Sel::Wild);
            }
            b'?' => {
                self.i += 1;
                self.ws();
                return Some(Sel::Filter(self.logical()?));
            }
            b'$' if self.ext => {
                self.i += 1;
                return Some(Sel::Singular(self.segments(true)?));
            }
            b'[' if self.ext => {
                let first = self.singular_bracket()?;
                let mut q = self.segments(true)?;
                q.segs.insert(0, first);
                return Some(Sel::Singular(q));
            }
            _ => {}
        }
        if self.ext && is(b, 4) {
            let first = Seg { desc: false, sels: vec![Sel::Name(self.shorthand()?)] };
            let mut q = self.segments(true)?;
            q.segs.insert(0, first);
            return Some(Sel::Singular(q));
        }
        // slice or index
        let start = if b == b':' { None } else { Some(self.index_int()?) };
        let save = self.i;
        self.ws();
        if !self.eat(b':') {
            self.i = save;
            return start.map(Sel::Index);
        }
        let mut save = self.i;
        self.ws();
        let mut stop = None;
        if self.int_ahead() {
            stop = Some(self.index_int()?);
            save = self.i;
            self.ws();
        }
        let mut step = None;
        if self.eat(b':') {
            save = self.i;
            self.ws();
            if self.int_ahead() {
                step = Some(self.index_int()?);
                save = self.i;
            }
        }
        self.i = save;
        Some(Sel::Slice(start, stop, step))
    }

    fn int_ahead(&self) -> bool {
        match self.peek() {
            Some(b) => b == b'-' || is(b, 2),
            None => false,
        }
    }

    /// `int = "0" / (["-"] DIGIT1 *DIGIT)`
    fn int_text(&mut self) -> O<(bool, usize, usize)> {
        if self.eat(b'0') {
            return Some((false, self.i - 1, self.i));
        }
        let neg = self.eat(b'-');
        let st = self.i;
        let b = self.peek()?;
        if !is(b, 2) || b == b'0' {
            return None;
        }
        while self.i < self.s.len() && is(self.s[self.i], 2) {
            self.i += 1;
        }
        Some((neg, st, self.i))
    }

    /// An int within the I-JSON range.
    fn index_int(&mut self) -> O<i64> {
        let (neg, a, b) = self.int_text()?;
        if b - a > 16 {
            return None;
        }
        let mut v: i64 = 0;
        for k in a..b {
            v = v * 10 + (self.s[k] - b'0') as i64;
        }
        if v > 9007199254740991 {
            return None;
        }
        Some(if neg { -v } else { v })
    }

    fn hex4(&mut self) -> O<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let b = self.peek()?;
            if !is(b, 16) {
                return None;
            }
            v = v << 4 | HEX[b as usize] as u32;
            self.i += 1;
        }
        Some(v)
    }

    fn string(&mut self) -> O<Vec<u8>> {
        let q = self.peek()?;
        self.i += 1;
        let mut out = vec![];
        loop {
            let b = self.peek()?;
            self.i += 1;
            if b == q {
                return Some(out);
            }
            if b < 0x20 {
                return None;
            }
            if b != b'\\' {
                out.push(b);
                continue;
            }
            let e = self.peek()?;
            self.i += 1;
            match e {
                b'b' => out.push(8),
                b'f' => out.push(12),
                b'n' => out.push(10),
                b'r' => out.push(13),
                b't' => out.push(9),
                b'/' | b'\\' => out.push(e),
                b'u' => {
                    let v = self.hex4()?;
                    if v & 0xf800 == 0xd800 {
                        if v & 0x0400 != 0 || !self.eat(b'\\') || !self.eat(b'u') {
                            return None;
                        }
                        let w = self.hex4()?;
                        if w & 0xfc00 != 0xdc00 {
                            return None;
                        }
                        utf8(0x10000 + ((v & 0x3ff) << 10 | (w & 0x3ff)), &mut out)
                    } else {
                        if v < 0x20 {
                            self.low_u = true
                        }
                        utf8(v, &mut out)
                    }
                }
                _ if e == q => out.push(q),
                _ => return None,
            }
        }
    }

    // ------------------------------------------------------------- filters

    fn logical(&mut self) -> O<Expr> {
        let mut l = self.and()?;
        loop {
            let save = self.i;
            self.ws();
            if !self.lit(b"||") {
                self.i = save;
                return Some(l);
            }
            self.ws();
            let r = self.and()?;
            l = Expr::Or(Box::new(l), Box::new(r));
        }
    }
    fn and(&mut self) -> O<Expr> {
        let mut l = self.basic()?;
        loop {
            let save = self.i;
            self.ws();
            if !self.lit(b"&&") {
                self.i = save;
                return Some(l);
            }
            self.ws();
            let r = self.basic()?;
            l = Expr::And(Box::new(l), Box::new(r));
        }
    }

    fn basic(&mut self) -> O<Expr> {
        let b = self.peek()?;
        if b == b'!' {
            self.i += 1;
            self.ws();
            if self.peek()? == b'(' {
                return Some(Expr::Not(Box::new(self.paren()?)));
            }
            let t = self.test()?;
            return Some(Expr::Not(Box::new(t)));
        }
        if b == b'(' {
            return self.paren();
        }
        // comparison-expr, else test-expr
        let save = self.i;
        if let Some(l) = self.comparable() {
            self.ws();
            if let Some(op) = self.cmp_op() {
                self.ws();
                let r = self.comparable()?;
                return Some(Expr::Cmp(Box::new(l), op, Box::new(r)));
            }
        }
        self.i = save;
        self.test()
    }
    fn paren(&mut self) -> O<Expr> {
        self.need(b'(')?;
        self.ws();
        let e = self.logical()?;
        self.ws();
        self.need(b')')?;
        Some(e)
    }
    /// `filter-query / function-expr`, the function not of ValueType
    fn test(&mut self) -> O<Expr> {
        match self.peek()? {
            b'@' => {
                self.i += 1;
                Some(Expr::Rel(self.segments(false)?))
            }
            b'$' => {
                self.i += 1;
                Some(Expr::Root(self.segments(false)?))
            }
            _ => {
                let (e, t) = self.function()?;
                if t == Ty::Value {
                    return None;
                }
                Some(e)
            }
        }
    }
    fn cmp_op(&mut self) -> O<Cmp> {
        let b = self.peek()?;
        let n = self.at(1) == Some(b'=');
        let (op, k) = match b {
            b'=' if n => (Cmp::Eq, 2),
            b'!' if n => (Cmp::Ne, 2),
            b'<' if n => (Cmp::Le, 2),
            b'>' if n => (Cmp::Ge, 2),
            b'<' => (Cmp::Lt, 1),
            b'>' => (Cmp::Gt, 1),
            _ => return None,
        };
        self.i += k;
        Some(op)
    }
    fn comparable(&mut self) -> O<Expr> {
        match self.peek()? {
            b'@' => {
                self.i += 1;
                Some(Expr::Rel(self.segments(true)?))
            }
            b'$' => {
                self.i += 1;
                Some(Expr::Root(self.segments(true)?))
            }
            _ => {
                if let Some(l) = self.literal()? {
                    return Some(l);
                }
                let (e, t) = self.function()?;
                if t != Ty::Value {
                    return None;
                }
                Some(e)
            }
        }
    }
    /// `Some(None)`: not a literal; `None`: a malformed one
    fn literal(&mut self) -> O<O<Expr>> {
        let b = self.peek()?;
        if b == b'"' || b == b'\'' {
            return Some(Some(Expr::Str(self.string()?)));
        }
        if b == b'-' || is(b, 2) {
            return Some(Some(self.number()?));
        }
        for (t, k) in [(&b"true"[..], 0), (&b"false"[..], 1), (&b"null"[..], 2)] {
            let save = self.i;
            if self.lit(t) {
                // a longer function name is not a literal
                match self.peek() {
                    Some(c) if c == b'(' || is(c, 8 | 2) || c == b'_' => {
                        self.i = save;
                        return Some(None);
                    }
                    _ => {}
                }
                return Some(Some(match k {
                    0 => Expr::True,
                    1 => Expr::False,
                    _ => Expr::Null,
                }));
            }
        }
        Some(None)
    }
    fn number(&mut self) -> O<Expr> {
        let st = self.i;
        if !self.lit(b"-0") {
            self.int_text()?;
        } else if let Some(c) = self.peek() {
            if is(c, 2) {
                return None;
            }
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            if !is(self.peek()?, 2) {
                return None;
            }
            while self.i < self.s.len() && is(self.s[self.i], 2) {
                self.i += 1;
            }
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek()?, b'+' | b'-') {
                self.i += 1;
            }
            if !is(self.peek()?, 2) {
                return None;
            }
            while self.i < self.s.len() && is(self.s[self.i], 2) {
                self.i += 1;
            }
        }
        Some(Expr::Num(Num::Text(self.s[st..self.i].to_vec())))
    }

    /// A function call and its result type; `None` when ill-typed.
    fn function(&mut self) -> O<(Expr, Ty)> {
        let st = self.i;
        if !is(self.peek()?, 8) {
            return None;
        }
        while self.i < self.s.len() && (is(self.s[self.i], 8 | 2) || self.s[self.i] == b'_') {
            self.i += 1;
        }
        let name = self.s[st..self.i].to_vec();
        self.need(b'(')?;
        let sigs = self.sigs;
        let sig = sigs.iter().find(|s| s.name.as_bytes() == &name[..])?;
        self.ws();
        let mut args = vec![];
        if self.peek()? != b')' {
            loop {
                if args.len() >= sig.params.len() {
                    return None;
                }
                args.push(self.argument(sig.params[args.len()])?);
                self.ws();
                if self.peek()? != b',' {
                    break;
                }
                self.i += 1;
                self.ws();
            }
        }
        self.need(b')')?;
        if args.len() != sig.params.len() {
            return None;
        }
        Some((Expr::Fn(name, args), sig.ret))
    }

    /// Does an argument end here (after optional blanks)?
    fn arg_end(&self) -> bool {
        let mut k = self.i;
        while k < self.s.len() && is(self.s[k], 1) {
            k += 1;
        }
        k < self.s.len() && (self.s[k] == b',' || self.s[k] == b')')
    }

    /// An argument for a parameter of type `t` (RFC 9535 section 2.4.3).
    fn argument(&mut self, t: Ty) -> O<Expr> {
        let save = self.i;
        match t {
            Ty::Value => {
                // a literal, a singular query, or a function of ValueType
                let e = self.comparable()?;
                if self.arg_end() {
                    Some(e)
                } else {
                    None
                }
            }
            Ty::Nodes => {
                // a filter query, or a function of NodesType
                let e = match self.peek()? {
                    b'@' | b'$' => self.test()?,
                    _ => {
                        let (e, r) = self.function()?;
                        if r != Ty::Nodes {
                            return None;
                        }
                        e
                    }
                };
                if self.arg_end() {
                    Some(e)
                } else {
                    None
                }
            }
            Ty::Logical => {
                // a logical expression; tests of queries, of LogicalType and
                // of NodesType functions are logical expressions
                self.i = save;
                let e = self.logical()?;
                if self.arg_end() {
                    Some(e)
                } else {
                    None
                }
            }
        }
    }
}

static HEX: [u8; 256] = {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 10 {
        t[b'0' as usize + i] = i as u8;
        i += 1;
    }
    let mut i = 0;
    while i < 6 {
        t[b'a' as usize + i] = 10 + i as u8;
        t[b'A' as usize + i] = 10 + i as u8;
        i += 1;
    }
    t
};

pub fn utf8(c: u32, out: &mut Vec<u8>) {
    if c < 0x80 {
        out.push(c as u8);
    } else if c < 0x800 {
        out.push(0xc0 | (c >> 6) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else if c < 0x10000 {
        out.push(0xe0 | (c >> 12) as u8);
        out.push(0x80 | (c >> 6 & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else {
        out.push(0xf0 | (c >> 18) as u8);
        out.push(0x80 | (c >> 12 & 0x3f) as u8);
        out.push(0x80 | (c >> 6 & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    }
}

// -------------------------------------------------------------- comparison

/// The value of a number literal as the nearest double.
pub fn num_f64(n: &Num) -> f64 {
    match n {
        Num::Int(i) => *i as f64,
        Num::Float(f) => *f,
        Num::Text(t) => unsafe { std::str::from_utf8_unchecked(t) }.parse::<f64>().unwrap_or(f64::NAN),
    }
}
/// An integer literal of at most 15 digits, exactly.
pub fn num_int(n: &Num) -> Option<i64> {
    match n {
        Num::Int(i) => Some(*i),
        Num::Float(_) => None,
        Num::Text(t) => {
            let (neg, d) = if t[0] == b'-' { (true, &t[1..]) } else { (false, &t[..]) };
            if d.len() > 18 || d.is_empty() {
                return None;
            }
            let mut v = 0i64;
            for &b in d {
                if !is(b, 2) {
                    return None;
                }
                v = v * 10 + (b - b'0') as i64;
            }
            Some(if neg { -v } else { v })
        }
    }
}

pub fn same_num(a: &Num, b: &Num) -> bool {
    if let (Some(x), Some(y)) = (num_int(a), num_int(b)) {
        return x == y || (x.unsigned_abs() > 1 << 53 && x as f64 == y as f64);
    }
    num_f64(a) == num_f64(b)
}

/// The first difference between two queries, if any.
pub fn diff(a: &Query, b: &Query) -> Option<&'static str> {
    if a.segs.len() != b.segs.len() {
        return Some("different number of segments");
    }
    for (x, y) in a.segs.iter().zip(b.segs.iter()) {
        if x.desc != y.desc {
            return Some("child and descendant segment confused");
        }
        if x.sels.len() != y.sels.len() {
            return Some("different number of selectors");
        }
        for (s, t) in x.sels.iter().zip(y.sels.iter()) {
            let d = match (s, t) {
                (Sel::Name(m), Sel::Name(n)) => {
                    if m[..] != n[..] {
                        Some("different member name")
                    } else {
                        None
                    }
                }
                (Sel::Index(m), Sel::Index(n)) => {
                    if m != n {
                        Some("different index")
                    } else {
                        None
                    }
                }
                (Sel::Slice(a, b, c), Sel::Slice(d, e, f)) => {
                    if a != d || b != e || c.unwrap_or(1) != f.unwrap_or(1) {
                        Some("different slice bounds")
                    } else {
                        None
                    }
                }
                (Sel::Wild, Sel::Wild) => None,
                (Sel::Filter(e), Sel::Filter(f)) => diff_expr(e, f),
                (Sel::Singular(q), Sel::Singular(r)) => diff(q, r),
                _ => Some("different kind of selector"),
            };
            if d.is_some() {
                return d;
            }
        }
    }
    None
}
pub fn diff_expr(a: &Expr, b: &Expr) -> Option<&'static str> {
    use Expr::*;
    match (a, b) {
        (True, True) | (False, False) | (Null, Null) => None,
        (Str(x), Str(y)) => {
            if x[..] != y[..] {
                Some("different string literal")
            } else {
                None
            }
        }
        (Num(x), Num(y)) => {
            if same_num(x, y) {
                None
            } else {
                Some("different number literal")
            }
        }
        (Not(x), Not(y)) => diff_expr(x, y),
        (And(..), And(..)) | (Or(..), Or(..)) => {
            // both connectives are associative: only the operands count
            let (mut p, mut q) = (vec![], vec![]);
            let and = matches!(a, And(..));
            flatten(a, and, &mut p);
            flatten(b, and, &mut q);
            if p.len() != q.len() {
                return Some("different number of operands");
            }
            for (x, y) in p.iter().zip(q.iter()) {
                let d = diff_expr(x, y);
                if d.is_some() {
                    return d;
                }
            }
            None
        }
        (Cmp(x, o, y), Cmp(u, p, v)) => {
            if o != p {
                return Some("different comparison operator");
            }
            diff_expr(x, u).or_else(|| diff_expr(y, v))
        }
        (Rel(x), Rel(y)) | (Root(x), Root(y)) => diff(x, y),
        (Fn(n, x), Fn(m, y)) => {
            if n[..] != m[..] || x.len() != y.len() {
                return Some("different function call");
            }
            for (p, q) in x.iter().zip(y.iter()) {
                let d = diff_expr(p, q);
                if d.is_some() {
                    return d;
                }
            }
            None
        }
        _ => Some("different expression structure"),
    }
}

fn flatten<'e>(e: &'e Expr, and: bool, out: &mut Vec<&'e Expr>) {
    match e {
        Expr::And(l, r) if and => {
            flatten(l, and, out);
            flatten(r, and, out)
        }
        Expr::Or(l, r) if !and => {
            flatten(l, and, out);
            flatten(r, and, out)
        }
        _ => out.push(e),
    }
}

/// Does a string literal of the query hold a quote, a backslash or a control
/// character (see known-findings.jsonl)?
pub fn awkward_literal(q: &Query) -> bool {
    q.segs.iter().any(|s| {
        s.sels.iter().any(|s| match s {
            Sel::Filter(e) => awkward(e),
            Sel::Singular(q) => awkward_literal(q),
            _ => false,
        })
    })
}
fn awkward(e: &Expr) -> bool {
    match e {
        Expr::Str(s) => s.iter().any(|&b| b < 0x20 || b == b'"' || b == b'\'' || b == b'\\'),
        Expr::Not(x) => awkward(x),
        Expr::And(x, y) | Expr::Or(x, y) | Expr::Cmp(x, _, y) => awkward(x) || awkward(y),
        Expr::Rel(q) | Expr::Root(q) => awkward_literal(q),
        Expr::Fn(_, v) => v.iter().any(awkward),
        _ => false,
    }
}
