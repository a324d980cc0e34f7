//! A reference implementation of I-Regexp (RFC 9485): a parser and a matcher
//! that follows the set of reachable positions.  `^` at the start and `$` at
//! the end of a pattern are anchors, as the JSONPath compliance tests have it.

pub enum Re {
    Empty,
    Set(bool, Vec<Item>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Start,
    End,
}
pub enum Item {
    Range(u32, u32),
    Any,
    Cat(bool, Vec<u8>),
}

struct P {
    c: Vec<u32>,
    i: usize,
}

/// The code points of well-formed UTF-8.
#[inline(never)]
pub fn decode(s: &[u8]) -> Vec<u32> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        let b = s[i] as u32;
        let t = |k: usize| s[i + k] as u32 & 0x3f;
        if b < 0x80 {
            o.push(b);
            i += 1
        } else if b < 0xe0 {
            o.push((b & 0x1f) << 6 | t(1));
            i += 2
        } else if b < 0xf0 {
            o.push((b & 0x0f) << 12 | t(1) << 6 | t(2));
            i += 3
        } else {
            o.push((b & 7) << 18 | t(1) << 12 | t(2) << 6 | t(3));
            i += 4
        }
    }
    o
}

#[inline(never)]
pub fn parse(s: &[u8]) -> Option<Re> {
    let mut p = P { c: decode(s), i: 0 };
    let r = p.alt()?;
    if p.i == p.c.len() {
        Some(r)
    } else {
        None
    }
}

fn ch(b: u8) -> u32 {
    b as u32
}

impl P {
    fn peek(&self) -> Option<u32> {
        self.c.get(self.i).copied()
    }
    fn eat(&mut self, b: u8) -> bool {
        if self.peek() == Some(ch(b)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.branch()?];
        while self.eat(b'|') {
            v.push(self.branch()?)
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn branch(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == ch(b'|') || c == ch(b')') {
                break;
            }
            v.push(self.piece()?)
        }
        Some(if v.is_empty() { Re::Empty } else { Re::Cat(v) })
    }
    fn piece(&mut self) -> Option<Re> {
        let a = self.atom()?;
        if self.eat(b'*') {
            return Some(Re::Rep(Box::new(a), 0, None));
        }
        if self.eat(b'+') {
            return Some(Re::Rep(Box::new(a), 1, None));
        }
        if self.eat(b'?') {
            return Some(Re::Rep(Box::new(a), 0, Some(1)));
        }
        if self.eat(b'{') {
            let lo = self.number()?;
            let hi = if self.eat(b',') {
                if self.peek() == Some(ch(b'}')) {
                    None
                } else {
                    Some(self.number()?)
                }
            } else {
                Some(lo)
            };
            if !self.eat(b'}') {
                return None;
            }
            if let Some(h) = hi {
                if h < lo {
                    return None;
                }
            }
            return Some(Re::Rep(Box::new(a), lo, hi));
        }
        Some(a)
    }
    fn number(&mut self) -> Option<u32> {
        let st = self.i;
        let mut v = 0u32;
        while let Some(c) = self.peek() {
            if c < 48 || c > 57 || self.i - st > 4 {
                break;
            }
            v = v * 10 + (c - 48);
            self.i += 1
        }
        if self.i == st {
            None
        } else {
            Some(v)
        }
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        self.i += 1;
        let one = |c: u32| Some(Re::Set(false, vec![Item::Range(c, c)]));
        if c == ch(b'(') {
            let r = self.alt()?;
            return if self.eat(b')') { Some(r) } else { None };
        }
        if c == ch(b'.') {
            return Some(Re::Set(false, vec![Item::Any]));
        }
        if c == ch(b'[') {
            return self.class();
        }
        if c == ch(b'\\') {
            return match self.escape()? {
                Item::Range(a, _) => one(a),
                x => Some(Re::Set(false, vec![x])),
            };
        }
        if c == ch(b'^') {
            return Some(Re::Start);
        }
        if c == ch(b'$') {
            return Some(Re::End);
        }
        if c == ch(b'*') || c == ch(b'+') || c == ch(b'?') || c == ch(b')') || c == ch(b']') || c == ch(b'{') || c == ch(b'}') || c == ch(b'|') {
            return None;
        }
        one(c)
    }
    fn escape(&mut self) -> Option<Item> {
        let c = self.peek()?;
        self.i += 1;
        let one = |c: u32| Some(Item::Range(c, c));
        if c > 0x7e {
            return None;
        }
        match c as u8 {
            b'n' => one(10),
            b'r' => one(13),
            b't' => one(9),
            b'(' | b')' | b'*' | b'+' | b'-' | b'.' | b'?' | b'[' | b'\\' | b']' | b'^' | b'{' | b'|' | b'}' => one(c),
            b'p' | b'P' => {
                if !self.eat(b'{') {
                    return None;
                }
                let mut n = vec![];
                while let Some(x) = self.peek() {
                    if x == ch(b'}') {
                        break;
                    }
                    if x > 0x7e {
                        return None;
                    }
                    n.push(x as u8);
                    self.i += 1
                }
                if !self.eat(b'}') || !category_name(&n) {
                    return None;
                }
                Some(Item::Cat(c == ch(b'P'), n))
            }
            _ => None,
        }
    }
    fn class(&mut self) -> Option<Re> {
        let neg = self.eat(b'^');
        let mut v = vec![];
        if self.eat(b'-') {
            v.push(Item::Range(45, 45))
        } else {
            let x = self.cce1()?;
            v.push(x)
        }
        loop {
            if self.eat(b']') {
                return Some(Re::Set(neg, v));
            }
            if self.peek()? == 45 {
                self.i += 1;
                v.push(Item::Range(45, 45));
                return if self.eat(b']') { Some(Re::Set(neg, v)) } else { None };
            }
            let x = self.cce1()?;
            v.push(x)
        }
    }
    fn ccchar(&mut self) -> Option<Item> {
        let c = self.peek()?;
        self.i += 1;
        if c == ch(b'\\') {
            return self.escape();
        }
        if c == 45 || c == ch(b'[') || c == ch(b']') {
            return None;
        }
        Some(Item::Range(c, c))
    }
    fn cce1(&mut self) -> Option<Item> {
        let a = self.ccchar()?;
        let Item::Range(lo, _) = a else { return Some(a) };
        if self.peek() == Some(45) && self.c.get(self.i + 1).copied() != Some(ch(b']')) {
            self.i += 1;
            let Item::Range(hi, _) = self.ccchar()? else { return None };
            if hi < lo {
                return None;
            }
            return Some(Item::Range(lo, hi));
        }
        Some(a)
    }
}

fn category_name(n: &[u8]) -> bool {
    let subs: &[u8] = match n.first() {
        Some(b'L') => b"lmotu",
        Some(b'M') => b"cen",
        Some(b'N') => b"dlo",
        Some(b'P') => b"cdefios",
        Some(b'Z') => b"lps",
        Some(b'S') => b"ckmo",
        Some(b'C') => b"cfno",
        _ => return false,
    };
    n.len() == 1 || n.len() == 2 && subs.contains(&n[1])
}

/// General categories of the ASCII characters; the harnesses use no others
/// with \p and \P.
fn category(c: u32) -> [u8; 2] {
    *match c {
        0..=31 | 127 => b"Cc",
        32 => b"Zs",
        36 => b"Sc",
        43 | 60 | 61 | 62 | 124 | 126 => b"Sm",
        40 | 91 | 123 => b"Ps",
        41 | 93 | 125 => b"Pe",
        45 => b"Pd",
        95 => b"Pc",
        94 | 96 => b"Sk",
        48..=57 => b"Nd",
        65..=90 => b"Lu",
        97..=122 => b"Ll",
        _ => b"Po",
    }
}

fn has(neg: bool, items: &[Item], c: u32) -> bool {
    let mut r = false;
    for it in items {
        r |= match it {
            Item::Range(a, b) => (*a <= c) & (c <= *b),
            Item::Any => (c != 10) & (c != 13),
            Item::Cat(n, name) => {
                let g = category(c);
                let m = g[0] == name[0] && (name.len() == 1 || g[1] == name[1]);
                m != *n
            }
        }
    }
    r != neg
}

/// Does the whole text, or some substring, match?
#[inline(never)]
pub fn matches(re: &Re, s: &[u8], whole: bool) -> bool {
    let t = decode(s);
    let mut from = vec![!whole; t.len() + 1];
    from[0] = true;
    let to = run(re, &t, from);
    if whole {
        to[t.len()]
    } else {
        to.contains(&true)
    }
}

/// The positions reachable from `from` through `re`.
fn run(re: &Re, t: &[u32], from: Vec<bool>) -> Vec<bool> {
    let n = t.len();
    match re {
        Re::Empty => from,
        Re::Set(neg, items) => {
            let mut o = vec![false; n + 1];
            for i in 0..n {
                if from[i] {
                    o[i + 1] = has(*neg, items, t[i])
                }
            }
            o
        }
        Re::Cat(v) => {
            let mut f = from;
            for x in v {
                f = run(x, t, f)
            }
            f
        }
        Re::Alt(v) => {
            let mut o = vec![false; n + 1];
            for x in v {
                let r = run(x, t, from.clone());
                for i in 0..=n {
                    o[i] |= r[i]
                }
            }
            o
        }
        Re::Rep(x, lo, hi) => {
            let mut f = from;
            for _ in 0..*lo {
                f = run(x, t, f)
            }
            let mut o = f.clone();
            let more = match hi {
                Some(h) => (*h - *lo) as usize,
                // every round that adds a position moves on
                None => n + 1,
            };
            for _ in 0..more {
                f = run(x, t, f);
                let mut new = false;
                for i in 0..=n {
                    if f[i] && !o[i] {
                        new = true;
                        o[i] = true
                    }
                }
                if !new {
                    break;
                }
            }
            o
        }
        Re::Start => {
            let mut o = vec![false; n + 1];
            o[0] = from[0];
            o
        }
        Re::End => {
            let mut o = vec![false; n + 1];
            o[n] = from[n];
            o
        }
    }
}
