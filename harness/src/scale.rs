//! Bigger and stranger documents and queries than those of evalh.rs: deep,
//! wide, long, with every position of interest symbolic.
use crate::eval;
use crate::evalh::*;
use crate::mk::{self, Envs};
use crate::rfc::{Cmp, Expr, Num, Query, Seg, Sel};
use crate::vs;
use serde_json::Value;

fn n() -> Value {
    Value::Null
}
fn kv(k: &str, v: Value) -> (String, Value) {
    (k.to_string(), v)
}
fn s(t: &str) -> Value {
    Value::String(t.to_string())
}
fn desc(sels: Vec<Sel>) -> Seg {
    Seg { desc: true, sels }
}
fn at(segs: Vec<Seg>) -> Expr {
    Expr::Rel(q(segs))
}
fn root(segs: Vec<Seg>) -> Expr {
    Expr::Root(q(segs))
}
fn cmp(l: Expr, o: Cmp, r: Expr) -> Expr {
    Expr::Cmp(Box::new(l), o, Box::new(r))
}
fn lit(i: i64) -> Expr {
    Expr::Num(Num::Int(i))
}
/// One of `lo..=hi`, or absent.
fn small(lo: i64, hi: i64) -> Option<i64> {
    if vs::choose(2) == 0 {
        return None;
    }
    Some(vs::choose((hi - lo + 1) as usize) as i64 + lo)
}
fn one_of(v: &[i64]) -> i64 {
    v[vs::choose(v.len())]
}
/// A name of one letter out of three.
fn abc() -> Sel {
    Sel::Name(vec![vs::byte(b'a', b'c')])
}

// ------------------------------------------------------------------ documents

fn leaves(k: usize) -> Value {
    match k {
        0 => arr(vec![int(1), int(2)]),
        1 => arr(vec![int(3)]),
        2 => arr(vec![]),
        3 => obj(vec![]),
        4 => obj(vec![kv("a", int(4))]),
        5 => s("a"),
        _ => n(),
    }
}
pub const DOCS: usize = 10;
pub fn big_doc(k: usize) -> Value {
    match k {
        // eight levels
        0 => {
            let mut v = n();
            for i in 0..8 {
                v = if i % 2 == 0 { arr(vec![v]) } else { obj(vec![kv("a", v)]) }
            }
            v
        }
        // arrays of arrays of primitive values
        1 => arr(vec![leaves(0), leaves(1), leaves(2), arr(vec![leaves(0), leaves(1)]), obj(vec![kv("a", leaves(0)), kv("b", arr(vec![leaves(4), leaves(0)]))])]),
        // many members
        2 => {
            let mut m: Vec<(String, Value)> = (0..12).map(|i| (format!("k{i}"), leaves(i % 7))).collect();
            m.push(kv("b", leaves(4)));
            m.push(kv("a", leaves(0)));
            obj(m)
        }
        // many elements
        3 => arr((0..13).map(|i| leaves(i % 7)).collect()),
        4 => arr((0..3).map(|_| arr((0..3).map(|_| arr((0..3).map(int).collect())).collect())).collect()),
        5 => obj(vec![
            kv("a", obj(vec![kv("b", obj(vec![kv("a", obj(vec![kv("b", obj(vec![kv("a", int(1))]))]))]))])),
            kv("b", arr(vec![obj(vec![kv("a", int(1))]), obj(vec![kv("b", int(2))]), obj(vec![kv("a", obj(vec![kv("a", int(3))]))])])),
        ]),
        6 => arr(vec![
            obj(vec![kv("a", int(1)), kv("b", int(2))]),
            obj(vec![kv("a", arr(vec![int(1), int(2), int(3)])), kv("c", obj(vec![kv("a", n())]))]),
            arr(vec![arr(vec![]), obj(vec![])]),
            s("a"),
            int(0),
            Value::Bool(false),
        ]),
        // names that look like something else
        7 => obj(vec![
            kv("", obj(vec![kv("", arr(vec![obj(vec![kv("", int(1))])]))])),
            kv("0", arr(vec![int(1), int(2)])),
            kv("-1", obj(vec![kv("0", n()), kv("a", n())])),
            kv("*", int(1)),
            kv("a.b", leaves(4)),
            kv("$", n()),
        ]),
        8 => arr(vec![n(), arr(vec![n(), arr(vec![n(), arr(vec![n(), arr(vec![n(), n()])])])]), obj(vec![kv("c", arr(vec![obj(vec![kv("c", arr(vec![obj(vec![kv("c", n())])]))])]))])]),
        // the same value twice
        _ => {
            let x = || obj(vec![kv("a", int(1)), kv("b", arr(vec![int(1), obj(vec![kv("a", int(1))])]))]);
            arr(vec![x(), x(), arr(vec![x(), x()]), obj(vec![kv("a", x()), kv("b", x())])])
        }
    }
}

pub const QUERIES: usize = 30;
pub fn big_query(k: usize) -> Query {
    let w = || Sel::Wild;
    let f = |e: Expr| Sel::Filter(e);
    let i = |k: i64| Sel::Index(k);
    q(match k {
        0 => vec![desc(vec![f(at(vec![]))])],
        1 => vec![desc(vec![abc()])],
        2 => vec![desc(vec![abc(), w(), abc()])],
        3 => vec![desc(vec![w()]), desc(vec![i(0)])],
        4 => vec![child(vec![w()]), child(vec![w()]), child(vec![w()]), child(vec![w()])],
        5 => vec![desc(vec![f(at(vec![child(vec![name(b"a")])]))]), desc(vec![name(b"b")])],
        6 => vec![desc(vec![i(0), i(-1), i(1)])],
        7 => vec![child(vec![abc()]), child(vec![abc()]), child(vec![abc()]), child(vec![abc()])],
        8 => vec![desc(vec![f(at(vec![child(vec![i(0)])]))]), child(vec![w()])],
        9 => vec![desc(vec![f(at(vec![desc(vec![name(b"a")])]))])],
        10 => vec![child(vec![w(), w(), w()]), child(vec![i(0), i(0)])],
        11 => vec![desc(vec![abc()]), desc(vec![abc()]), desc(vec![w()])],
        12 => vec![desc(vec![f(cmp(at(vec![]), Cmp::Gt, lit(1)))])],
        13 => vec![desc(vec![f(cmp(func(b"count", vec![at(vec![child(vec![w()])])]), Cmp::Gt, lit(1)))]), child(vec![w()])],
        14 => vec![desc(vec![f(cmp(at(vec![child(vec![name(b"a")])]), Cmp::Eq, lit(1)))])],
        15 => vec![child(vec![Sel::Slice(Some(0), Some(3), None)]), child(vec![Sel::Slice(None, None, Some(-1))]), child(vec![w()])],
        16 => vec![child(vec![abc(), abc(), i(0), i(1), w(), i(-1), abc(), Sel::Slice(Some(1), None, Some(2))])],
        17 => vec![desc(vec![f(at(vec![])), w()])],
        18 => vec![desc(vec![f(Expr::Not(Box::new(at(vec![child(vec![w()])]))))])],
        19 => vec![child(vec![w()]), child(vec![f(at(vec![child(vec![w()])]))]), child(vec![f(at(vec![]))])],
        20 => vec![child(vec![name(b"")]), child(vec![name(b"")]), child(vec![i(0)]), child(vec![name(b"")])],
        21 => vec![desc(vec![name(b""), name(b"0"), name(b"-1"), name(b"*"), name(b"a.b"), name(b"$")])],
        22 => vec![child(vec![i(0)]), child(vec![name(b"a")]), child(vec![i(0)]), child(vec![name(b"a")]), child(vec![i(0)]), child(vec![name(b"a")]), child(vec![i(0)])],
        23 => vec![desc(vec![f(cmp(at(vec![child(vec![i(0)])]), Cmp::Eq, at(vec![child(vec![i(1)])])))])],
        24 => vec![desc(vec![f(cmp(func(b"length", vec![at(vec![])]), Cmp::Ge, lit(2)))])],
        25 => vec![child(vec![i(1)]), child(vec![i(1)]), child(vec![i(1)]), child(vec![i(1)]), child(vec![w()])],
        26 => vec![desc(vec![i(1)]), desc(vec![i(0)])],
        27 => vec![desc(vec![w(), w()])],
        28 => vec![desc(vec![Sel::Slice(Some(1), Some(3), None), name(b"a")])],
        _ => vec![desc(vec![f(cmp(at(vec![]), Cmp::Eq, root(vec![child(vec![i(0)])])))])],
    })
}

// ------------------------------------------------------------------ generators

/// Kinds of `case`.
pub const ARRAYS: u64 = 0;
pub const TREES: u64 = 1;
pub const SLICES: u64 = 2;
pub const STRINGS: u64 = 3;
pub const VALUES: u64 = 4;
pub const CHAINS: u64 = 5;
pub const SCOPES: u64 = 6;
pub const LENGTHS: u64 = 7;
pub const NAMES: u64 = 8;
pub const INDICES: u64 = 9;

#[inline(never)]
pub fn case(kind: u64) -> (Value, Query) {
    match kind {
        ARRAYS => arrays(),
        TREES => (big_doc(vs::choose(DOCS)), big_query(vs::choose(QUERIES))),
        SLICES => {
            let doc = big_doc([1, 3, 4, 8][vs::choose(4)]);
            let sel = Sel::Slice(small(-3, 3), small(-3, 3), small(-3, 3));
            (doc, q(vec![Seg { desc: vs::choose(2) == 1, sels: vec![sel] }]))
        }
        STRINGS => strings(),
        VALUES => values(),
        CHAINS => chains(),
        SCOPES => scopes(),
        LENGTHS => lengths(),
        NAMES => names(),
        _ => indices(),
    }
}

/// Indices and slices of longer arrays.
fn arrays() -> (Value, Query) {
    let len = [5, 9, 16, 40][vs::choose(4)];
    let l = len as i64;
    let doc = arr((0..len).map(|_| n()).collect());
    let edges = [0, 1, 2, -1, -2, l / 2, l - 1, l, l + 1, -l, 1 - l, -l - 1, i64::MAX >> 10, -(i64::MAX >> 10)];
    let edge = || {
        let k = vs::choose(edges.len() + 1);
        if k == edges.len() {
            None
        } else {
            Some(edges[k])
        }
    };
    let sel = match vs::choose(if len < 10 { 6 } else { 3 }) {
        0 => Sel::Index(i53()),
        1 => Sel::Slice(None, None, edge()),
        2 => Sel::Slice(edge(), edge(), [None, Some(1), Some(-1), Some(2), Some(-3), Some(7), Some(-l)][vs::choose(7)]),
        3 => Sel::Slice(Some(i53()), None, Some(one_of(&[1, -1, -4]))),
        4 => Sel::Slice(None, Some(i53()), Some(one_of(&[2, -1]))),
        _ => Sel::Slice(Some(one_of(&[2, -3])), Some(one_of(&[3, -2, 9])), Some(i53())),
    };
    if vs::choose(2) == 0 {
        (doc, q(vec![child(vec![sel])]))
    } else {
        (obj(vec![kv("a", n()), kv("b", doc)]), q(vec![desc(vec![sel])]))
    }
}

fn text(prefix: usize, t: &[u8]) -> String {
    let mut o: Vec<u8> = match prefix {
        0 => vec![],
        1 => b"prefixed-".to_vec(),
        2 => "\u{e9}\u{e9}\u{263a}".as_bytes().to_vec(),
        _ => vec![b'x'; 40],
    };
    o.extend_from_slice(&chars(t));
    vs::string(o)
}

/// Comparisons of strings with a common beginning.
fn strings() -> (Value, Query) {
    let p = vs::choose(4);
    let (l, r) = match vs::choose(if p < 2 { 5 } else { 2 }) {
        0 => (text(p, b"\x01"), text(p, b"\x01")),
        1 => (text(p, b"\x01"), text(p, b"")),
        2 => (text(p, b""), text(p, b"\x01")),
        3 => (text(p, b"\x07x"), text(p, b"\x07")),
        _ => (text(p, b"\x07"), text(p, b"\x07x")),
    };
    let (l, r) = (Value::String(l), Value::String(r));
    let (l, r) = match vs::choose(3) {
        0 => (l, r),
        1 => (arr(vec![int(0), l]), arr(vec![int(0), r])),
        _ => (obj(vec![kv("k", l)]), obj(vec![kv("k", r)])),
    };
    pair(l, r)
}
fn pair(l: Value, r: Value) -> (Value, Query) {
    let doc = arr(vec![obj(vec![kv("a", l), kv("b", r)])]);
    (doc, filter(cmp(rel(&[b"a"]), any_op(), rel(&[b"b"]))))
}

/// Comparisons of bigger arrays and objects that differ in one place.
fn values() -> (Value, Query) {
    let x = || match vs::choose(4) {
        0 => int(i53()),
        1 => dbl(double()),
        2 => n(),
        _ => Value::String(key(b"\x02")),
    };
    let fix = |i: usize| match i % 5 {
        0 => int(i as i64),
        1 => dbl(0.5),
        2 => s("s"),
        3 => n(),
        _ => Value::Bool(true),
    };
    let list = |len: usize, p: usize, v: Value| {
        let mut a: Vec<Value> = (0..len).map(fix).collect();
        if p < len {
            a[p] = v
        }
        arr(a)
    };
    let record = |len: usize, from: usize, p: usize, v: Value, k: &str| {
        // the order of insertion differs
        let mut m: Vec<(String, Value)> = (0..len).map(|i| (i + from) % len).filter(|&i| i != p).map(|i| (format!("m{i}"), fix(i))).collect();
        m.push((k.to_string(), v));
        obj(m)
    };
    match vs::choose(6) {
        0 => {
            let len = [5, 12][vs::choose(2)];
            let p = [0, len / 2, len - 1, len][vs::choose(4)];
            pair(list(len, p, x()), list(len, p, x()))
        }
        1 => pair(list(9, 3, x()), list(if vs::choose(2) == 0 { 8 } else { 10 }, 3, x())),
        2 => {
            let p = [0, 3, 6][vs::choose(3)];
            pair(record(7, 0, p, x(), "m"), record(7, 4, p, x(), "m"))
        }
        3 => {
            let k = vs::string(vec![b'm', vs::byte(b'0', b'9')]);
            let l = vs::string(vec![b'm', vs::byte(b'0', b'9')]);
            pair(record(7, 0, 9, int(1), &k), record(7, 2, 9, int(1), &l))
        }
        4 => {
            // deep
            let deep = |v: Value| {
                let mut v = v;
                for i in 0..6 {
                    v = if i % 2 == 0 { arr(vec![int(1), v]) } else { obj(vec![kv("a", int(2)), kv("b", v)]) }
                }
                v
            };
            pair(deep(x()), deep(x()))
        }
        _ => {
            // of another kind, or another number of levels
            let small = |k: usize| match k {
                0 => arr(vec![]),
                1 => obj(vec![]),
                2 => arr(vec![arr(vec![])]),
                3 => arr(vec![obj(vec![])]),
                4 => obj(vec![kv("a", arr(vec![]))]),
                5 => obj(vec![kv("a", obj(vec![]))]),
                6 => obj(vec![kv("b", obj(vec![]))]),
                7 => obj(vec![kv("a", n())]),
                8 => obj(vec![kv("b", n())]),
                9 => arr(vec![n()]),
                10 => arr(vec![n(), n()]),
                11 => arr(vec![Value::Bool(false)]),
                12 => arr(vec![int(0)]),
                13 => arr(vec![s("")]),
                14 => obj(vec![kv("a", n()), kv("b", n())]),
                _ => s(""),
            };
            pair(small(vs::choose(16)), small(vs::choose(16)))
        }
    }
}

/// Long conjunctions and disjunctions.
fn chains() -> (Value, Query) {
    let a = |i: usize| Expr::Rel(q(vec![child(vec![Sel::Name(vec![b'a' + i as u8])])]));
    let all = |v: Vec<Expr>, op: fn(Expr, Expr) -> Expr| v.into_iter().reduce(op).unwrap();
    let right = |v: Vec<Expr>, op: fn(Expr, Expr) -> Expr| v.into_iter().rev().reduce(|x, y| op(y, x)).unwrap();
    let list = |r: std::ops::Range<usize>| -> Vec<Expr> { r.map(a).collect() };
    let e = match vs::choose(16) {
        0 => all(list(0..8), and),
        1 => all(list(0..8), or),
        2 => right(list(0..8), and),
        3 => right(list(0..8), or),
        4 => or(all(list(0..4), and), all(list(4..8), and)),
        5 => and(all(list(0..4), or), all(list(4..8), or)),
        6 => all((0..4).map(|i| and(a(2 * i), a(2 * i + 1))).collect(), or),
        7 => all((0..4).map(|i| or(a(2 * i), not(a(2 * i + 1)))).collect(), and),
        8 => and(a(0), or(a(1), and(a(2), or(a(3), and(a(4), or(a(5), and(a(6), a(7)))))))),
        9 => not(or(a(0), not(and(a(1), not(or(a(2), not(and(a(3), a(4))))))))),
        10 => all((0..8).map(|i| not(a(i))).collect(), and),
        11 => all((0..8).map(|i| not(a(i))).collect(), or),
        12 => not(not(not(not(and(a(0), a(1)))))),
        13 => and(cmp(a(0), Cmp::Eq, a(1)), and(cmp(a(2), Cmp::Ne, a(3)), not(cmp(a(4), Cmp::Eq, a(5))))),
        14 => or(and(a(0), not(a(1))), and(not(a(0)), a(1))),
        _ => and(or(a(0), a(1)), or(a(2), or(a(3), not(a(4))))),
    };
    let present: Vec<bool> = match vs::choose(20) {
        0 => vec![true; 8],
        1 => vec![false; 8],
        k @ 2..=9 => (0..8).map(|i| i == k - 2).collect(),
        k @ 10..=17 => (0..8).map(|i| i != k - 10).collect(),
        18 => (0..8).map(|i| i % 2 == 0).collect(),
        _ => (0..8).map(|i| i < 4).collect(),
    };
    let m = (0..8).filter(|&i| present[i]).map(|i| (((b'a' + i as u8) as char).to_string(), [n(), Value::Bool(false), int(0)][i % 3].clone())).collect();
    (arr(vec![n(), obj(m), int(1)]), filter(e))
}

/// @ and $ in filters within filters, to depth four, and within functions.
fn scopes() -> (Value, Query) {
    let v = || if vs::choose(2) == 0 { rel(&[b"v"]) } else { root(vec![child(vec![name(b"v")])]) };
    let inner = match vs::choose(6) {
        0 => cmp(v(), any_op(), v()),
        1 => cmp(func(b"count", vec![at(vec![child(vec![Sel::Filter(cmp(v(), Cmp::Eq, v()))])])]), Cmp::Ge, v()),
        2 => at(vec![child(vec![Sel::Wild]), child(vec![Sel::Filter(cmp(at(vec![]), Cmp::Eq, v()))])]),
        3 => root(vec![desc(vec![Sel::Filter(cmp(v(), Cmp::Lt, v()))])]),
        4 => and(rel(&[b"v"]), at(vec![desc(vec![Sel::Filter(cmp(at(vec![]), Cmp::Eq, root(vec![child(vec![name(b"v")])])))])])),
        _ => cmp(func(b"length", vec![func(b"value", vec![at(vec![desc(vec![name(b"w")])])])]), Cmp::Gt, v()),
    };
    let depth = vs::choose(4);
    let mut e = inner;
    for i in 0..depth {
        e = at(vec![if i % 2 == 0 { child(vec![Sel::Filter(e)]) } else { child(vec![Sel::Filter(e), Sel::Index(7)]) }])
    }
    // the same members at every level, with values of their own
    let mut d = obj(vec![kv("v", int(i53())), kv("w", arr(vec![n(), int(i53())]))]);
    for i in 0..depth + 1 {
        d = match i % 2 {
            0 => obj(vec![kv("o", d), kv("v", int(i as i64))]),
            _ => arr(vec![d, obj(vec![kv("v", int(i as i64))])]),
        }
    }
    let doc = obj(vec![kv("e", arr(vec![d, n()])), kv("v", int(i53()))]);
    (doc, q(vec![child(vec![name(b"e")]), child(vec![Sel::Filter(e)])]))
}

/// length(), count() and value() of bigger things.
fn lengths() -> (Value, Query) {
    let mut m = vec![];
    let l = match vs::choose(4) {
        0 => {
            let len = [9, 16, 17, 100, 255, 256, 300][vs::choose(7)];
            let t = [&b"\x07"[..], b"\x02\x07"][vs::choose(2)];
            let at = [0, len / 2, len][vs::choose(3)];
            let filler: &[u8] = if vs::choose(2) == 0 { b"x" } else { "\u{1f600}".as_bytes() };
            let mut o = vec![];
            for i in 0..len + 1 {
                if i == at {
                    o.extend_from_slice(&chars(t))
                }
                if i < len {
                    o.extend_from_slice(filler)
                }
            }
            m.push(kv("a", Value::String(vs::string(o))));
            func(b"length", vec![rel(&[b"a"])])
        }
        1 => {
            let len = [5, 9, 16, 17, 255, 256, 300][vs::choose(7)];
            m.push(kv("a", if vs::choose(2) == 0 { arr((0..len).map(|_| n()).collect()) } else { obj((0..len).map(|i| (i.to_string(), n())).collect()) }));
            match vs::choose(3) {
                0 => func(b"length", vec![rel(&[b"a"])]),
                1 => func(b"count", vec![at(vec![child(vec![name(b"a")]), child(vec![Sel::Wild])])]),
                _ => func(b"length", vec![func(b"value", vec![at(vec![desc(vec![name(b"a")])])])]),
            }
        }
        2 => {
            m.push(kv("a", big_doc(vs::choose(DOCS))));
            let mut segs = vec![child(vec![name(b"a")])];
            segs.extend(big_query(vs::choose(QUERIES)).segs);
            func(if vs::choose(2) == 0 { b"count" } else { b"value" }, vec![at(segs)])
        }
        _ => {
            // the same node more than once
            m.push(kv("a", arr(vec![int(1), int(2)])));
            let sels = match vs::choose(6) {
                0 => vec![Sel::Index(0), Sel::Index(0)],
                1 => vec![Sel::Index(0), Sel::Index(-2)],
                2 => vec![Sel::Index(1), Sel::Index(2)],
                3 => vec![Sel::Slice(None, Some(1), None)],
                4 => vec![Sel::Wild, Sel::Wild, Sel::Wild],
                _ => vec![name(b"a"), Sel::Index(1)],
            };
            func(if vs::choose(2) == 0 { b"count" } else { b"value" }, vec![at(vec![child(vec![name(b"a")]), child(sels)])])
        }
    };
    if vs::choose(4) != 0 {
        m.push(kv("n", int(i53())))
    }
    let o = if vs::choose(2) == 0 { Cmp::Eq } else { Cmp::Lt };
    (arr(vec![obj(m)]), filter(cmp(l, o, rel(&[b"n"]))))
}

/// Names at depth, with something special in any place.
fn names() -> (Value, Query) {
    let special = |k: usize| -> String {
        match k {
            0 => "'".to_string(),
            1 => "\\".to_string(),
            2 => "a'b'".to_string(),
            3 => "\n\r\t\u{8}\u{c}".to_string(),
            4 => "\u{1}\u{1f}".to_string(),
            5 => "\u{7f}\u{80}\u{2028}".to_string(),
            6 => String::new(),
            7 => "0".to_string(),
            8 => "\u{e9}\u{1f600}".to_string(),
            9 => "\"']['".to_string(),
            10 => "\\u0041\\".to_string(),
            _ => "x".repeat(300),
        }
    };
    match vs::choose(3) {
        0 => {
            let (a, b) = (special(vs::choose(12)), special(vs::choose(12)));
            (obj(vec![(a, arr(vec![obj(vec![(b, n())])]))]), q(vec![child(vec![Sel::Wild]), child(vec![Sel::Index(-1)]), child(vec![Sel::Wild])]))
        }
        1 => {
            // a special character somewhere in a long name
            let (before, after) = ([0, 7, 20][vs::choose(3)], [0, 1, 30][vs::choose(3)]);
            let mut o = vec![b'a'; before];
            o.extend_from_slice(&chars([&b"\x02"[..], b"\x07"][vs::choose(2)]));
            o.extend_from_slice(&vec![b'b'; after]);
            (obj(vec![(vs::string(o), arr(vec![n()]))]), q(vec![child(vec![Sel::Wild]), child(vec![Sel::Wild])]))
        }
        _ => {
            // the same name at every level
            let a = special(vs::choose(11));
            let mut v = n();
            for _ in 0..4 {
                v = obj(vec![(a.clone(), v)])
            }
            (v, q(vec![desc(vec![Sel::Wild])]))
        }
    }
}

/// Indices of several digits, at depth.
fn indices() -> (Value, Query) {
    let mut v = n();
    let mut segs = vec![];
    for _ in 0..3 {
        let k = [0, 1, 9, 10, 99, 100][vs::choose(6)];
        let mut a: Vec<Value> = (0..k).map(|_| n()).collect();
        a.push(v);
        v = arr(a);
        segs.push(child(vec![match vs::choose(2) {
            0 => Sel::Index(-1),
            _ => Sel::Slice(Some(-1), None, None),
        }]));
    }
    if vs::choose(4) == 0 {
        let k = [1000, 1023][vs::choose(2)];
        v = arr((0..k + 1).map(|_| n()).collect());
        segs = vec![child(vec![Sel::Slice(Some(-2), None, None)])];
    }
    (v, q(segs))
}

// ------------------------------------------------------------------------ runs

/// Parameter: kind * 8 + evaluator; against the reference evaluator.
pub fn judged(e: usize, kind: u64) {
    let env = Envs::new();
    vs::begin();
    let (doc, qq) = case(kind);
    judge(e, &env, &qq, &doc)
}

/// Nothing but an end is expected.
pub fn total(e: usize, kind: u64) {
    let env = Envs::new();
    vs::begin();
    let (doc, qq) = case(kind);
    match mk::run(e, &env, &qq, &doc, true) {
        Ok(got) => vs::cover(if got.is_empty() { 1 } else { 2 }),
        Err(()) => vs::fail("evaluation reports an error"),
    }
}

/// The locations lead back to their nodes.
pub fn located(e: usize, kind: u64) {
    let env = Envs::new();
    mk::warm(e, &env);
    vs::begin();
    let (doc, qq) = case(kind);
    paths(e, &env, &qq, &doc)
}

#[allow(dead_code)]
pub fn reference(doc: &Value, qq: &Query) -> usize {
    eval::find(qq, doc, doc).len()
}
