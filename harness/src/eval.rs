//! A reference evaluator, written from RFC 9535.
use crate::ire;
use crate::rfc::{Cmp, Expr, Num, Query, Sel};
use serde_json::Value;

#[derive(Clone)]
pub enum Step {
    I(usize),
    N(Vec<u8>),
}
pub struct Nd<'v> {
    pub path: Vec<Step>,
    pub v: &'v Value,
}

/// The nodelist of `q` on `cur` with `$` being `root`.
#[inline(never)]
pub fn find<'v>(q: &Query, root: &'v Value, cur: &'v Value) -> Vec<Nd<'v>> {
    let mut nodes = vec![Nd { path: vec![], v: cur }];
    for seg in q.segs.iter() {
        let mut out = vec![];
        for n in nodes.iter() {
            if seg.desc {
                let mut all = vec![];
                descend(n.path.clone(), n.v, &mut all);
                for d in all.iter() {
                    for s in seg.sels.iter() {
                        select(s, d, root, &mut out)
                    }
                }
            } else {
                for s in seg.sels.iter() {
                    select(s, n, root, &mut out)
                }
            }
        }
        nodes = out;
    }
    nodes
}

/// The value itself, then its descendants, in document order.
fn descend<'v>(path: Vec<Step>, v: &'v Value, out: &mut Vec<Nd<'v>>) {
    out.push(Nd { path: path.clone(), v });
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut p = path.clone();
                p.push(Step::I(i));
                descend(p, &a[i], out)
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter() {
                let mut p = path.clone();
                p.push(Step::N(k.as_bytes().to_vec()));
                descend(p, x, out)
            }
        }
        _ => {}
    }
}

fn element<'v>(n: &Nd<'v>, i: usize, v: &'v Value, out: &mut Vec<Nd<'v>>) {
    let mut path = n.path.clone();
    path.push(Step::I(i));
    out.push(Nd { path, v })
}
fn member<'v>(n: &Nd<'v>, k: &str, v: &'v Value, out: &mut Vec<Nd<'v>>) {
    let mut path = n.path.clone();
    path.push(Step::N(k.as_bytes().to_vec()));
    out.push(Nd { path, v })
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq &= a[i] == b[i]
    }
    eq
}

fn by_name<'v>(n: &Nd<'v>, name: &[u8], out: &mut Vec<Nd<'v>>) {
    if let Value::Object(o) = n.v {
        for (k, v) in o.iter() {
            if same(k.as_bytes(), name) {
                member(n, k, v, out)
            }
        }
    }
}
fn by_index<'v>(n: &Nd<'v>, i: i64, out: &mut Vec<Nd<'v>>) {
    if let Value::Array(a) = n.v {
        let len = a.len() as i64;
        for k in 0..len {
            // element k is also element k - len
            if i == k || i == k - len {
                element(n, k as usize, &a[k as usize], out)
            }
        }
    }
}

/// RFC 9535 section 2.3.4.2.2, almost literally.
pub fn slice_indices(len: i64, start: Option<i64>, end: Option<i64>, step: Option<i64>) -> Vec<usize> {
    let mut out = vec![];
    let step = match step {
        Some(s) => s,
        None => 1,
    };
    if step == 0 {
        return out;
    }
    let normalize = |i: i64| if i >= 0 { i } else { len + i };
    let n_start = match start {
        Some(i) => normalize(i),
        None => {
            if step >= 0 {
                0
            } else {
                len - 1
            }
        }
    };
    let n_end = match end {
        Some(i) => normalize(i),
        None => {
            if step >= 0 {
                len
            } else {
                normalize(-len - 1)
            }
        }
    };
    let min = |a: i64, b: i64| if a < b { a } else { b };
    let max = |a: i64, b: i64| if a > b { a } else { b };
    if step > 0 {
        let lower = min(max(n_start, 0), len);
        let upper = min(max(n_end, 0), len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            match i.checked_add(step) {
                Some(x) => i = x,
                None => break,
            }
        }
    } else {
        let upper = min(max(n_start, -1), len - 1);
        let lower = min(max(n_end, -1), len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            match i.checked_add(step) {
                Some(x) => i = x,
                None => break,
            }
        }
    }
    out
}

#[inline(never)]
fn select<'v>(s: &Sel, n: &Nd<'v>, root: &'v Value, out: &mut Vec<Nd<'v>>) {
    match s {
        Sel::Name(name) => by_name(n, name, out),
        Sel::Index(i) => by_index(n, *i, out),
        Sel::Slice(a, b, c) => {
            if let Value::Array(arr) = n.v {
                for i in slice_indices(arr.len() as i64, *a, *b, *c) {
                    element(n, i, &arr[i], out)
                }
            }
        }
        Sel::Wild => match n.v {
            Value::Array(a) => {
                for i in 0..a.len() {
                    element(n, i, &a[i], out)
                }
            }
            Value::Object(o) => {
                for (k, v) in o.iter() {
                    member(n, k, v, out)
                }
            }
            _ => {}
        },
        Sel::Filter(e) => match n.v {
            Value::Array(a) => {
                for i in 0..a.len() {
                    if test(e, root, &a[i]) {
                        element(n, i, &a[i], out)
                    }
                }
            }
            Value::Object(o) => {
                for (k, v) in o.iter() {
                    if test(e, root, v) {
                        member(n, k, v, out)
                    }
                }
            }
            _ => {}
        },
        Sel::Singular(q) => {
            let f = find(q, root, root);
            if f.len() == 1 {
                match f[0].v {
                    Value::String(name) => by_name(n, name.as_bytes(), out),
                    Value::Number(x) => {
                        if let Some(i) = x.as_i64() {
                            by_index(n, i, out)
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}

// ------------------------------------------------------------------ filters

pub enum Val<'v> {
    Nothing,
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(&'v [u8]),
    Arr(&'v Vec<Value>),
    Obj(&'v serde_json::Map<String, Value>),
}

pub fn val<'v>(v: &'v Value) -> Val<'v> {
    match v {
        Value::Null => Val::Null,
        Value::Bool(b) => Val::Bool(*b),
        Value::Number(n) => match n.as_i64() {
            Some(i) => Val::Int(i),
            // integers beyond the i64 range count as doubles
            None => Val::Float(n.as_f64().unwrap()),
        },
        Value::String(s) => Val::Str(s.as_bytes()),
        Value::Array(a) => Val::Arr(a),
        Value::Object(o) => Val::Obj(o),
    }
}

#[inline(never)]
pub fn test<'v>(e: &Expr, root: &'v Value, cur: &'v Value) -> bool {
    match e {
        Expr::Not(x) => !test(x, root, cur),
        Expr::And(l, r) => test(l, root, cur) && test(r, root, cur),
        Expr::Or(l, r) => test(l, root, cur) || test(r, root, cur),
        Expr::Cmp(l, o, r) => {
            let a = operand(l, root, cur);
            let b = operand(r, root, cur);
            compare(&a, *o, &b)
        }
        Expr::Rel(q) => !find(q, root, cur).is_empty(),
        Expr::Root(q) => !find(q, root, root).is_empty(),
        Expr::Fn(n, a) if n == b"match" || n == b"search" => {
            let s = operand(&a[0], root, cur);
            let p = operand(&a[1], root, cur);
            match (s, p) {
                (Val::Str(s), Val::Str(p)) => match ire::parse(p) {
                    Some(re) => ire::matches(&re, s, n == b"match"),
                    None => false,
                },
                _ => false,
            }
        }
        // functions of the harness
        Expr::Fn(n, a) if n == b"id_l" => test(&a[0], root, cur),
        Expr::Fn(n, _) if n == b"id_n" => !nodes(e, root, cur).is_empty(),
        Expr::Fn(n, _) if n == b"probe" => false,
        _ => panic!("not a logical expression"),
    }
}

#[inline(never)]
pub fn operand<'v>(e: &'v Expr, root: &'v Value, cur: &'v Value) -> Val<'v> {
    let one = |n: Vec<Nd<'v>>| if n.len() == 1 { val(n[0].v) } else { Val::Nothing };
    match e {
        Expr::True => Val::Bool(true),
        Expr::False => Val::Bool(false),
        Expr::Null => Val::Null,
        Expr::Str(s) => Val::Str(s),
        Expr::Num(Num::Int(i)) => Val::Int(*i),
        Expr::Num(Num::Float(f)) => Val::Float(*f),
        Expr::Rel(q) => one(find(q, root, cur)),
        Expr::Root(q) => one(find(q, root, root)),
        Expr::Fn(n, a) => match &n[..] {
            b"length" => match operand(&a[0], root, cur) {
                Val::Str(s) => {
                    let mut k = 0;
                    for &b in s {
                        // every character has one byte that is no continuation
                        if b & 0xc0 != 0x80 {
                            k += 1
                        }
                    }
                    Val::Int(k)
                }
                Val::Arr(a) => Val::Int(a.len() as i64),
                Val::Obj(o) => Val::Int(o.iter().count() as i64),
                _ => Val::Nothing,
            },
            b"count" => Val::Int(nodes(&a[0], root, cur).len() as i64),
            b"value" => one(nodes(&a[0], root, cur)),
            // functions of the harness
            b"id_v" => operand(&a[0], root, cur),
            b"kind_v" => Val::Int(match operand(&a[0], root, cur) {
                Val::Nothing => 0,
                Val::Null => 1,
                Val::Bool(_) => 2,
                Val::Int(_) => 3,
                Val::Float(_) => 4,
                Val::Str(_) => 5,
                Val::Arr(_) => 6,
                Val::Obj(_) => 7,
            }),
            b"kind_l" => Val::Int(2),
            b"kind_n" => Val::Int(100 + nodes(&a[0], root, cur).len() as i64),
            [b'f', b'_', types @ ..] => {
                let mut c = 1;
                for (t, x) in types.iter().zip(a.iter()) {
                    c = c * 32
                        + match t {
                            b'l' => test(x, root, cur) as i64,
                            b'n' => nodes(x, root, cur).len() as i64,
                            _ => match operand(x, root, cur) {
                                Val::Nothing => 0,
                                Val::Null => 1,
                                Val::Bool(b) => 2 + b as i64,
                                Val::Int(_) => 4,
                                Val::Float(_) => 5,
                                Val::Str(s) => 6 + s.len().min(3) as i64,
                                Val::Arr(_) => 10,
                                Val::Obj(_) => 11,
                            },
                        }
                }
                Val::Int(c)
            }
            b"pick" => {
                if test(&a[0], root, cur) {
                    operand(&a[1], root, cur)
                } else {
                    Val::Int(nodes(&a[2], root, cur).len() as i64)
                }
            }
            _ => panic!("unknown function"),
        },
        _ => panic!("not a comparable"),
    }
}
fn nodes<'v>(e: &Expr, root: &'v Value, cur: &'v Value) -> Vec<Nd<'v>> {
    match e {
        Expr::Rel(q) => find(q, root, cur),
        Expr::Root(q) => find(q, root, root),
        // a function of the harness: its argument
        Expr::Fn(n, a) if n == b"id_n" => nodes(&a[0], root, cur),
        _ => panic!("not a query"),
    }
}

#[inline(never)]
pub fn compare(a: &Val, o: Cmp, b: &Val) -> bool {
    match o {
        Cmp::Eq => equal(a, b),
        Cmp::Ne => !equal(a, b),
        Cmp::Lt => less(a, b),
        Cmp::Gt => less(b, a),
        Cmp::Le => less(a, b) || equal(a, b),
        Cmp::Ge => less(b, a) || equal(a, b),
    }
}

#[inline(never)]
pub fn equal(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Nothing, Val::Nothing) => true,
        (Val::Null, Val::Null) => true,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::Float(x), Val::Float(y)) => x == y,
        // exact for integers of the I-JSON range
        (Val::Int(x), Val::Float(y)) | (Val::Float(y), Val::Int(x)) => *x as f64 == *y,
        (Val::Str(x), Val::Str(y)) => same(x, y),
        (Val::Arr(x), Val::Arr(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !equal(&val(&x[i]), &val(&y[i])) {
                    return false;
                }
            }
            true
        }
        (Val::Obj(x), Val::Obj(y)) => {
            if x.iter().count() != y.iter().count() {
                return false;
            }
            for (k, v) in x.iter() {
                let mut found = false;
                for (l, w) in y.iter() {
                    if same(k.as_bytes(), l.as_bytes()) {
                        found = equal(&val(v), &val(w));
                        break;
                    }
                }
                if !found {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}

#[inline(never)]
pub fn less(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => x < y,
        (Val::Float(x), Val::Float(y)) => x < y,
        (Val::Int(x), Val::Float(y)) => (*x as f64) < *y,
        (Val::Float(x), Val::Int(y)) => *x < *y as f64,
        (Val::Str(x), Val::Str(y)) => {
            // UTF-8 keeps the order of the scalar values
            let n = if x.len() < y.len() { x.len() } else { y.len() };
            for i in 0..n {
                if x[i] != y[i] {
                    return x[i] < y[i];
                }
            }
            x.len() < y.len()
        }
        _ => false,
    }
}

// -------------------------------------------------------- normalized paths

/// RFC 9535 section 2.7.
#[inline(never)]
pub fn npath(p: &[Step]) -> Vec<u8> {
    let mut o = vec![b'$'];
    for s in p {
        o.push(b'[');
        match s {
            Step::I(i) => o.extend_from_slice(i.to_string().as_bytes()),
            Step::N(n) => {
                o.push(b'\'');
                for &b in n {
                    match b {
                        8 => o.extend_from_slice(b"\\b"),
                        9 => o.extend_from_slice(b"\\t"),
                        10 => o.extend_from_slice(b"\\n"),
                        12 => o.extend_from_slice(b"\\f"),
                        13 => o.extend_from_slice(b"\\r"),
                        b'\'' => o.extend_from_slice(b"\\'"),
                        b'\\' => o.extend_from_slice(b"\\\\"),
                        0..=0x1f => {
                            o.extend_from_slice(b"\\u00");
                            o.push(b'0' + (b >> 4));
                            let l = b & 15;
                            o.push(if l < 10 { b'0' + l } else { b'a' + l - 10 })
                        }
                        _ => o.push(b),
                    }
                }
                o.push(b'\'')
            }
        }
        o.push(b']')
    }
    o
}
