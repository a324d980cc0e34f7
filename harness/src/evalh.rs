//! C10..C14, C16, C18..C20: what the evaluators do.
use crate::eval::{self, Step};
use crate::mk::{self, Envs, E_FIND, E_ITER, E_LOC, E_LOOP, E_SING};
use crate::scale;
use crate::rfc::{Cmp, Expr, Num, Query, Seg, Sel};
use crate::text;
use crate::vs;
use serde_json::{Map, Number, Value};

const I53: u64 = (1 << 53) - 1;

// ------------------------------------------------------- symbolic ingredients

/// An integer JSONPath allows as index or bound.
pub fn i53() -> i64 {
    vs::word_in(0, 2 * I53).wrapping_sub(I53) as i64
}
pub fn opt53() -> Option<i64> {
    if vs::choose(2) == 0 {
        None
    } else {
        Some(i53())
    }
}
/// Any finite double.
pub fn double() -> f64 {
    let b = vs::word();
    vs::assume(b >> 52 & 0x7ff != 0x7ff);
    f64::from_bits(b)
}
pub fn chars(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for &b in t {
        text::hole(b, &mut o)
    }
    o
}
pub fn key(t: &[u8]) -> String {
    vs::string(chars(t))
}
pub fn arr(v: Vec<Value>) -> Value {
    Value::Array(v)
}
pub fn obj(v: Vec<(String, Value)>) -> Value {
    let mut m = Map::new();
    for (k, x) in v {
        m.insert(k, x);
    }
    Value::Object(m)
}
pub fn int(i: i64) -> Value {
    Value::Number(Number::from(i))
}
pub fn dbl(f: f64) -> Value {
    Value::Number(Number::from_f64(f).unwrap())
}
pub fn q(segs: Vec<Seg>) -> Query {
    Query { segs }
}
pub fn child(sels: Vec<Sel>) -> Seg {
    Seg { desc: false, sels }
}
pub fn name(n: &[u8]) -> Sel {
    Sel::Name(n.to_vec())
}
/// `@` followed by member names.
pub fn rel(names: &[&[u8]]) -> Expr {
    let mut segs = vec![];
    for n in names {
        segs.push(child(vec![name(n)]))
    }
    Expr::Rel(q(segs))
}
pub fn filter(e: Expr) -> Query {
    q(vec![child(vec![Sel::Filter(e)])])
}
pub fn func(n: &[u8], a: Vec<Expr>) -> Expr {
    Expr::Fn(n.to_vec(), a)
}

// -------------------------------------------------------------------- judging

fn outcome(got: &mk::Found) {
    for (p, _) in got {
        vs::note(p)
    }
}

/// Run evaluator `e` and compare with the reference.
#[inline(never)]
pub fn judge(e: usize, env: &Envs, qq: &Query, doc: &Value) {
    let Ok(got) = mk::run(e, env, qq, doc, true) else { vs::fail("evaluation reports an error") };
    outcome(&got);
    let want = eval::find(qq, doc, doc);
    vs::cover(if want.is_empty() { 1 } else { 2 });
    vs::check(got.len() == want.len(), "not the nodes RFC 9535 selects: the number of nodes differs");
    for i in 0..want.len() {
        vs::check(std::ptr::eq(got[i].1, want[i].v), "not the nodes RFC 9535 selects: a node differs");
        vs::check(eval::same(got[i].0.as_bytes(), &eval::npath(&want[i].path)), "the location of a node is not its normalized path");
    }
}

// ------------------------------------------------------------------------ C10

pub fn c10(p: u64) {
    let e = (p % 8) as usize;
    if p / 8 == 3 {
        return scale::judged(e, scale::ARRAYS);
    }
    let env = Envs::new();
    vs::begin();
    let doc = match vs::choose(8) {
        5 => obj(vec![("0".to_string(), Value::Null), ("-1".to_string(), Value::Null)]),
        6 => Value::String("ab".to_string()),
        7 => int(1),
        n => arr((0..n).map(|_| Value::Null).collect()),
    };
    let s = match p / 8 {
        0 => Sel::Index(i53()),
        1 => Sel::Slice(opt53(), opt53(), opt53()),
        _ => {
            // as an index or slice of what a filter tests
            let inner = match vs::choose(2) {
                0 => Sel::Index(i53()),
                _ => Sel::Slice(opt53(), None, opt53()),
            };
            let d = arr(vec![doc]);
            return judge(e, &env, &filter(Expr::Rel(q(vec![child(vec![inner])]))), &d);
        }
    };
    judge(e, &env, &q(vec![child(vec![s])]), &doc)
}

// ------------------------------------------------------------------------ C11

pub fn leaf() -> Value {
    match vs::choose(3) {
        0 => Value::Null,
        1 => arr(vec![]),
        _ => obj(vec![]),
    }
}
/// A member name of one lower-case letter: any other character is left to
/// group 2, because the evaluators that build paths look at each.
pub fn k1() -> String {
    vs::string(vec![vs::byte(b'a', b'z')])
}
pub fn tree_doc() -> Value {
    let n = || Value::Null;
    match vs::choose(9) {
        0 => leaf(),
        1 => arr(vec![n(), leaf()]),
        2 => obj(vec![(k1(), n()), (k1(), leaf())]),
        3 => obj(vec![(k1(), arr(vec![n(), n()])), (k1(), obj(vec![(k1(), n())]))]),
        4 => arr(vec![arr(vec![n()]), arr(vec![n(), n(), n()]), obj(vec![(k1(), n())])]),
        5 => {
            let k = k1();
            obj(vec![(k.clone(), obj(vec![(k.clone(), obj(vec![(k, n())]))]))])
        }
        6 => arr(vec![obj(vec![(k1(), n())]), obj(vec![(k1(), arr(vec![obj(vec![(k1(), n())])]))])]),
        7 => obj(vec![(key(b"\x01"), n())]),
        _ => Value::String("a".to_string()),
    }
}
fn some_sel(k: usize) -> Sel {
    match k {
        0 => Sel::Name(vec![vs::byte(b'a', b'z')]),
        1 => Sel::Wild,
        2 => Sel::Index(i53()),
        3 => Sel::Slice(None, None, Some(-1)),
        4 => Sel::Slice(Some(1), None, None),
        5 => Sel::Filter(rel(&[b"a"])),
        _ => Sel::Filter(Expr::Rel(q(vec![]))),
    }
}
fn some_sels(more: bool) -> Vec<Sel> {
    let k = vs::choose(if more { 13 } else { 7 });
    if k < 7 {
        return vec![some_sel(k)];
    }
    match k {
        7 => vec![some_sel(0), some_sel(0)],
        8 => vec![some_sel(1), some_sel(0)],
        9 => vec![some_sel(2), some_sel(2)],
        10 => vec![some_sel(3), some_sel(1)],
        11 => vec![some_sel(1), some_sel(1)],
        _ => vec![some_sel(5), some_sel(4), some_sel(0)],
    }
}
pub fn some_seg(more: bool) -> Seg {
    let desc = vs::choose(2) == 1;
    Seg { desc, sels: some_sels(more) }
}

/// Groups: 0 one segment with any list of selectors, 1 two segments, 2 names
/// of any Unicode scalar, 3 three segments.
pub fn c11(p: u64) {
    let e = (p % 8) as usize;
    match p / 8 {
        4 => return scale::judged(e, scale::TREES),
        5 => return scale::judged(e, scale::SLICES),
        _ => {}
    }
    let env = Envs::new();
    vs::begin();
    let doc = match p / 8 {
        2 => obj(vec![(key(b"\x01"), Value::Null), (key(b"\x07\x02"), Value::Null)]),
        _ => tree_doc(),
    };
    let qq = match p / 8 {
        0 => q(vec![some_seg(true)]),
        1 => q(vec![some_seg(false), some_seg(false)]),
        2 => {
            let d = vs::choose(2) == 1;
            let n = if vs::choose(2) == 0 { chars(b"\x01") } else { chars(b"\x07\x02") };
            q(vec![Seg { desc: d, sels: vec![Sel::Name(n)] }])
        }
        _ => q(vec![some_seg(true), some_seg(false), some_seg(false)]),
    };
    judge(e, &env, &qq, &doc)
}

// ------------------------------------------------------------------------ C12

/// A value of each kind; `None` is Nothing.
fn scalar(k: usize, long: bool) -> Option<Value> {
    Some(match k {
        0 => return None,
        1 => Value::Null,
        2 => Value::Bool(vs::choose(2) == 1),
        3 => int(i53()),
        4 => dbl(double()),
        _ => Value::String(string_value(long)),
    })
}
fn string_value(long: bool) -> String {
    match vs::choose(if long { 4 } else { 3 }) {
        0 => String::new(),
        1 => key(b"\x07"),
        2 => key(b"\x02\x02"),
        _ => key(b"\x07\x07"),
    }
}
fn nested(k: usize) -> Value {
    let x = || match vs::choose(5) {
        0 => Value::Null,
        1 => int(i53()),
        2 => dbl(double()),
        3 => Value::String(key(b"\x02")),
        _ => Value::Bool(vs::choose(2) == 1),
    };
    let kk = || vs::string(vec![vs::byte(b'a', b'c')]);
    match k {
        0 => arr(vec![]),
        1 => arr(vec![x()]),
        2 => arr(vec![int(i53()), x()]),
        3 => obj(vec![]),
        4 => obj(vec![(kk(), x())]),
        5 => obj(vec![(kk(), int(i53())), (kk(), dbl(double()))]),
        6 => obj(vec![(kk(), arr(vec![x()]))]),
        _ => arr(vec![obj(vec![(kk(), int(i53()))])]),
    }
}
pub fn any_op() -> Cmp {
    [Cmp::Eq, Cmp::Ne, Cmp::Le, Cmp::Ge, Cmp::Lt, Cmp::Gt][vs::choose(6)]
}
fn literal(v: &Option<Value>) -> Expr {
    match v.as_ref().unwrap() {
        Value::Null => Expr::Null,
        Value::Bool(b) => {
            if *b {
                Expr::True
            } else {
                Expr::False
            }
        }
        Value::Number(n) => Expr::Num(match n.as_i64() {
            Some(i) => Num::Int(i),
            None => Num::Float(n.as_f64().unwrap()),
        }),
        Value::String(s) => Expr::Str(s.as_bytes().to_vec()),
        _ => panic!("no literal"),
    }
}

/// Groups: 0 member against member, scalars; 1 literal against member and
/// literal; 2 arrays and objects; 3 other forms of operands.
pub fn c12(p: u64) {
    let e = (p % 8) as usize;
    match p / 8 {
        4 => return scale::judged(e, scale::STRINGS),
        5 => return scale::judged(e, scale::VALUES),
        _ => {}
    }
    let env = Envs::new();
    vs::begin();
    let (l, r);
    let mut members: Vec<(String, Value)> = vec![];
    let mut root: Vec<(String, Value)> = vec![];
    match p / 8 {
        0 => {
            let (a, b) = (scalar(vs::choose(6), true), scalar(vs::choose(6), true));
            if let Some(a) = a {
                members.push(("a".to_string(), a))
            }
            if let Some(b) = b {
                members.push(("b".to_string(), b))
            }
            l = rel(&[b"a"]);
            r = rel(&[b"b"])
        }
        1 => {
            let a = scalar(1 + vs::choose(5), false);
            let b = scalar(vs::choose(6), false);
            let la = literal(&a);
            let rb = if b.is_some() && vs::choose(2) == 0 {
                literal(&b)
            } else {
                if let Some(b) = b {
                    members.push(("b".to_string(), b))
                }
                rel(&[b"b"])
            };
            if vs::choose(2) == 0 {
                l = la;
                r = rb
            } else {
                l = rb;
                r = la
            }
        }
        2 => {
            let a = nested(vs::choose(8));
            members.push(("a".to_string(), a));
            l = rel(&[b"a"]);
            r = rel(&[b"b"]);
            match vs::choose(9) {
                8 => {
                    if let Some(b) = scalar(vs::choose(6), false) {
                        members.push(("b".to_string(), b))
                    }
                }
                k => members.push(("b".to_string(), nested(k))),
            }
        }
        _ => {
            // value(), length() and $ on one side
            let b = match vs::choose(3) {
                0 => scalar(0, false),
                1 => scalar(3, false),
                _ => scalar(5, false),
            };
            if let Some(b) = b {
                members.push(("b".to_string(), b))
            }
            let x = match vs::choose(3) {
                0 => None,
                1 => Some(int(i53())),
                _ => Some(Value::String(key(b"\x07\x02"))),
            };
            let some = x.is_some();
            if let Some(x) = x {
                root.push(("x".to_string(), x))
            }
            let rq = || Expr::Root(q(vec![child(vec![name(b"x")])]));
            l = match vs::choose(4) {
                0 => rq(),
                1 => func(b"value", vec![rq()]),
                2 => func(b"length", vec![rq()]),
                _ => func(b"value", vec![Expr::Root(q(vec![Seg { desc: true, sels: vec![Sel::Wild] }]))]),
            };
            vs::cover(if some { 3 } else { 4 });
            r = match vs::choose(3) {
                0 => rel(&[b"b"]),
                1 => func(b"length", vec![rel(&[b"b"])]),
                _ => func(b"value", vec![Expr::Rel(q(vec![child(vec![Sel::Wild])]))]),
            }
        }
    }
    root.push(("e".to_string(), arr(vec![obj(members)])));
    let doc = obj(root);
    let o = any_op();
    let e1 = Expr::Cmp(Box::new(l), o, Box::new(r));
    let qq = q(vec![child(vec![name(b"e")]), child(vec![Sel::Filter(e1)])]);
    judge(e, &env, &qq, &doc)
}

// ------------------------------------------------------------------------ C13

pub fn atom(k: usize) -> Expr {
    let at = |s: Vec<Sel>| Expr::Rel(q(vec![child(s)]));
    match k {
        0 => rel(&[b"a"]),
        1 => rel(&[b"b"]),
        2 => Expr::Cmp(Box::new(rel(&[b"a"])), Cmp::Eq, Box::new(Expr::Num(Num::Int(i53())))),
        3 => Expr::Root(q(vec![child(vec![name(b"x")])])),
        4 => Expr::Cmp(Box::new(rel(&[b"b"])), Cmp::Lt, Box::new(Expr::Root(q(vec![child(vec![name(b"x")])])))),
        5 => at(vec![Sel::Wild]),
        6 => at(vec![Sel::Filter(Expr::Cmp(Box::new(Expr::Rel(q(vec![]))), Cmp::Eq, Box::new(Expr::Root(q(vec![child(vec![name(b"x")])])))))]),
        7 => Expr::Rel(q(vec![Seg { desc: true, sels: vec![name(b"b"), Sel::Index(0)] }])),
        8 => Expr::Rel(q(vec![])),
        _ => Expr::Cmp(Box::new(func(b"count", vec![at(vec![Sel::Wild])])), Cmp::Gt, Box::new(Expr::Num(Num::Int(i53())))),
    }
}
pub fn not(e: Expr) -> Expr {
    Expr::Not(Box::new(e))
}
pub fn and(a: Expr, b: Expr) -> Expr {
    Expr::And(Box::new(a), Box::new(b))
}
pub fn or(a: Expr, b: Expr) -> Expr {
    Expr::Or(Box::new(a), Box::new(b))
}
pub fn falsy() -> Value {
    if vs::choose(2) == 0 {
        return dbl(double());
    }
    falsy_but_double()
}
fn falsy_but_double() -> Value {
    match vs::choose(6) {
        0 => Value::Null,
        1 => Value::Bool(false),
        2 => int(i53()),
        3 => Value::String(String::new()),
        4 => arr(vec![]),
        _ => obj(vec![]),
    }
}
pub fn element_doc(doubles: bool) -> Value {
    let mut m = vec![];
    if vs::choose(2) == 1 {
        m.push(("a".to_string(), if doubles { falsy() } else { falsy_but_double() }))
    }
    if vs::choose(2) == 1 {
        m.push(("b".to_string(), int(i53())))
    }
    obj(m)
}

/// Groups: 0 one test, negated or not, of every kind of value; 1 two tests; 2
/// three tests; 3 the scope of @ and $ at depths two and three.
pub fn c13(p: u64) {
    let e = (p % 8) as usize;
    match p / 8 {
        4 => return scale::judged(e, scale::CHAINS),
        5 => return scale::judged(e, scale::SCOPES),
        _ => {}
    }
    let env = Envs::new();
    vs::begin();
    let mut root: Vec<(String, Value)> = vec![];
    if vs::choose(2) == 1 {
        root.push(("x".to_string(), int(i53())))
    }
    let fe;
    let mut inner = None;
    match p / 8 {
        0 => {
            let a = atom(vs::choose(10));
            fe = match vs::choose(3) {
                0 => a,
                1 => not(a),
                _ => not(not(a)),
            };
            if vs::choose(2) == 0 {
                inner = Some(match vs::choose(3) {
                    0 => arr(vec![falsy()]),
                    1 => falsy(),
                    _ => arr(vec![arr(vec![falsy()]), int(i53())]),
                })
            }
        }
        1 => {
            let (a, b) = (atom(vs::choose(8)), atom(vs::choose(8)));
            fe = match vs::choose(6) {
                0 => and(a, b),
                1 => or(a, b),
                2 => not(and(a, b)),
                3 => not(or(a, b)),
                4 => and(not(a), b),
                _ => or(a, not(b)),
            }
        }
        2 => {
            let (a, b, c) = (atom(vs::choose(3)), atom(vs::choose(5)), atom(vs::choose(3)));
            fe = match vs::choose(5) {
                0 => or(and(a, b), c),
                1 => or(a, and(b, c)),
                2 => and(or(a, b), c),
                3 => and(a, or(b, not(c))),
                _ => and(not(and(a, b)), c),
            }
        }
        _ => {
            // @ and $ inside nested filters: every level has its own members
            let v = || if vs::choose(2) == 0 { rel(&[b"v"]) } else { Expr::Root(q(vec![child(vec![name(b"x")])])) };
            let at = |f: Expr| Expr::Rel(q(vec![child(vec![Sel::Filter(f)])]));
            let last = match vs::choose(3) {
                0 => Expr::Cmp(Box::new(v()), any_op(), Box::new(v())),
                1 => Expr::Cmp(Box::new(func(b"count", vec![Expr::Root(q(vec![child(vec![Sel::Wild])]))])), any_op(), Box::new(v())),
                _ => Expr::Root(q(vec![child(vec![name(b"x")]), child(vec![Sel::Filter(rel(&[b"v"]))])])),
            };
            let level = |k: Value| {
                let mut m = vec![("w".to_string(), k)];
                if vs::choose(2) == 1 {
                    m.push(("v".to_string(), int(i53())))
                }
                if vs::choose(2) == 1 {
                    m.push(("x".to_string(), int(i53())))
                }
                obj(m)
            };
            let deep = vs::choose(2) == 1;
            let d0 = level(Value::Null);
            inner = Some(if deep { level(level(d0)) } else { level(d0) });
            fe = if deep { at(at(last)) } else { at(last) };
            if vs::choose(2) == 1 {
                root.push(("y".to_string(), int(i53())))
            }
        }
    }
    let d = match inner {
        Some(v) => v,
        None => element_doc(p / 8 == 0),
    };
    // as array element or as member value
    let list = if vs::choose(2) == 0 { arr(vec![d, Value::Null]) } else { obj(vec![("k".to_string(), d)]) };
    root.push(("e".to_string(), list));
    let doc = obj(root);
    let qq = q(vec![child(vec![name(b"e")]), child(vec![Sel::Filter(fe)])]);
    judge(e, &env, &qq, &doc)
}

// ------------------------------------------------------------------------ C14

/// Groups: 0 length() of any value, 1 count() and value() of the nodelists of at most one
/// more segment, 2 of at most two.
pub fn c14(p: u64) {
    let e = (p % 8) as usize;
    if p / 8 == 3 {
        return scale::judged(e, scale::LENGTHS);
    }
    let env = Envs::new();
    vs::begin();
    let mut m = vec![];
    let l = match p / 8 {
        0 => {
            let v = match vs::choose(11) {
                0 => None,
                1 => Some(Value::Null),
                2 => Some(Value::Bool(vs::choose(2) == 1)),
                3 => Some(int(i53())),
                4 => Some(dbl(double())),
                5 => Some(Value::String(String::new())),
                6 => Some(Value::String(key(b"\x01"))),
                7 => Some(Value::String(key(b"\x07\x07"))),
                8 => Some(Value::String(key(b"\x07\x02\x07"))),
                9 => Some(arr((0..vs::choose(4)).map(|_| falsy()).collect())),
                _ => Some(obj((0..vs::choose(4)).map(|_| (k1(), Value::Null)).collect())),
            };
            let lit = match &v {
                Some(Value::String(_)) | Some(Value::Null) => vs::choose(2) == 1,
                _ => false,
            };
            let a = if lit {
                literal(&v)
            } else {
                match vs::choose(2) {
                    0 => rel(&[b"a"]),
                    _ => func(b"value", vec![rel(&[b"a"])]),
                }
            };
            if let Some(v) = v {
                m.push(("a".to_string(), v))
            }
            func(b"length", vec![a])
        }
        _ => {
            m.push(("a".to_string(), tree_doc()));
            let mut segs = vec![child(vec![name(b"a")])];
            for _ in 0..vs::choose((p / 8 + 1) as usize) {
                segs.push(some_seg(true))
            }
            let qq = if vs::choose(2) == 0 { Expr::Rel(q(segs)) } else { Expr::Root(q(segs)) };
            func(if vs::choose(2) == 0 { b"count" } else { b"value" }, vec![qq])
        }
    };
    if vs::choose(2) == 1 {
        m.push(("n".to_string(), int(i53())))
    }
    let doc = arr(vec![obj(m)]);
    let o = if p / 8 == 0 { any_op() } else { Cmp::Eq };
    judge(e, &env, &filter(Expr::Cmp(Box::new(l), o, Box::new(rel(&[b"n"])))), &doc)
}

// ------------------------------------------------------------------------ C16

/// Groups: 0 one name of one scalar, 1 of two, 2 names, indices and nesting,
/// 3 two names of a document.
pub fn c16(p: u64) {
    let e = (p % 8) as usize;
    match p / 8 {
        4 => return scale::located(e, scale::NAMES),
        5 => return scale::located(e, scale::INDICES),
        _ => {}
    }
    let env = Envs::new();
    mk::warm(e, &env);
    vs::begin();
    let n = || Value::Null;
    let (doc, qq);
    let all = || Seg { desc: true, sels: vec![Sel::Wild] };
    match p / 8 {
        0 => {
            doc = obj(vec![(key(b"\x01"), n())]);
            qq = q(vec![child(vec![Sel::Wild])])
        }
        1 => {
            doc = obj(vec![(key([&b"\x07\x02"[..], b"\x02\x07", b"'\x02", b"\\\x02", b"\x02']['a"][vs::choose(5)]), n())]);
            qq = q(vec![child(vec![Sel::Wild])])
        }
        2 => {
            doc = match vs::choose(4) {
                0 => arr(vec![n(), obj(vec![(key(b"\x02"), n())])]),
                1 => obj(vec![(key(b"\x02"), arr(vec![n(), n()]))]),
                2 => obj(vec![(k1(), obj(vec![(k1(), n()), (k1(), arr(vec![n()]))]))]),
                _ => arr((0..12).map(|_| n()).collect()),
            };
            qq = match vs::choose(4) {
                0 => q(vec![all()]),
                1 => q(vec![Seg { desc: true, sels: vec![Sel::Index(i53()), Sel::Slice(None, None, Some(-2))] }]),
                2 => q(vec![child(vec![Sel::Wild]), child(vec![Sel::Filter(Expr::Rel(q(vec![]))), Sel::Index(-1)])]),
                _ => q(vec![]),
            }
        }
        _ => {
            doc = obj(vec![(key(b"\x02"), n()), (key(b"\x02"), arr(vec![n()]))]);
            qq = q(vec![all()])
        }
    }
    paths(e, &env, &qq, &doc)
}

/// Every location is a normalized path, and leads back to its node.
#[inline(never)]
pub fn paths(e: usize, env: &Envs, qq: &Query, doc: &Value) {
    let Ok(got) = mk::run(e, env, qq, doc, true) else { vs::fail("evaluation reports an error") };
    outcome(&got);
    let want = eval::find(qq, doc, doc);
    vs::cover(if want.is_empty() { 1 } else { 2 });
    vs::check(got.len() == want.len(), "not the nodes RFC 9535 selects: the number of nodes differs");
    for i in 0..got.len() {
        vs::check(eval::same(got[i].0.as_bytes(), &eval::npath(&want[i].path)), "the location of a node is not its normalized path");
        for j in 0..i {
            let twice = std::ptr::eq(got[i].1, got[j].1);
            let path = eval::same(got[i].0.as_bytes(), got[j].0.as_bytes());
            vs::check(twice == path, "two nodes share a location, or one has two");
        }
    }
    // one of the locations as a query
    if !got.is_empty() {
        let (path, v) = &got[vs::choose(got.len())];
        let Ok(again) = mk::run_text(e, env, path, doc, true) else { vs::fail("a location is not a valid query") };
        vs::check(again.len() == 1, "a location does not select exactly one node");
        vs::check(std::ptr::eq(again[0].1, *v), "a location selects another node");
        vs::check(eval::same(again[0].0.as_bytes(), path.as_bytes()), "the node at a location reports another location");
    }
}
