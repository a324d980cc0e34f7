//! C18..C21: singular query selectors, totality, agreement, functions of the
//! user's.
use crate::conv;
use crate::eval;
use crate::evalh::*;
use crate::mk::{self, Envs, E_FIND, E_ITER, E_LOC, E_LOOP, E_SING};
use crate::rfc::{self, Cmp, Expr, Num, Query, Seg, Sel};
use crate::text::{self, BASES, EXT_BASES};
use crate::vs;
use serde_json::{Number, Value};

// ------------------------------------------------------------------------ C18

/// A number JSON text can carry: any i64, any u64 beyond, any finite double.
fn any_number() -> Value {
    match vs::choose(3) {
        0 => int(vs::word() as i64),
        1 => Value::Number(Number::from(vs::word_in(1 << 63, u64::MAX))),
        _ => dbl(double()),
    }
}
/// The extremes, or any finite double.
fn some_number() -> Value {
    match vs::choose(7) {
        0 => int(0),
        1 => int(-1),
        2 => int(i64::MIN),
        3 => int(i64::MAX),
        4 => Value::Number(Number::from(1u64 << 63)),
        5 => Value::Number(Number::from(u64::MAX)),
        _ => dbl(double()),
    }
}
fn n() -> Value {
    Value::Null
}
fn key_value(k: &str, v: Value) -> (String, Value) {
    (k.to_string(), v)
}
fn root_query(sels: Vec<Sel>) -> Query {
    q(sels.into_iter().map(|s| child(vec![s])).collect())
}
fn sing(sels: Vec<Sel>) -> Sel {
    Sel::Singular(root_query(sels))
}

/// Groups: 0 every kind of value found by the embedded query, used on every
/// kind of value; 1 forms of embedded queries and their places; 2 the
/// implicit root in every query text; 3 evaluation of implicit-root texts.
pub fn c18(p: u64) {
    match p {
        0 => singular_values(),
        1 => singular_places(),
        2 => implicit_root(),
        3 => implicit_eval(),
        _ => singular_more(),
    }
}

fn singular_values() {
    let env = Envs::new();
    vs::begin();
    let mut m = vec![];
    let v = match vs::choose(10) {
        0 => None,
        1 => Some(int(vs::word() as i64)),
        2 => Some(Value::Number(Number::from(vs::word_in(1 << 63, u64::MAX)))),
        3 => {
            let f = double();
            // 1.0 and the like are left open
            let e = f.to_bits() >> 52 & 0x7ff;
            vs::assume((e < 1023) & (f.to_bits() << 1 != 0) | (e >= 1023 + 53));
            Some(dbl(f))
        }
        4 => Some(Value::String(key(b"\x01"))),
        5 => Some(Value::String(key([&b""[..], b"\x02\x02", b"\x07\x07"][vs::choose(3)]))),
        6 => Some(Value::Null),
        7 => Some(Value::Bool(vs::choose(2) == 1)),
        8 => Some(arr((0..vs::choose(3)).map(|_| int(i53())).collect())),
        _ => Some(obj(vec![key_value("0", n())])),
    };
    if let Some(v) = v {
        m.push(key_value("v", v))
    }
    m.push(key_value(
        "t",
        match vs::choose(5) {
            0 => arr((0..vs::choose(5)).map(|_| n()).collect()),
            1 => obj(vec![(key(b"\x07"), n()), (key(b"\x02\x02"), n()), key_value("", n())]),
            2 => obj(vec![key_value("0", n()), key_value("-1", n()), key_value("null", n()), key_value("true", n())]),
            3 => Value::String("ab".to_string()),
            _ => n(),
        },
    ));
    let doc = obj(m);
    let qq = q(vec![child(vec![name(b"t")]), child(vec![sing(vec![name(b"v")])])]);
    judge(E_SING, &env, &qq, &doc)
}

fn singular_places() {
    let env = Envs::new();
    vs::begin();
    // the value is found in an array or object, or is missing
    let pick = |k: usize| match k {
        0 => int(i53()),
        1 => Value::String(vs::string(vec![vs::byte(b'a', b'z')])),
        _ => n(),
    };
    let w = pick(vs::choose(3));
    let holder = match vs::choose(3) {
        0 => arr(vec![n(), w]),
        1 => obj(vec![(vs::string(vec![vs::byte(b'a', b'z')]), w)]),
        _ => obj(vec![key_value("b", arr(vec![w, int(0)]))]),
    };
    let list = || arr(vec![arr(vec![n(), n()]), obj(vec![key_value("a", n()), key_value("b", arr(vec![n()]))])]);
    let doc = if vs::choose(2) == 0 { obj(vec![key_value("v", holder), key_value("t", list())]) } else { arr(vec![holder, list()]) };
    let inner = match vs::choose(5) {
        0 => sing(vec![name(b"v"), Sel::Index(i53())]),
        1 => sing(vec![name(b"v"), Sel::Name(vec![vs::byte(b'a', b'z')])]),
        2 => sing(vec![name(b"v"), name(b"b"), Sel::Index(0)]),
        3 => sing(vec![Sel::Index(0), Sel::Index(i53())]),
        _ => sing(vec![]),
    };
    let t = || if vs::choose(2) == 0 { name(b"t") } else { Sel::Index(1) };
    let rest = match vs::choose(7) {
        0 => vec![child(vec![t()]), child(vec![Sel::Wild]), child(vec![inner])],
        1 => vec![child(vec![t()]), Seg { desc: true, sels: vec![inner] }],
        2 => vec![child(vec![t()]), child(vec![name(b"a"), inner, Sel::Index(0)])],
        3 => vec![child(vec![t()]), child(vec![Sel::Filter(Expr::Rel(q(vec![child(vec![inner])])))])],
        4 => vec![child(vec![t()]), child(vec![Sel::Filter(Expr::Not(Box::new(Expr::Rel(q(vec![Seg { desc: true, sels: vec![inner] }])))))])],
        5 => vec![child(vec![inner])],
        _ => vec![child(vec![t()]), child(vec![Sel::Filter(Expr::Rel(q(vec![child(vec![Sel::Filter(Expr::Rel(q(vec![child(vec![inner])])))])])))])],
    };
    judge(E_SING, &env, &q(rest), &doc)
}

/// Longer arrays, deeper embedded queries, several of them, longer names.
fn singular_more() {
    let env = Envs::new();
    vs::begin();
    let w = match vs::choose(3) {
        0 => int(i53()),
        1 => Value::String(key([&b"k\x02"[..], b"k1\x02", b"\x02", b"\x07\x02"][vs::choose(4)])),
        _ => [n(), Value::Bool(true), arr(vec![int(0)]), obj(vec![key_value("a", int(0))]), dbl(0.5), Value::String(String::new())][vs::choose(6)].clone(),
    };
    let deep = obj(vec![key_value("b", arr(vec![n(), obj(vec![key_value("c", arr(vec![int(0), w]))])]))]);
    let target = match vs::choose(3) {
        0 => arr((0..12).map(|_| n()).collect()),
        1 => {
            let mut m: Vec<(String, Value)> = (0..12).map(|i| (format!("k{i}"), n())).collect();
            m.push(key_value("", n()));
            m.push(key_value("0", n()));
            obj(m)
        }
        _ => arr(vec![arr(vec![n(), n()]), obj(vec![key_value("k1", arr(vec![n()])), key_value("0", n())])]),
    };
    let doc = obj(vec![key_value("a", deep), key_value("t", target), key_value("i", int(1))]);
    let long = || sing(vec![name(b"a"), name(b"b"), Sel::Index(1), name(b"c"), Sel::Index(-1)]);
    let t = || child(vec![name(b"t")]);
    let qq = match vs::choose(6) {
        0 => vec![t(), child(vec![long()])],
        1 => vec![t(), child(vec![long(), sing(vec![name(b"i")]), Sel::Index(0), long()])],
        2 => vec![Seg { desc: true, sels: vec![long(), sing(vec![name(b"i")])] }],
        3 => vec![t(), child(vec![sing(vec![name(b"i")])]), child(vec![long()])],
        4 => vec![t(), child(vec![Sel::Filter(Expr::Cmp(Box::new(func(b"count", vec![Expr::Root(q(vec![t(), child(vec![long()])]))])), Cmp::Eq, Box::new(Expr::Num(Num::Int(1)))))])],
        _ => vec![t(), child(vec![Sel::Filter(Expr::Rel(q(vec![child(vec![long(), Sel::Wild])])))])],
    };
    judge(E_SING, &env, &q(qq), &doc)
}

static IMPLICIT: &[&[u8]] = &[
    b"\x01\x01", b"\x08\x02\x02", b"a\x02\x02", b"[\x02\x02]", b"[\x02]\x02", b"['\x01']", b"a[\x02\x02]", b"[$\x02\x02]", b"[?\x02\x02]", b"a..\x02\x02", b"[0]\x02\x02",
];

/// `a` is `$.a`, and `[…]` is `$[…]`.
fn implicit_root() {
    crate::syntax::warm(conv::SING);
    vs::begin();
    let s = if vs::choose(2) == 0 { text::fill(IMPLICIT[vs::choose(IMPLICIT.len())]) } else { text::edit(EXT_BASES[vs::choose(EXT_BASES.len())]) };
    vs::note(&s);
    let Some(&b) = s.as_bytes().first() else { return };
    if b == b'$' {
        return;
    }
    let mut t = String::with_capacity(s.len() + 2);
    t.push_str(if b == b'[' { "$" } else { "$." });
    t.push_str(&s);
    // only a name or a bracketed selection can come first
    if !(b == b'[' || b == b'_' || b >= 0x80 || b.is_ascii_alphabetic()) {
        vs::check(!conv::accepts(conv::SING, &s), "accepted a text without a root that starts with neither a name nor a bracket");
        return;
    }
    match (conv::tree(conv::SING, &s), conv::tree(conv::SING, &t)) {
        (None, None) => vs::cover(1),
        (Some(x), Some(y)) => {
            vs::cover(2);
            if let Some(m) = rfc::diff(&x, &y) {
                vs::fail(m)
            }
        }
        _ => vs::fail("accepted only with, or only without, a leading $"),
    }
}

fn implicit_eval() {
    let env = Envs::new();
    mk::warm(E_SING, &env);
    let _ = mk::run_text(E_SING, &env, "a[$.b]", &n(), true);
    vs::begin();
    let k = || vs::string(vec![vs::byte(b'a', b'z')]);
    let doc = match vs::choose(3) {
        0 => obj(vec![(k(), obj(vec![(k(), n())])), (k(), Value::String(k()))]),
        1 => arr(vec![int(i53()), arr(vec![n(), n()]), obj(vec![(k(), n())])]),
        _ => obj(vec![("\u{e9}".to_string(), arr(vec![n(), int(i53())])), (k(), int(i53()))]),
    };
    let c = vs::byte(b'a', b'z');
    let t: &[&[u8]] = &[
        b"#", b"#.b", b"#[*]", b"['#']..b", b"[0]", b"[*].#", b"[1][$[0]]", b"#[$.#]", b"..#", b"[?@.#]", b"#[?@==$.b]", b"[?@>$[0]]", "\u{e9}[$.#]".as_bytes(), b"[$.#].b", b"*", b"@.#",
    ];
    let mut o = vec![];
    for &x in t[vs::choose(t.len())] {
        o.push(if x == b'#' { c } else { x })
    }
    let s = vs::string(o);
    vs::note(&s);
    let full = if s.starts_with('[') { format!("${s}") } else { format!("$.{s}") };
    let Ok(a) = mk::run_text(E_SING, &env, &s, &doc, true) else {
        vs::check(matches!(s.as_bytes()[0], b'*' | b'@' | b'.'), "rejected a query without a root");
        return;
    };
    let Ok(b) = mk::run_text(E_SING, &env, &full, &doc, true) else { vs::fail("rejected a query with a root") };
    vs::cover(3);
    vs::check(a.len() == b.len(), "another number of nodes without a leading $");
    for i in 0..a.len() {
        vs::check(std::ptr::eq(a[i].1, b[i].1) && eval::same(a[i].0.as_bytes(), b[i].0.as_bytes()), "another node without a leading $");
    }
    let want = eval::find(&rfc::parse(&full, true, &rfc::standard()).unwrap(), &doc, &doc);
    vs::check(a.len() == want.len(), "not the nodes the query means");
    for i in 0..a.len() {
        vs::check(std::ptr::eq(a[i].1, want[i].v), "not the nodes the query means");
    }
}

// ------------------------------------------------------------------------ C19

fn numeric(v: Value) -> Expr {
    match &v {
        Value::Number(x) => match x.as_i64() {
            Some(i) => Expr::Num(Num::Int(i)),
            None => Expr::Num(Num::Float(x.as_f64().unwrap())),
        },
        _ => panic!("not a number"),
    }
}

/// Nothing but an end is expected: a panic is a violation by itself.
fn ends(e: usize, env: &Envs, qq: &Query, doc: &Value) {
    match mk::run(e, env, qq, doc, true) {
        Ok(got) => vs::cover(if got.is_empty() { 1 } else { 2 }),
        Err(()) => vs::fail("evaluation reports an error"),
    }
}

/// Groups: 0 comparisons of any numbers, 1 arrays, objects and functions of
/// any numbers, 2 any index and slice in any position, 3 the base queries on
/// documents with any number, 4 depth of the stack, 5 singular selectors.
pub fn c19(p: u64) {
    let e = (p % 8) as usize;
    let env = Envs::new();
    match p / 8 {
        0 => {
            vs::begin();
            let (a, b) = (any_number(), some_number());
            let o = any_op();
            let mut m = vec![];
            let l = if vs::choose(2) == 0 {
                numeric(a)
            } else {
                m.push(key_value("a", a));
                rel(&[b"a"])
            };
            m.push(key_value("b", b));
            let (l, r) = if vs::choose(2) == 0 { (l, rel(&[b"b"])) } else { (rel(&[b"b"]), l) };
            ends(e, &env, &filter(Expr::Cmp(Box::new(l), o, Box::new(r))), &arr(vec![obj(m)]))
        }
        1 => {
            vs::begin();
            let x = any_number();
            let y = some_number();
            let wrap = |v: Value| match vs::choose(3) {
                0 => arr(vec![v]),
                1 => obj(vec![key_value("k", v)]),
                _ => v,
            };
            let m = vec![key_value("a", wrap(x)), key_value("b", wrap(y))];
            let all = || Expr::Rel(q(vec![child(vec![Sel::Wild])]));
            let l = match vs::choose(7) {
                0 => rel(&[b"a"]),
                1 => func(b"length", vec![rel(&[b"a"])]),
                2 => func(b"count", vec![all()]),
                3 => func(b"value", vec![rel(&[b"a"])]),
                4 => func(b"length", vec![func(b"value", vec![rel(&[b"a"])])]),
                k => {
                    let f = func(if k == 5 { b"match" } else { b"search" }, vec![rel(&[b"a"]), rel(&[b"b"])]);
                    return ends(e, &env, &filter(f), &arr(vec![obj(m)]));
                }
            };
            ends(e, &env, &filter(Expr::Cmp(Box::new(l), any_op(), Box::new(rel(&[b"b"])))), &arr(vec![obj(m)]))
        }
        2 => {
            vs::begin();
            let s = || match vs::choose(2) {
                0 => Sel::Index(i53()),
                _ => Sel::Slice(opt53(), opt53(), opt53()),
            };
            let doc = match vs::choose(4) {
                0 => arr(vec![]),
                1 => arr(vec![arr(vec![n(), n()]), n()]),
                2 => obj(vec![key_value("a", arr(vec![arr(vec![])])), key_value("b", any_number())]),
                _ => any_number(),
            };
            let qq = match vs::choose(4) {
                0 => q(vec![child(vec![s(), Sel::Wild])]),
                1 => q(vec![Seg { desc: true, sels: vec![s()] }]),
                2 => filter(Expr::Rel(q(vec![child(vec![s()])]))),
                _ => q(vec![child(vec![Sel::Wild]), child(vec![s()])]),
            };
            ends(e, &env, &qq, &doc)
        }
        3 => {
            mk::warm(e, &env);
            vs::begin();
            let x = any_number();
            let doc = match vs::choose(3) {
                0 => obj(vec![key_value("a", x)]),
                1 => obj(vec![key_value("a", obj(vec![key_value("a", x), key_value("b", any_number())])), key_value("b", arr(vec![any_number(), n()]))]),
                _ => arr(vec![x, obj(vec![key_value("a", any_number()), key_value("b", n())]), arr(vec![any_number()])]),
            };
            let bases = if e == E_SING && vs::choose(2) == 1 { EXT_BASES } else { BASES };
            let s = vs::string(bases[vs::choose(bases.len())].to_vec());
            vs::note(&s);
            match mk::run_text(e, &env, &s, &doc, true) {
                Ok(got) => vs::cover(if got.is_empty() { 1 } else { 2 }),
                Err(()) => {}
            }
        }
        4 => depth(e),
        k @ 6..=15 => crate::scale::total(e, k - 6),
        _ => {
            vs::begin();
            let doc = obj(vec![key_value("v", any_number()), key_value("t", arr((0..vs::choose(3)).map(|_| n()).collect()))]);
            let i = sing(vec![name(b"v")]);
            let qq = match vs::choose(3) {
                0 => q(vec![child(vec![name(b"t")]), child(vec![i])]),
                1 => q(vec![Seg { desc: true, sels: vec![i] }]),
                _ => q(vec![child(vec![Sel::Filter(Expr::Rel(q(vec![child(vec![i])])))])]),
            };
            ends(e, &env, &qq, &doc)
        }
    }
}

// ------------------------------------------------- functions of the user's

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
static FIRST: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);

/// What a function of the harness does.
#[derive(Clone, Copy)]
enum Body {
    /// its argument
    Id,
    /// a code for the kind of its argument
    Kind,
    /// the depth of the stack is noted; false
    Probe,
    /// a code for the kinds of all its arguments
    Code,
    /// (Logical, Value, Nodes): the value if the first holds, else the size of the nodelist
    Pick,
}

macro_rules! functions {
    ($m:ident, $c:ident, $res:path) => {
        pub mod $m {
            use super::*;
            use $c::function::{ExpressionType, FunctionExtension, FunctionSignature};
            use $res as R;
            pub struct F(Vec<rfc::Ty>, rfc::Ty, Body);
            fn ty(t: rfc::Ty) -> ExpressionType {
                match t {
                    rfc::Ty::Logical => ExpressionType::Logical,
                    rfc::Ty::Nodes => ExpressionType::Nodes,
                    rfc::Ty::Value => ExpressionType::Value,
                }
            }
            impl FunctionExtension for F {
                fn call<'a>(&self, args: Vec<R<'a>>) -> R<'a> {
                    vs::check(args.len() == self.0.len(), "a function is called with another number of arguments");
                    match self.2 {
                        Body::Id => args.into_iter().next().unwrap(),
                        Body::Code => {
                            let mut c = 1;
                            for (x, t) in args.iter().zip(self.0.iter()) {
                                c = c * 32
                                    + match (t, x) {
                                        (rfc::Ty::Logical, R::Bool(b)) => *b as i64,
                                        (rfc::Ty::Nodes, R::Nodes(n)) => n.len() as i64,
                                        (rfc::Ty::Value, R::Nothing) => 0,
                                        (rfc::Ty::Value, R::Null) => 1,
                                        (rfc::Ty::Value, R::Bool(b)) => 2 + *b as i64,
                                        (rfc::Ty::Value, R::Int(_)) => 4,
                                        (rfc::Ty::Value, R::Float(_)) => 5,
                                        (rfc::Ty::Value, R::String(s)) => 6 + s.len().min(3) as i64,
                                        (rfc::Ty::Value, R::Array(_)) => 10,
                                        (rfc::Ty::Value, R::Object(_)) => 11,
                                        _ => vs::fail("an argument is not of the declared type"),
                                    }
                            }
                            R::Int(c)
                        }
                        Body::Kind => R::Int(match &args[0] {
                            R::Nothing => 0,
                            R::Null => 1,
                            R::Bool(_) => 2,
                            R::Int(_) => 3,
                            R::Float(_) => 4,
                            R::String(_) => 5,
                            R::Array(_) => 6,
                            R::Object(_) => 7,
                            R::Nodes(n) => 100 + n.len() as i64,
                        }),
                        Body::Probe => {
                            let d = vs::depth();
                            if FIRST.load(Relaxed) == 0 {
                                FIRST.store(d, Relaxed)
                            }
                            LAST.store(d, Relaxed);
                            R::Bool(false)
                        }
                        Body::Pick => {
                            let mut i = args.into_iter();
                            let (l, v, n) = (i.next().unwrap(), i.next().unwrap(), i.next().unwrap());
                            match (l, n) {
                                (R::Bool(true), R::Nodes(_)) => v,
                                (R::Bool(false), R::Nodes(n)) => R::Int(n.len() as i64),
                                _ => vs::fail("an argument is not of the declared type"),
                            }
                        }
                    }
                }
                fn sig(&self) -> FunctionSignature {
                    FunctionSignature { param_types: self.0.iter().map(|&t| ty(t)).collect(), return_type: ty(self.1) }
                }
            }
            pub fn register_all(env: &mut $c::env::Environment) {
                for t in super::signatures() {
                    env.function_register.insert(super::code_name(&t), Box::new(F(t, rfc::Ty::Value, Body::Code)));
                }
            }
            pub fn register(env: &mut $c::env::Environment) {
                for (name, params, ret, body) in super::user() {
                    env.function_register.insert(name.to_string(), Box::new(F(params, ret, body)));
                }
            }
        }
    };
}
functions!(serde_f, serde_ev, serde_ev::ast::FilterExpressionResult);
functions!(iter_f, iter_ev, iter_ev::filter::FilterExpressionResult);
functions!(loc_f, loc_ev, loc_ev::filter::FilterExpressionResult);
functions!(sing_f, sing_ev, sing_ev::filter::FilterExpressionResult);

fn user() -> Vec<(&'static str, Vec<rfc::Ty>, rfc::Ty, Body)> {
    use rfc::Ty::*;
    vec![
        ("id_v", vec![Value], Value, Body::Id),
        ("id_l", vec![Logical], Logical, Body::Id),
        ("id_n", vec![Nodes], Nodes, Body::Id),
        ("kind_v", vec![Value], Value, Body::Kind),
        ("kind_l", vec![Logical], Value, Body::Kind),
        ("kind_n", vec![Nodes], Value, Body::Kind),
        ("pick", vec![Logical, Value, Nodes], Value, Body::Pick),
        ("probe", vec![Value], Logical, Body::Probe),
    ]
}

/// Every list of up to three types, and three of five.
fn signatures() -> Vec<Vec<rfc::Ty>> {
    use rfc::Ty::*;
    let mut all: Vec<Vec<rfc::Ty>> = vec![vec![]];
    let mut last = 0;
    for _ in 0..3 {
        let from = last;
        last = all.len();
        for i in from..last {
            for t in [Logical, Nodes, Value] {
                let mut x = all[i].clone();
                x.push(t);
                all.push(x)
            }
        }
    }
    all.push(vec![Value; 5]);
    all.push(vec![Value, Logical, Nodes, Value, Logical]);
    all.push(vec![Nodes, Nodes, Value, Logical, Value]);
    all
}
/// Names the types, so that the reference knows them.
fn code_name(t: &[rfc::Ty]) -> String {
    let mut s = "f_".to_string();
    for x in t {
        s.push(match x {
            rfc::Ty::Logical => 'l',
            rfc::Ty::Nodes => 'n',
            rfc::Ty::Value => 'v',
        })
    }
    s
}

/// Functions of every signature.
fn codes(e: usize) {
    let mut env = Envs::new();
    match e {
        E_FIND | E_LOOP => serde_f::register_all(&mut env.serde),
        E_ITER => {
            let mut x = iter_ev::env::Environment::new();
            iter_f::register_all(&mut x);
            env.iter = Box::leak(Box::new(x))
        }
        E_LOC => {
            let mut x = loc_ev::env::Environment::new();
            loc_f::register_all(&mut x);
            env.loc = Box::leak(Box::new(x))
        }
        _ => {
            let mut x = sing_ev::env::Environment::new();
            sing_f::register_all(&mut x);
            env.sing = Box::leak(Box::new(x))
        }
    }
    vs::begin();
    let all = signatures();
    let t = &all[vs::choose(all.len())];
    let many = t.len() > 2;
    let args: Vec<Expr> = t
        .iter()
        .map(|t| match t {
            rfc::Ty::Value => match vs::choose(if many { 3 } else { 8 }) {
                0 => rel(&[b"x"]),
                1 => rel(&[b"a"]),
                2 => Expr::Num(Num::Int(7)),
                3 => Expr::Str(b"ab".to_vec()),
                4 => Expr::Null,
                5 => Expr::Num(Num::Float(0.5)),
                6 => Expr::True,
                _ => func(b"length", vec![rel(&[b"x"])]),
            },
            rfc::Ty::Nodes => match vs::choose(if many { 2 } else { 4 }) {
                0 => rel(&[b"x"]),
                1 => Expr::Rel(q(vec![child(vec![Sel::Wild])])),
                2 => Expr::Root(q(vec![Seg { desc: true, sels: vec![Sel::Wild] }])),
                _ => rel(&[b"a"]),
            },
            rfc::Ty::Logical => match vs::choose(if many { 2 } else { 5 }) {
                0 => rel(&[b"x"]),
                1 => rel(&[b"a"]),
                2 => not(rel(&[b"a"])),
                3 => Expr::Cmp(Box::new(rel(&[b"a"])), Cmp::Eq, Box::new(rel(&[b"b"]))),
                _ => or(rel(&[b"x"]), rel(&[b"b"])),
            },
        })
        .collect();
    let a = match vs::choose(if many { 3 } else { 8 }) {
        0 => n(),
        1 => int(i53()),
        2 => Value::String("s".to_string()),
        3 => Value::Bool(vs::choose(2) == 1),
        4 => arr(vec![n()]),
        5 => obj(vec![]),
        6 => dbl(double()),
        _ => Value::String(String::new()),
    };
    let doc = arr(vec![obj(vec![key_value("a", a), key_value("b", n()), key_value("c", int(i53()))])]);
    let o = if vs::choose(2) == 0 { Cmp::Eq } else { Cmp::Lt };
    judge(e, &env, &filter(Expr::Cmp(Box::new(func(code_name(t).as_bytes(), args)), o, Box::new(rel(&[b"c"])))), &doc)
}
fn user_env() -> Envs {
    let mut serde = serde_ev::env::Environment::new();
    let mut iter = iter_ev::env::Environment::new();
    let mut loc = loc_ev::env::Environment::new();
    let mut sing = sing_ev::env::Environment::new();
    serde_f::register(&mut serde);
    iter_f::register(&mut iter);
    loc_f::register(&mut loc);
    sing_f::register(&mut sing);
    Envs { serde, iter: Box::leak(Box::new(iter)), loc: Box::leak(Box::new(loc)), sing: Box::leak(Box::new(sing)) }
}

/// The stack is no deeper at the last of many nodes than at the first.
fn depth(e: usize) {
    const N: usize = 96;
    let env = user_env();
    vs::begin();
    let list = || arr((0..N).map(|_| n()).collect());
    let members = |v: &dyn Fn(usize) -> Value| obj((0..N).map(|i| (format!("k{i}"), v(i))).collect());
    let doc = match vs::choose(5) {
        0 => list(),
        1 => members(&|_| n()),
        2 => arr((0..N).map(|_| arr(vec![n()])).collect()),
        3 => members(&|_| arr(vec![n(), n()])),
        // most of them have nothing to select from
        _ => arr((0..N).map(|i| if i % (N - 1) == 0 { arr(vec![arr(vec![n()])]) } else { n() }).collect()),
    };
    let probe = || Sel::Filter(func(b"probe", vec![Expr::Rel(q(vec![]))]));
    let qq = match vs::choose(10) {
        0 => q(vec![child(vec![probe()])]),
        1 => q(vec![Seg { desc: true, sels: vec![probe()] }]),
        2 => q(vec![child(vec![Sel::Wild]), child(vec![probe()])]),
        3 => q(vec![child(vec![Sel::Slice(None, None, None)]), child(vec![probe()])]),
        4 => q(vec![child(vec![Sel::Wild]), child(vec![Sel::Wild]), child(vec![probe()])]),
        5 => q(vec![child(vec![Sel::Wild]), child(vec![Sel::Index(0)]), child(vec![probe()])]),
        6 => q(vec![child(vec![Sel::Filter(Expr::Rel(q(vec![child(vec![probe()])])))])]),
        7 => q(vec![child(vec![Sel::Index(1), Sel::Slice(None, None, Some(-1)), Sel::Wild]), child(vec![name(b"a"), probe()])]),
        8 => q(vec![child(vec![Sel::Filter(Expr::Cmp(Box::new(func(b"count", vec![Expr::Root(q(vec![child(vec![probe()])]))])), Cmp::Gt, Box::new(Expr::Num(Num::Int(0)))))])]),
        _ => q(vec![Seg { desc: true, sels: vec![Sel::Wild] }, child(vec![probe()])]),
    };
    FIRST.store(0, Relaxed);
    LAST.store(0, Relaxed);
    let Ok(got) = mk::run(e, &env, &qq, &doc, false) else { vs::fail("evaluation reports an error") };
    vs::check(got.is_empty(), "a filter that never holds selects");
    vs::cover(3);
    let (a, b) = (FIRST.load(Relaxed), LAST.load(Relaxed));
    vs::check(b <= a + 64 * N as u64 / 2, "the stack grows with the number of nodes");
}

// ------------------------------------------------------------------------ C20

macro_rules! all_five {
    ($e:ident, $f:expr) => {
        [E_FIND, E_LOOP, E_ITER, E_LOC, E_SING].map(|$e| $f)
    };
}

fn agree(r: &[Result<mk::Found, ()>]) {
    for i in 1..r.len() {
        match (&r[0], &r[i]) {
            (Err(()), Err(())) => {}
            (Ok(a), Ok(b)) => {
                vs::check(a.len() == b.len(), "two evaluators return different numbers of nodes");
                for k in 0..a.len() {
                    vs::check(std::ptr::eq(a[k].1, b[k].1), "two evaluators return different nodes");
                    vs::check(eval::same(a[k].0.as_bytes(), b[k].0.as_bytes()), "two evaluators report different locations");
                }
            }
            _ => vs::fail("two evaluators disagree about whether a query is an error"),
        }
    }
}

fn text_doc() -> Value {
    obj(vec![
        key_value("a", obj(vec![key_value("a", int(1)), key_value("b", arr(vec![int(1), int(2), int(3)])), key_value("c", Value::String("ax".to_string()))])),
        key_value("b", arr(vec![obj(vec![key_value("a", int(1))]), obj(vec![key_value("a", int(2)), key_value("b", int(0))]), Value::Bool(true)])),
        key_value("c", arr(vec![Value::String("a".to_string()), n(), dbl(-1.5)])),
    ])
}

/// Groups: 0 two segments, 1 filters, 2 base texts with one character
/// changed, 3 free texts, 4 the lazy iterator consumed in part and
/// interleaved.
pub fn c20(p: u64) {
    let env = Envs::new();
    if p >= 2 {
        for e in 0..5 {
            mk::warm(e, &env);
        }
    }
    vs::begin();
    match p {
        k @ 5..=14 => {
            let (doc, qq) = crate::scale::case(k - 5);
            let r = all_five!(e, mk::run(e, &env, &qq, &doc, true));
            vs::cover(1);
            agree(&r)
        }
        0 => {
            let doc = tree_doc();
            let qq = q(vec![some_seg(true), some_seg(false)]);
            let r = all_five!(e, mk::run(e, &env, &qq, &doc, true));
            vs::cover(1);
            agree(&r)
        }
        1 => {
            let doc = arr(vec![element_doc(true), obj(vec![key_value("x", int(i53()))]), falsy()]);
            let a = atom(vs::choose(10));
            let fe = match vs::choose(4) {
                0 => a,
                1 => Expr::Not(Box::new(a)),
                2 => Expr::And(Box::new(atom(vs::choose(4))), Box::new(a)),
                _ => Expr::Or(Box::new(a), Box::new(atom(vs::choose(4)))),
            };
            let qq = filter(fe);
            let r = all_five!(e, mk::run(e, &env, &qq, &doc, true));
            vs::cover(1);
            agree(&r)
        }
        2 | 3 => {
            let s = if p == 2 { text::edit(BASES[vs::choose(BASES.len())]) } else { text::fill(crate::syntax::FREE[vs::choose(crate::syntax::FREE.len())]) };
            vs::note(&s);
            let doc = text_doc();
            let r = all_five!(e, mk::run_text(e, &env, &s, &doc, true));
            vs::cover(if r[0].is_ok() { 1 } else { 2 });
            // extensions are accepted by one crate only
            let n = if r[0].is_err() && r[4].is_ok() && rfc::parse(&s, true, &rfc::standard()).is_some() { 4 } else { 5 };
            agree(&r[..n])
        }
        _ => {
            let doc = tree_doc();
            let qq = if vs::choose(2) == 0 { q(vec![some_seg(true)]) } else { q(vec![some_seg(false), some_seg(false)]) };
            let Ok(want) = mk::run(E_FIND, &env, &qq, &doc, true) else { vs::fail("evaluation reports an error") };
            let new = || iter_ev::iter::QueryIter::new(env.iter, &doc, mk::iter_m::query(&qq));
            // two iterators, the first one ahead of the second
            let (mut i, mut j) = (new(), new());
            let mut a = vec![];
            let ahead = vs::choose(3);
            for _ in 0..ahead {
                if let Some(x) = i.next() {
                    a.push(x)
                }
            }
            let mut b = vec![];
            if vs::choose(2) == 0 {
                // one is dropped after its first node
                let _ = j.next();
                j = new();
            }
            loop {
                let (x, y) = (i.next(), j.next());
                if x.is_none() && y.is_none() {
                    break;
                }
                a.extend(x);
                b.extend(y)
            }
            vs::cover(1);
            vs::check(a.len() == want.len() && b.len() == want.len(), "an iterator consumed in part yields another number of nodes");
            for k in 0..want.len() {
                vs::check(std::ptr::eq(a[k].value, want[k].1) && std::ptr::eq(b[k].value, want[k].1), "an iterator consumed in part yields other nodes");
                vs::check(eval::same(a[k].location.as_bytes(), want[k].0.as_bytes()), "an iterator consumed in part yields other locations");
            }
        }
    }
}

// ------------------------------------------------------------------------ C21

/// The first `n` of nine.
fn value_arg(n: usize) -> Expr {
    match vs::choose(n) {
        0 => rel(&[b"a"]),
        1 => Expr::Rel(q(vec![])),
        2 => Expr::Root(q(vec![child(vec![Sel::Index(i53())])])),
        3 => Expr::Num(Num::Int(i53())),
        4 => Expr::Str(chars(b"\x02")),
        5 => [Expr::True, Expr::False, Expr::Null].into_iter().nth(vs::choose(3)).unwrap(),
        6 => func(b"id_v", vec![rel(&[b"a"])]),
        7 => func(b"length", vec![rel(&[b"a"])]),
        _ => func(b"value", vec![Expr::Rel(q(vec![child(vec![Sel::Wild])]))]),
    }
}
/// The first `n` of six.
fn nodes_arg(n: usize) -> Expr {
    match vs::choose(n) {
        0 => rel(&[b"a"]),
        1 => Expr::Rel(q(vec![child(vec![Sel::Wild])])),
        2 => Expr::Root(q(vec![Seg { desc: true, sels: vec![name(b"a")] }])),
        3 => Expr::Rel(q(vec![])),
        4 => func(b"id_n", vec![rel(&[b"a"])]),
        _ => Expr::Root(q(vec![child(vec![Sel::Wild])])),
    }
}
fn logical_arg() -> Expr {
    match vs::choose(9) {
        0 => rel(&[b"a"]),
        1 => Expr::Rel(q(vec![child(vec![Sel::Wild])])),
        2 => Expr::Not(Box::new(rel(&[b"b"]))),
        3 => Expr::And(Box::new(rel(&[b"a"])), Box::new(rel(&[b"b"]))),
        4 => Expr::Cmp(Box::new(rel(&[b"a"])), Cmp::Lt, Box::new(rel(&[b"b"]))),
        5 => func(b"id_l", vec![rel(&[b"a"])]),
        6 => func(b"id_n", vec![Expr::Rel(q(vec![child(vec![Sel::Wild])]))]),
        7 => Expr::Root(q(vec![child(vec![Sel::Index(i53())])])),
        _ => func(b"match", vec![rel(&[b"a"]), Expr::Str(b".*".to_vec())]),
    }
}

/// Functions of the user's: what they are called with, and what becomes of
/// their results.  Groups: 0 one argument, 1 to
/// 3 three of fewer or more kinds, 4 every signature.
pub fn c21(p: u64) {
    let e = (p % 8) as usize;
    if p / 8 == 4 {
        return codes(e);
    }
    let env = user_env();
    vs::begin();
    let doc = arr(vec![if vs::choose(3) == 0 { falsy() } else { element_doc(true) }]);
    let cmp = |f: Expr| Expr::Cmp(Box::new(f), if vs::choose(2) == 0 { Cmp::Eq } else { Cmp::Lt }, Box::new(if vs::choose(2) == 0 { Expr::Num(Num::Int(i53())) } else { rel(&[b"b"]) }));
    let test = |f: Expr| match vs::choose(3) {
        0 => f,
        1 => Expr::Not(Box::new(f)),
        _ => Expr::And(Box::new(f), Box::new(rel(&[b"b"]))),
    };
    let fe = match p / 8 {
        0 => match vs::choose(6) {
            0 => cmp(func(b"id_v", vec![value_arg(9)])),
            1 => cmp(func(b"kind_v", vec![value_arg(9)])),
            2 => cmp(func(b"kind_l", vec![logical_arg()])),
            3 => cmp(func(b"kind_n", vec![nodes_arg(6)])),
            4 => test(func(b"id_l", vec![logical_arg()])),
            _ => test(func(b"id_n", vec![nodes_arg(6)])),
        },
        1 => cmp(func(b"pick", vec![logical_arg(), value_arg(3), nodes_arg(2)])),
        2 => cmp(func(b"pick", vec![rel(&[b"a"]), value_arg(9), nodes_arg(6)])),
        _ => cmp(func(b"pick", vec![logical_arg(), value_arg(9), nodes_arg(6)])),
    };
    judge(e, &env, &filter(fe), &doc)
}
