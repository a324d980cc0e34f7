//! The reference tree as each evaluator's own syntax tree, and one uniform
//! way to run the evaluators.
use crate::rfc::{self, Cmp, Expr, Num, Sel};
use serde_json::Value;

fn st(b: &[u8]) -> String {
    // every name and string of a reference tree is well-formed UTF-8
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

macro_rules! mk {
    ($m:ident, {$($imports:tt)*}, $sing:expr) => {
        pub mod $m {
            use super::*;
            $($imports)*
            pub fn query(q: &rfc::Query) -> Query {
                let mut v = segs(q);
                // as the parser does
                v.push(Segment::Eoi);
                Query::new(v)
            }
            pub fn segs(q: &rfc::Query) -> Vec<Segment> {
                let mut v = Vec::with_capacity(q.segs.len() + 1);
                for s in q.segs.iter() {
                    let mut sels = Vec::with_capacity(s.sels.len());
                    for x in s.sels.iter() {
                        sels.push(sel(x))
                    }
                    v.push(if s.desc { Segment::Recursive { selectors: sels } } else { Segment::Child { selectors: sels } })
                }
                v
            }
            pub fn sel(s: &Sel) -> Selector {
                match s {
                    Sel::Name(n) => Selector::Name { name: st(n) },
                    Sel::Index(i) => Selector::Index { index: *i },
                    Sel::Slice(a, b, c) => Selector::Slice { start: *a, stop: *b, step: *c },
                    Sel::Wild => Selector::Wild {},
                    Sel::Filter(e) => Selector::Filter { expression: Box::new(expr(e)) },
                    Sel::Singular(q) => $sing(q),
                }
            }
            fn ops(o: Cmp) -> ComparisonOperator {
                match o {
                    Cmp::Eq => ComparisonOperator::Eq,
                    Cmp::Ne => ComparisonOperator::Ne,
                    Cmp::Le => ComparisonOperator::Le,
                    Cmp::Ge => ComparisonOperator::Ge,
                    Cmp::Lt => ComparisonOperator::Lt,
                    Cmp::Gt => ComparisonOperator::Gt,
                }
            }
            pub fn expr(e: &Expr) -> FilterExpression {
                use FilterExpression as F;
                match e {
                    Expr::True => F::True {},
                    Expr::False => F::False {},
                    Expr::Null => F::Null {},
                    Expr::Str(s) => F::String { value: st(s) },
                    Expr::Num(Num::Int(i)) => F::Int { value: *i },
                    Expr::Num(Num::Float(f)) => F::Float { value: *f },
                    Expr::Num(Num::Text(_)) => panic!("a number as text"),
                    Expr::Not(x) => F::Not { expression: Box::new(expr(x)) },
                    Expr::And(l, r) => F::Logical { left: Box::new(expr(l)), operator: LogicalOperator::And, right: Box::new(expr(r)) },
                    Expr::Or(l, r) => F::Logical { left: Box::new(expr(l)), operator: LogicalOperator::Or, right: Box::new(expr(r)) },
                    Expr::Cmp(l, o, r) => F::Comparison { left: Box::new(expr(l)), operator: ops(*o), right: Box::new(expr(r)) },
                    Expr::Rel(q) => F::RelativeQuery { query: Box::new(Query::new(segs(q))) },
                    Expr::Root(q) => F::RootQuery { query: Box::new(Query::new(segs(q))) },
                    Expr::Fn(n, a) => {
                        let mut v = Vec::with_capacity(a.len());
                        for x in a.iter() {
                            v.push(expr(x))
                        }
                        F::Function { name: st(n), args: v }
                    }
                }
            }
        }
    };
}

mk!(serde_m, {use serde_ev::ast::{Query, Segment, Selector, FilterExpression, LogicalOperator, ComparisonOperator};}, |_| panic!("not in this crate"));
mk!(iter_m, {use iter_ev::{query::Query, segment::Segment, selector::Selector, filter::{FilterExpression, LogicalOperator, ComparisonOperator}};}, |_| panic!("not in this crate"));
mk!(loc_m, {use loc_ev::{query::Query, segment::Segment, selector::Selector, filter::{FilterExpression, LogicalOperator, ComparisonOperator}};}, |_| panic!("not in this crate"));
mk!(sing_m, {use sing_ev::{query::Query, segment::Segment, selector::Selector, filter::{FilterExpression, LogicalOperator, ComparisonOperator}};}, |q| Selector::SingularQuery { query: Box::new(Query::new(segs(q))) });

/// The evaluators.
pub const E_FIND: usize = 0;
pub const E_LOOP: usize = 1;
pub const E_ITER: usize = 2;
pub const E_LOC: usize = 3;
pub const E_SING: usize = 4;

/// Environments with nothing in their caches.
pub struct Envs {
    pub serde: serde_ev::env::Environment,
    pub iter: &'static iter_ev::env::Environment,
    pub loc: &'static loc_ev::env::Environment,
    pub sing: &'static sing_ev::env::Environment,
}
impl Envs {
    #[inline(never)]
    pub fn new() -> Envs {
        Envs {
            serde: serde_ev::env::Environment::new(),
            iter: Box::leak(Box::new(iter_ev::env::Environment::new())),
            loc: Box::leak(Box::new(loc_ev::env::Environment::new())),
            sing: Box::leak(Box::new(sing_ev::env::Environment::new())),
        }
    }
}

pub type Found<'v> = Vec<(String, &'v Value)>;

/// Location and value of every node, in order; `Err` if evaluation reports an
/// error.  Without `paths` the locations are left empty.
#[inline(never)]
pub fn run<'v>(e: usize, env: &Envs, q: &rfc::Query, doc: &'v Value, paths: bool) -> Result<Found<'v>, ()> {
    let mut out = vec![];
    match e {
        E_FIND | E_LOOP => {
            let q = serde_m::query(q);
            let r = if e == E_FIND { q.find(doc, &env.serde) } else { q.find_loop(doc, &env.serde) };
            match r {
                Ok(n) => {
                    for x in n {
                        out.push((if paths { x.location } else { String::new() }, x.value))
                    }
                }
                Err(_) => return Err(()),
            }
        }
        E_ITER => {
            for x in iter_ev::iter::QueryIter::new(env.iter, doc, iter_m::query(q)) {
                out.push((if paths { x.location.clone() } else { String::new() }, x.value))
            }
        }
        E_LOC => {
            for x in loc_m::query(q).find(doc, env.loc) {
                out.push((if paths { x.path() } else { String::new() }, x.value))
            }
        }
        _ => {
            for x in sing_m::query(q).find(doc, env.sing) {
                out.push((if paths { x.path() } else { String::new() }, x.value))
            }
        }
    }
    Ok(out)
}

/// The same from query text; `Err` if the text is not accepted.  The three
/// ways to do that (a query, an environment, a function) take turns.
#[inline(never)]
pub fn run_text<'v>(e: usize, env: &Envs, s: &str, doc: &'v Value, paths: bool) -> Result<Found<'v>, ()> {
    let mut out = vec![];
    let way = s.len() % 3;
    match e {
        E_FIND | E_LOOP => {
            let r = match (way, e == E_FIND) {
                (0, find) => {
                    let Ok(q) = serde_ev::Query::standard(s) else { return Err(()) };
                    if find {
                        q.find(doc, &env.serde)
                    } else {
                        q.find_loop(doc, &env.serde)
                    }
                }
                (1, true) => env.serde.find(s, doc),
                (1, false) => env.serde.find_loop(s, doc),
                (_, true) => serde_ev::jsonpath::find(s, doc),
                (_, false) => serde_ev::jsonpath::find_loop(s, doc),
            };
            match r {
                Ok(n) => {
                    for x in n {
                        out.push((if paths { x.location } else { String::new() }, x.value))
                    }
                }
                Err(_) => return Err(()),
            }
        }
        E_ITER => {
            let i = match way {
                0 => {
                    let Ok(q) = iter_ev::Query::standard(s) else { return Err(()) };
                    iter_ev::iter::QueryIter::new(env.iter, doc, q)
                }
                1 => env.iter.find(s, doc).map_err(|_| ())?,
                _ => iter_ev::jsonpath::find(s, doc).map_err(|_| ())?,
            };
            for x in i {
                out.push((if paths { x.location.clone() } else { String::new() }, x.value))
            }
        }
        E_LOC => {
            let r = match way {
                0 => {
                    let Ok(q) = loc_ev::Query::standard(s) else { return Err(()) };
                    Ok(q.find(doc, env.loc))
                }
                1 => env.loc.find(s, doc),
                _ => loc_ev::jsonpath::find(s, doc),
            };
            for x in r.map_err(|_| ())? {
                out.push((if paths { x.path() } else { String::new() }, x.value))
            }
        }
        _ => {
            let r = match way {
                0 => {
                    let Ok(q) = sing_ev::Query::standard(s) else { return Err(()) };
                    Ok(q.find(doc, env.sing))
                }
                1 => env.sing.find(s, doc),
                _ => sing_ev::jsonpath::find(s, doc),
            };
            for x in r.map_err(|_| ())? {
                out.push((if paths { x.path() } else { String::new() }, x.value))
            }
        }
    }
    Ok(out)
}

/// Everything that is set up at the first use of a text is set up.
pub fn warm(e: usize, env: &Envs) {
    for s in ["$[?length(@.a)>1.5]", "$[?length(@.a)>1.55]", "$[?length(@.a)>1.555]", "$[", "$[0", "$[00"] {
        let _ = run_text(e, env, s, &Value::Null, true);
    }
}
