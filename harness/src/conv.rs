//! Every crate's syntax tree as the reference tree.
use crate::rfc::{self, Cmp, Expr, Num, Seg, Sel};

macro_rules! ops {
    ($co:ident, $o:expr) => {
        match $o {
            $co::Eq => Cmp::Eq,
            $co::Ne => Cmp::Ne,
            $co::Le => Cmp::Le,
            $co::Ge => Cmp::Ge,
            $co::Lt => Cmp::Lt,
            $co::Gt => Cmp::Gt,
        }
    };
}

macro_rules! conv {
    ($m:ident, {$($imports:tt)*}, {$($segextra:tt)*}, {$($selextra:tt)*}, $t:ident $f:ident $s:ident) => {
        pub mod $m {
            use super::*;
            $($imports)*
            pub fn query(q: &Query) -> rfc::Query {
                let mut segs = vec![];
                for s in q.segments.iter() {
                    match s {
                        Segment::Child { selectors, .. } => segs.push(Seg { desc: false, sels: sels(selectors) }),
                        Segment::Recursive { selectors, .. } => segs.push(Seg { desc: true, sels: sels(selectors) }),
                        $($segextra)*
                    }
                }
                rfc::Query { segs }
            }
            pub fn sels(v: &Vec<Selector>) -> Vec<Sel> {
                let mut out = vec![];
                for s in v.iter() {
                    out.push(match s {
                        Selector::Name { name, .. } => Sel::Name(name.as_bytes().to_vec()),
                        Selector::Index { index, .. } => Sel::Index(*index),
                        Selector::Slice { start, stop, step, .. } => Sel::Slice(*start, *stop, *step),
                        Selector::Wild { .. } => Sel::Wild,
                        Selector::Filter { expression, .. } => Sel::Filter(expr(expression)),
                        $($selextra)*
                    })
                }
                out
            }
            conv_expr!($t $f $s);
        }
    };
}
macro_rules! conv_expr {
    ($t:ident $f:ident $s:ident) => {
        pub fn expr(e: &FilterExpression) -> Expr {
            use FilterExpression as F;
            match e {
                F::$t { .. } => Expr::True,
                F::$f { .. } => Expr::False,
                F::Null { .. } => Expr::Null,
                F::$s { value, .. } => Expr::Str(value.as_bytes().to_vec()),
                F::Int { value, .. } => Expr::Num(Num::Int(*value)),
                F::Float { value, .. } => Expr::Num(Num::Float(*value)),
                F::Not { expression, .. } => Expr::Not(Box::new(expr(expression))),
                F::Logical { left, operator, right, .. } => {
                    let (l, r) = (Box::new(expr(left)), Box::new(expr(right)));
                    match operator {
                        LogicalOperator::And => Expr::And(l, r),
                        LogicalOperator::Or => Expr::Or(l, r),
                    }
                }
                F::Comparison { left, operator, right, .. } => {
                    Expr::Cmp(Box::new(expr(left)), ops!(ComparisonOperator, operator), Box::new(expr(right)))
                }
                F::RelativeQuery { query: q, .. } => Expr::Rel(query(q)),
                F::RootQuery { query: q, .. } => Expr::Root(query(q)),
                F::Function { name, args, .. } => {
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(expr(a))
                    }
                    Expr::Fn(name.as_bytes().to_vec(), v)
                }
            }
        }
    };
}

conv!(hand_c, {use hand::query::{Query, Segment, Selector, FilterExpression, LogicalOperator, ComparisonOperator};}, {}, {}, True False String);
conv!(pest_c, {use pest_ast::ast::{Query, Segment, Selector, FilterExpression, LogicalOperator, ComparisonOperator};}, {Segment::Eoi => {}}, {}, True False String);
conv!(serde_c, {use serde_ev::ast::{Query, Segment, Selector, FilterExpression, LogicalOperator, ComparisonOperator};}, {Segment::Eoi => {}}, {}, True False String);
conv!(iter_c, {use iter_ev::{query::Query, segment::Segment, selector::Selector, filter::{FilterExpression, LogicalOperator, ComparisonOperator}};}, {Segment::Eoi => {}}, {}, True False String);
conv!(loc_c, {use loc_ev::{query::Query, segment::Segment, selector::Selector, filter::{FilterExpression, LogicalOperator, ComparisonOperator}};}, {Segment::Eoi => {}}, {}, True False String);
conv!(sing_c, {use sing_ev::{query::Query, segment::Segment, selector::Selector, filter::{FilterExpression, LogicalOperator, ComparisonOperator}};}, {Segment::Eoi => {}}, {Selector::SingularQuery { query: q } => Sel::Singular(query(q)),}, True False String);

pub mod rec_c {
    use super::*;
    use pest_rec::ast::{ComparisonOperator, FilterExpression, LogicalOperator, Query, Segment, Selector};
    pub fn query(q: &Query) -> rfc::Query {
        let mut segs = vec![];
        let mut s = &q.ast;
        loop {
            match s {
                Segment::Root {} => break,
                Segment::Child { left, selectors } => {
                    segs.push(Seg { desc: false, sels: sels(selectors) });
                    s = left;
                }
                Segment::Recursive { left, selectors } => {
                    segs.push(Seg { desc: true, sels: sels(selectors) });
                    s = left;
                }
            }
        }
        segs.reverse();
        rfc::Query { segs }
    }
    pub fn sels(v: &Vec<Selector>) -> Vec<Sel> {
        let mut out = vec![];
        for s in v.iter() {
            out.push(match s {
                Selector::Name { name } => Sel::Name(name.as_bytes().to_vec()),
                Selector::Index { index } => Sel::Index(*index),
                Selector::Slice { start, stop, step } => Sel::Slice(*start, *stop, *step),
                Selector::Wild {} => Sel::Wild,
                Selector::Filter { expression } => Sel::Filter(expr(expression)),
            })
        }
        out
    }
    conv_expr!(True_ False_ StringLiteral);
}

/// One parse outcome: the tree, its printed form, and the crate's own query
/// object kept out of sight.
pub struct Parsed {
    pub tree: rfc::Query,
    pub text: String,
}
pub const HAND: usize = 0;
pub const PEST: usize = 1;
pub const REC: usize = 2;
pub const SERDE: usize = 3;
pub const ITER: usize = 4;
pub const LOC: usize = 5;
pub const SING: usize = 6;

macro_rules! each_crate {
    ($k:expr, $q:ident => $body:expr, $conv:ident, $text:expr) => {
        match $k {
            0 => { let $q = hand::Query::standard($text); use hand_c as $conv; $body }
            1 => { let $q = pest_ast::ast::Query::standard($text); use pest_c as $conv; $body }
            2 => { let $q = pest_rec::ast::Query::standard($text); use rec_c as $conv; $body }
            3 => { let $q = serde_ev::ast::Query::standard($text); use serde_c as $conv; $body }
            4 => { let $q = iter_ev::query::Query::standard($text); use iter_c as $conv; $body }
            5 => { let $q = loc_ev::query::Query::standard($text); use loc_c as $conv; $body }
            _ => { let $q = sing_ev::query::Query::standard($text); use sing_c as $conv; $body }
        }
    };
}

/// Does crate `k` accept the text?
#[inline(never)]
pub fn accepts(k: usize, s: &str) -> bool {
    each_crate!(k, q => { let _ = conv::query; q.is_ok() }, conv, s)
}
/// Parse and, on an error, render it; `Err` carries the rendered message.
#[inline(never)]
pub fn parse_or_msg(k: usize, s: &str) -> Result<(), String> {
    each_crate!(k, q => { let _ = conv::query; match q { Ok(_) => Ok(()), Err(e) => Err(e.to_string()) } }, conv, s)
}
#[inline(never)]
pub fn tree(k: usize, s: &str) -> Option<rfc::Query> {
    each_crate!(k, q => match q { Ok(q) => Some(conv::query(&q)), Err(_) => None }, conv, s)
}
/// Tree and printed form.
#[inline(never)]
pub fn parsed(k: usize, s: &str) -> Option<Parsed> {
    each_crate!(k, q => match q { Ok(q) => Some(Parsed { tree: conv::query(&q), text: q.to_string() }), Err(_) => None }, conv, s)
}

// ---- parsers with functions of the user's

macro_rules! with_sigs {
    ($f:ident, $parser:path, $ty:path, $sig:path, $field:ident, $conv:ident) => {
        fn $f(s: &str, sigs: &[rfc::Sig]) -> Option<rfc::Query> {
            use $parser as Parser;
            use $sig as Signature;
            use $ty as Type;
            fn ty(t: rfc::Ty) -> Type {
                match t {
                    rfc::Ty::Logical => Type::Logical,
                    rfc::Ty::Nodes => Type::Nodes,
                    rfc::Ty::Value => Type::Value,
                }
            }
            let mut p = Parser::new();
            for g in sigs {
                let mut v = vec![];
                for &t in &g.params {
                    v.push(ty(t))
                }
                p.$field.insert(g.name.clone(), Signature { param_types: v, return_type: ty(g.ret) });
            }
            match p.parse(s) {
                Ok(q) => Some($conv::query(&q)),
                Err(_) => None,
            }
        }
    };
}
with_sigs!(hand_w, hand::Parser, hand::ExpressionType, hand::FunctionSignature, functions, hand_c);
with_sigs!(pest_w, pest_ast::JSONPathParser, pest_ast::parser::ExpressionType, pest_ast::parser::FunctionSignature, functions, pest_c);
with_sigs!(rec_w, pest_rec::JSONPathParser, pest_rec::parser::ExpressionType, pest_rec::parser::FunctionSignature, function_signatures, rec_c);
with_sigs!(serde_w, serde_ev::JSONPathParser, serde_ev::function::ExpressionType, serde_ev::function::FunctionSignature, functions, serde_c);
with_sigs!(iter_w, iter_ev::JSONPathParser, iter_ev::function::ExpressionType, iter_ev::function::FunctionSignature, functions, iter_c);
with_sigs!(loc_w, loc_ev::JSONPathParser, loc_ev::function::ExpressionType, loc_ev::function::FunctionSignature, functions, loc_c);
with_sigs!(sing_w, sing_ev::JSONPathParser, sing_ev::function::ExpressionType, sing_ev::function::FunctionSignature, functions, sing_c);

/// The tree, parsed by a parser that knows these functions besides (or
/// instead of) the standard ones.
#[inline(never)]
pub fn tree_with(k: usize, s: &str, sigs: &[rfc::Sig]) -> Option<rfc::Query> {
    match k {
        0 => hand_w(s, sigs),
        1 => pest_w(s, sigs),
        2 => rec_w(s, sigs),
        3 => serde_w(s, sigs),
        4 => iter_w(s, sigs),
        5 => loc_w(s, sigs),
        _ => sing_w(s, sigs),
    }
}
/// The same through `add_function`, where the crate has it.
pub fn tree_added(k: usize, s: &str, name: &str, params: &[rfc::Ty], ret: rfc::Ty) -> Option<rfc::Query> {
    match k {
        0 => {
            let ty = |t| match t {
                rfc::Ty::Logical => hand::ExpressionType::Logical,
                rfc::Ty::Nodes => hand::ExpressionType::Nodes,
                rfc::Ty::Value => hand::ExpressionType::Value,
            };
            let mut p = hand::Parser::new();
            p.add_function(name, params.iter().map(|&t| ty(t)).collect(), ty(ret));
            p.parse(s).ok().map(|q| hand_c::query(&q))
        }
        _ => {
            let ty = |t| match t {
                rfc::Ty::Logical => pest_rec::parser::ExpressionType::Logical,
                rfc::Ty::Nodes => pest_rec::parser::ExpressionType::Nodes,
                rfc::Ty::Value => pest_rec::parser::ExpressionType::Value,
            };
            let mut p = pest_rec::JSONPathParser::new();
            p.add_function(name, params.iter().map(|&t| ty(t)).collect(), ty(ret));
            p.parse(s).ok().map(|q| rec_c::query(&q))
        }
    }
}
