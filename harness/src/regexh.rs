//! C15: match() and search().
use crate::evalh::{self, arr, chars, child, filter, func, judge, key, name, obj, q};
use crate::ire;
use crate::mk::{self, Envs};
use crate::rfc::Expr;
use crate::vs;
use serde_json::Value;

/// Patterns of every I-Regexp construct.
pub static PATTERNS: &[&[u8]] = &[
    b"",
    b"a",
    b"ab",
    b".",
    b"a.b",
    b"..",
    b"[ab]",
    b"[^ab]",
    b"[a-c]b",
    b"[^a-c]",
    b"[-a]",
    b"[a-]",
    b"[.]",
    b"[\\]]",
    b"[\\\\a]",
    b"[a&&b]",
    b"[a~~b]",
    b"[&&]",
    b"\\.",
    b"a\\.",
    b"\\\\.",
    b"\\n",
    b"[\\n\\t]",
    b"a*",
    b"a+b",
    b"a?b?",
    b"(ab)*",
    b"(a|b)c",
    b"a|b",
    b"ab|c",
    b"a|",
    b"(a|b|)c",
    b"a{2}",
    b"a{1,2}",
    b"(ab){1,}",
    b"[^.]",
    b".*a",
    b"a.*",
    b"\\(a\\)",
    b"\\p{Lu}",
    b"[\\p{Nd}a]",
    b"\\P{L}",
    b"^a",
    b"a$",
    b"^a|b$",
    b"-",
    b"[\\-a]b",
    b"\xc3\xa9",
    b"[\xc3\xa9-\xe2\x98\xba]",
    b"a{10}",
    b"(a|b{0,12})",
];
/// Not I-Regexps.
pub static INVALID: &[&[u8]] = &[
    b"(",
    b")",
    b"a)",
    b"(a",
    b"[",
    b"]",
    b"[]",
    b"[a",
    b"*",
    b"a**",
    b"a+?",
    b"+",
    b"a{",
    b"a{2",
    b"a{x}",
    b"{2}",
    b"\\",
    b"\\d",
    b"\\w",
    b"\\s",
    b"\\b",
    b"[\\d]",
    b"(?:a)",
    b"(?i)a",
    b"\\p{Foo}",
    b"\\pL",
    b"[[:alpha:]]",
    b"[a[b]]",
    b"\\x61",
    b"[--a]",
    b"a{2}{3}",
];

fn lit(b: &[u8]) -> Expr {
    Expr::Str(b.to_vec())
}
fn at() -> Expr {
    Expr::Rel(q(vec![]))
}
fn call(search: bool, a: Expr, b: Expr) -> Expr {
    func(if search { b"search" } else { b"match" }, vec![a, b])
}
fn subject(t: usize) -> Value {
    Value::String(match t {
        0 => String::new(),
        1 => key(b"\x02"),
        2 => key(b"\x02\x02"),
        3 => key(b"\x02\x02\x02"),
        _ => key(b"\x07"),
    })
}

fn pair(s: Value, p: &[u8]) -> Value {
    obj(vec![("s".to_string(), s), ("p".to_string(), Value::String(vs::string(p.to_vec())))])
}
fn member(n: &[u8]) -> Expr {
    Expr::Rel(q(vec![child(vec![name(n)])]))
}

/// Patterns that are easily mistaken for one another, and a text.
static CONFUSED: &[(&[u8], &[u8], &[u8])] = &[
    (b"a", b"A", b""),
    (b"[a-c]x", b"[A-C]x", b"x"),
    (b"a", b" a", b""),
    (b"a", b"a ", b""),
    (b"ab", b"ba", b"b"),
    (b"a.", b"a\\.", b"."),
    (b"a", b"a|", b""),
    (b"", b"a", b""),
    (b"1", b"01", b"1"),
    (b"\\p{Lu}", b"\\p{Ll}", b"a"),
    (b"\\p{Lu}", b"\\P{Lu}", b"a"),
    (b"a+", b"a*", b""),
    (b"a{1}", b"a{2}", b"a"),
    (b"[ab]", b"[^ab]", b""),
    (b"(a)", b"(a", b""),
    (b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"),
    (b"abababababababababababababababababababab", b"bababababababababababababababababababababa", b"babababababababababababababababababababa"),
    ("\u{e9}".as_bytes(), "e\u{301}".as_bytes(), "\u{e9}".as_bytes()),
    (b"Straat", b"straat", b"traat"),
    (b"\\n", b"n", b""),
];

/// Groups: 7 patterns easily confused, one after the other, 8 longer subjects; 0 every pattern on every string of up to two ASCII characters (and
/// one of any length), 1 invalid patterns, 2 arguments of other kinds, 3
/// patterns with free characters, 4 history: three calls in a row, each with
/// its own pattern, 5 history beyond the size of a cache, 6 every pattern on
/// every string of up to three characters.
pub fn c15(p: u64) {
    let e = (p % 8) as usize;
    let env = Envs::new();
    if p / 8 == 5 {
        // more patterns than any cache holds
        for search in [false, true] {
            for k in 0..102 {
                let n = k.to_string();
                let d = arr(vec![pair(Value::String("a5".to_string()), n.as_bytes())]);
                let _ = mk::run(e, &env, &filter(call(search, member(b"s"), member(b"p"))), &d, false);
            }
        }
    }
    vs::begin();
    let search = vs::choose(2) == 1;
    match p / 8 {
        g @ (0 | 6) => {
            let pat = PATTERNS[vs::choose(PATTERNS.len())];
            let t = match vs::choose(4) {
                3 if g == 0 => 4,
                k => k,
            };
            if t == 4 && category(pat) {
                return;
            }
            let s = if long_count(pat) {
                vs::known("multi-digit-quantifier");
                Value::String("aaaaaaaaaa".to_string())
            } else {
                subject(t)
            };
            let doc = arr(vec![s]);
            judge(e, &env, &filter(call(search, at(), lit(pat))), &doc)
        }
        7 => {
            let (a, b, t) = CONFUSED[vs::choose(CONFUSED.len())];
            let (a, b) = if vs::choose(2) == 0 { (a, b) } else { (b, a) };
            let mut x = chars([&b""[..], b"\x02"][vs::choose(2)]);
            if vs::choose(2) == 0 {
                x.extend_from_slice(t)
            } else {
                x.splice(0..0, t.iter().copied());
            }
            let x = vs::string(x);
            let s = || Value::String(x.clone());
            let d = arr(vec![pair(s(), a), pair(s(), b), pair(s(), a)]);
            judge(e, &env, &filter(call(search, member(b"s"), member(b"p"))), &d);
            judge(e, &env, &filter(call(!search, member(b"s"), member(b"p"))), &d);
            // both at once
            let both = evalh::and(call(search, member(b"s"), lit(a)), evalh::not(call(search, member(b"s"), lit(b))));
            judge(e, &env, &filter(both), &d)
        }
        8 => {
            let pat: &[u8] = [&b"a"[..], b"ab", b"a.*b", b"(ab|cd)+", b"[^a]", b".", b"a{2,3}", b"x*", b"ab|cd", b"\\."][vs::choose(10)];
            let t: &[&[u8]] = &[b"\x02bcdefgh", b"abab\x02bab", b"cccccccc\x02", b"ab\x02ab", b"xx\nxx\x02", b"\x02aa", "\u{e9}\u{e9}\x02\u{1f600}".as_bytes(), b"....\x02...."];
            let d = arr(vec![Value::String(key(t[vs::choose(t.len())]))]);
            judge(e, &env, &filter(call(search, at(), lit(pat))), &d)
        }
        1 => {
            let pat = INVALID[vs::choose(INVALID.len())];
            vs::check(ire::parse(pat).is_none(), "the reference accepts the pattern");
            let doc = arr(vec![subject(vs::choose(3)), Value::String(vs::string(pat.to_vec()))]);
            judge(e, &env, &filter(call(search, at(), lit(pat))), &doc)
        }
        2 => {
            let v = |k: usize| match k {
                0 => None,
                1 => Some(Value::Null),
                2 => Some(Value::Bool(true)),
                3 => Some(evalh::int(evalh::i53())),
                4 => Some(arr(vec![Value::String("a".to_string())])),
                5 => Some(obj(vec![("a".to_string(), Value::String("a".to_string()))])),
                _ => Some(Value::String(key(b"\x02"))),
            };
            let mut m = vec![];
            if let Some(x) = v(vs::choose(7)) {
                m.push(("s".to_string(), x))
            }
            match vs::choose(7) {
                6 => m.push(("p".to_string(), Value::String(".".to_string()))),
                k => {
                    if let Some(x) = v(k) {
                        m.push(("p".to_string(), x))
                    }
                }
            }
            judge(e, &env, &filter(call(search, member(b"s"), member(b"p"))), &arr(vec![obj(m)]))
        }
        3 => {
            let mut pat = chars([&b"\x02"[..], b"a\x02", b"\x02a", b"[\x02]", b"[a\x02]", b"\\\x02", b"[\x02-c]", b"(\x02)"][vs::choose(8)]);
            for b in pat.iter_mut() {
                // compiling a pattern is not symbolic
                *b = vs::conc(*b as u64) as u8
            }
            let anchors = pat.iter().any(|&b| b == b'^' || b == b'$');
            if anchors && pat.len() > 1 {
                // neither standard says what anchors inside a pattern mean
                return;
            }
            let doc = arr(vec![subject(vs::choose(3))]);
            judge(e, &env, &filter(call(search, at(), lit(&pat))), &doc)
        }
        4 => {
            let few: [&[u8]; 6] = [b"a", b".", b"a*", b"a|b", b"(", b"[^a]"];
            let (a, b) = (few[vs::choose(6)], few[vs::choose(6)]);
            let first = pair(subject(1), a);
            let d = if vs::choose(2) == 0 {
                arr(vec![first, pair(subject(1), b), pair(Value::String("b".to_string()), a)])
            } else {
                arr(vec![first, pair(Value::String("b".to_string()), b), pair(Value::String("ba".to_string()), b)])
            };
            judge(e, &env, &filter(call(search, member(b"s"), member(b"p"))), &d);
            // the other function must not see what this one remembers
            judge(e, &env, &filter(call(!search, member(b"s"), member(b"p"))), &d)
        }
        _ => {
            let k = vs::choose(4);
            let pat: &[u8] = [&b"0"[..], b"101", b"51", b"."][k];
            let d = arr(vec![pair(subject(vs::choose(4)), pat), pair(subject(1), b"5")]);
            judge(e, &env, &filter(call(search, member(b"s"), member(b"p"))), &d)
        }
    }
}

fn category(p: &[u8]) -> bool {
    p.windows(2).any(|w| w == b"\\p" || w == b"\\P")
}
fn long_count(p: &[u8]) -> bool {
    p.windows(3).any(|w| (w[0] == b'{' || w[0] == b',') && w[1].is_ascii_digit() && w[2].is_ascii_digit())
}
